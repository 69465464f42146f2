"""Writes /verif/properties.jsonl (one place to edit the statements)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None, hook=None):
    P.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why,
              'anchors': {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech], 'observe_at': observe or [],
                          'state': [{'name': n, 'meaning': m, 'where': w} for n, m, w in (state or [])], 'hook_needed': hook}})
PY = 'pyregpt/pyregpt.py'
prop('C01', 'Memory safety and defined behaviour of every calculation',
 'No sequence of calls on the Python classes, for any linear spectrum (down to two tabulated points), any requested wavenumbers (none, one, repeated, unsorted, outside of the table), any positive node counts, ranges and thread counts, makes the native library read or write outside the memory it owns or was given, use released or uninitialised memory, or execute undefined behaviour. The process never crashes: what cannot be calculated (no linear spectrum given yet) raises an exception.',
 ['inputs', 'histories', 'configurations'], 'all spectra, wavenumber arrays, precision settings, thread counts and call orders',
 'The tests run one spectrum on sorted in-range wavenumbers with an uninstrumented library; an out-of-bounds read of a few bytes usually gives a plausible number.',
 ['src/common.c', 'src/calc_pkcorr_from_B.c', 'src/spectrum_B.c', 'src/gamma2d_1loop.c', PY],
 [('per-thread quadrature tables allocated and freed by each calculation', 'src/common.c init_gauss_legendre_q/free_gauss_legendre_q'), ('arrays handed to the library as raw pointers', 'pyregpt/pyregpt.py set_terms/run_terms')],
 ['AddressSanitizer, UndefinedBehaviorSanitizer and memcheck reports on the instrumented library'])
prop('C02', 'Parallel calculations are free of data races',
 'Within any calculation run on several threads, no two threads access the same memory without synchronisation when at least one of them writes. This holds for every type of terms, any number of threads (also more threads than wavenumbers) and any schedule.',
 ['schedules', 'inputs', 'configurations'], 'all interleavings of the threads of every calculation',
 'The tests use one thread count and compare values at 1e-3..1e-7; a race shows only on rare interleavings.',
 ['src/spectrum_1loop.c', 'src/spectrum_2loop.c', 'src/spectrum_A_1loop.c', 'src/spectrum_A_2loop.c', 'src/spectrum_B.c', 'src/spectrum_bias_1loop.c'],
 [('threadprivate quadrature tables', 'threadprivate directives of calc_pkcorr_from_*.c, gamma*_*.c'), ('one wavenumber per loop iteration, disjoint output cells', 'run_terms_* parallel loops'), ('critical section around release', 'run_terms_*')],
 ['ThreadSanitizer reports, happens-before of the OpenMP runtime made visible by link-time wrappers'])
prop('C03', 'Results do not depend on thread count or schedule',
 'For every type of terms, the values obtained are bitwise identical whatever the number of threads requested and however the threads are scheduled, and whatever was the number of threads of previous calculations.',
 ['schedules', 'configurations', 'inputs'], 'all thread counts and interleavings',
 'The tests fix nthreads=8 and compare at loose tolerances with stored values.',
 ['src/spectrum_1loop.c', 'src/spectrum_2loop.c', 'src/spectrum_A_1loop.c', 'src/spectrum_A_2loop.c', 'src/spectrum_B.c', 'src/spectrum_bias_1loop.c', 'src/regpt.c'],
 [('each wavenumber computed by one thread from its own tables', 'run_terms_* parallel loops'), ('thread count set at each run', 'src/regpt.c set_num_threads')],
 ['outputs of run_terms for thread counts 1..17 under injected start/critical-section delays'])
prop('C04', 'Each wavenumber is computed independently of the others requested',
 'For every type of terms and for the interpolated spectrum and displacement dispersion, the value at a wavenumber is the same whether it is requested alone, with others, first or last, in ascending, descending or random order, or several times. Requesting no wavenumber is allowed and yields empty results.',
 ['inputs'], 'all finite arrays of positive wavenumbers',
 'Tests only pass one ascending array.',
 ['src/common.c', 'src/spectrum_1loop.c', 'src/spectrum_2loop.c', 'src/spectrum_A_1loop.c', 'src/spectrum_A_2loop.c', 'src/spectrum_B.c', 'src/spectrum_bias_1loop.c'],
 [('search for the table interval', 'src/common.c find_pk'), ('running integral carried from one wavenumber to the next', 'src/common.c calc_running_sigmad2'), ('output offsets per wavenumber', 'run_terms_*')],
 ['outputs for permuted, split and duplicated requests'])
prop('C05', 'Results depend only on the current inputs and settings, not on history',
 'The result of a calculation is a function of the current linear spectrum, the current precision settings and its own arguments: previous calculations of any type, previous spectra and previous settings that have been replaced leave no trace, and repeating a calculation repeats its result. After clear() everything behaves as in a fresh process.',
 ['histories', 'configurations'], 'all sequences of public calls within one process',
 'Each test runs a couple of calculations in one fixed order.',
 ['src/common.c', 'src/calc_pkcorr_from_gamma3.c', 'src/calc_pkcorr_from_A_2loop_II_III.c', 'src/spectrum_B.c', PY],
 [('settings and tables kept in file-scope variables', 'precision_q, interpol_pk_lin, uvcutoff of each src/*.c'), ('defaults restored', 'src/common.c set_precision; pyregpt/pyregpt.py clear'), ('initialisation at each run', 'init_* functions')],
 ['outputs of a calculation at the end of a random history against the same calculation in a fresh process'])
prop('C06', 'Instances are isolated and the arrays given are only read',
 'Calculations through one instance use the linear spectrum given to that instance and write only to the terms of that instance, however calls through several instances are interleaved and whatever instances or input arrays have been dropped meanwhile. Linear spectra and wavenumbers may be given with any numeric type and memory layout, and are never modified.',
 ['histories', 'inputs'], 'all interleavings of calls on several instances, all array types and layouts',
 'Tests use one instance at a time (or finish one before creating the next), with contiguous double arrays.',
 [PY, 'src/regpt.c', 'src/spectrum_1loop.c'],
 [('pointers to the arrays of the last instance kept by the library', 'src/regpt.c set_pk_lin; set_terms_* of src/spectrum_*.c'), ('registration of arrays at each use', 'pyregpt/pyregpt.py _register_spectrum_lin, _register_terms')],
 ['terms of interleaved instances against the same calculation done alone; hashes of the input arrays before and after'])
prop('C07', 'Interpolation and extrapolation of the linear spectrum',
 'The linear spectrum at any positive wavenumber is: within the table, the polynomial through the up to five neighbouring tabulated points centred on the preceding point (truncated at the ends of the table), or the straight line between the two neighbours in linear mode, exactly the tabulated value at tabulated wavenumbers; outside, for tables of at least three points, the power law whose index is the mean centred logarithmic slope at the (up to 14) lowest or the (up to 15) highest interior points, continued from the second lowest or the highest tabulated point. Extrapolation from a non-positive spectrum gives zero.',
 ['inputs'], 'all tabulated spectra and all wavenumbers',
 'One test compares one spectrum at in-range points at 1e-3-like tolerance; no test extrapolates, uses tables with few points, or the linear mode at the edge.',
 ['src/common.c', PY], [('interval search', 'src/common.c get_dichotomy_index, find_pk'), ('Neville interpolation', 'src/common.c interpol_poly'), ('extrapolation', 'src/common.c extrapol_pk_lowk, extrapol_pk_highk')],
 ['PyRegPT.find_pk_lin, interpol_poly, interpol_lin, the pk_lin column of all terms'])
prop('C08', 'Running displacement dispersion',
 'sigmad2(k) equals 1/(6 pi^2) times the trapezoidal integral of the linear spectrum over the table from its first wavenumber up to uvcutoff*k, the last segment being cut by linear interpolation: zero when uvcutoff*k is below the table, constant above it, never decreasing with k for a positive spectrum. The same quantity is returned by calc_running_sigmad2 and in the sigmad2 column of every type of terms, with the cutoff set for that type.',
 ['inputs', 'configurations'], 'all spectra, wavenumbers and cutoffs',
 'One test at one spectrum and cutoff 0.5.',
 ['src/common.c', PY], [('running integral', 'src/common.c calc_running_sigmad2'), ('cutoffs per type of terms', 'set_running_uvcutoff_*, set_precision_A_*_sigmad2')],
 ['PyRegPT.calc_running_sigmad2 and the sigmad2 columns'])
prop('C09', 'Gauss-Legendre nodes and weights',
 'For every number of nodes n>=1 and interval, the nodes are distinct, ascending, inside the interval and symmetric about its middle, the weights are positive, symmetric and sum to its length, and the rule integrates every polynomial of degree up to 2n-1 exactly (to rounding).',
 ['inputs'], 'all node counts and intervals',
 'One test compares one n with numpy.', ['src/common.c', PY], [('Newton iteration on Legendre polynomials', 'src/common.c nodes_weights_gauss_legendre')],
 ['PyRegPT.nodes_weights_gauss_legendre'])
prop('C10', 'One-loop spectrum terms equal their perturbation-theory integrals',
 'For every spectrum, k, pair of fields and precision setting, the one-loop propagators equal the quadrature, over ln q, of q^3 P(q) times the angular average of the third-order kernel of the field, and the one-loop mode-coupling term equals the quadrature of 2 F_a F_b P(q) P(|k-q|) over the triangles with q and |k-q| inside the integration range, F being the symmetrised second-order kernels. The pk_lin column is the linear spectrum at k.',
 ['inputs', 'configurations'], 'all positive spectra, wavenumbers, field pairs, node counts and ranges',
 'Tests compare with stored values for one spectrum and the default nodes, at 1e-2..1e-5 tolerance, so that regimes of the kernels with little weight are never decided.',
 ['src/gamma1_1loop.c', 'src/calc_pkcorr_from_gamma2.c', 'src/kernels.c', 'src/spectrum_1loop.c'],
 [('closed-form kernels with expansions around q=k and q>>k', 'src/gamma1_1loop.c kernel_ff, kernel_gg'), ('second-order kernels', 'src/kernels.c F2_sym_fast'), ('angular range and q <-> k-q symmetry', 'src/calc_pkcorr_from_gamma2.c set_mu_range')],
 ['columns of Spectrum1Loop'])
prop('C11', 'Two-loop spectrum terms equal their integrals (deterministic part)',
 'For every spectrum, k, pair of fields and precision setting, the two-loop propagator terms equal half the square of the one-loop ones plus the double quadrature of the published two-loop kernel of each field, and the terms mixing tree and one-loop second-order propagators equal the quadrature of 2 P(q) P(|k-q|) times their products, the one-loop propagator being the quadrature of q^3 P(q) times the angular average of the fourth-order kernel, in all its regimes (exact, low and high q, elongated, collinear, near-degenerate).',
 ['inputs', 'configurations'], 'all positive spectra, wavenumbers, field pairs, node counts and ranges',
 'The two-loop tests do not run without the Cuba library, and would compare 10 wavenumbers of one spectrum at percent level.',
 ['src/gamma1_2loop.c', 'src/gamma2d_1loop.c', 'src/gamma2t_1loop.c', 'src/calc_pkcorr_from_gamma1.c', 'src/calc_pkcorr_from_gamma2.c', 'src/kernels.c', 'src/spectrum_2loop.c'],
 [('two-loop kernel', 'src/gamma1_2loop.c alpha'), ('one-loop second-order kernels by regime', 'src/gamma2d_1loop.c kernel_gamma2d, src/gamma2t_1loop.c kernel_gamma2t')],
 ['columns of Spectrum2Loop'])
prop('C12', 'Monte-Carlo integrands are the right ones',
 'The function handed to the Monte-Carlo integrator for the three-wavevector mode-coupling term and for the one-loop bispectrum contributions to the two-loop A term equals, at every point of the unit hypercube and for every spectrum, k, field pair and range, the integrand of perturbation theory (third and second-order kernels times linear spectra, Jacobian of the map included, zero outside the integration domain), and the term is the integral times its normalisation.',
 ['inputs', 'configurations'], 'all points of the hypercube, spectra, wavenumbers, fields and ranges',
 'The tests of these terms need the Cuba library and compare a noisy integral at a few wavenumbers.',
 ['src/calc_pkcorr_from_gamma3.c', 'src/calc_pkcorr_from_A_2loop_II_III.c', 'src/bispectrum_1loop.c', 'src/kernels.c'],
 [('integrands', 'kernel_pk_gamma3_tree, kernel_A_tA_2loop_II_III'), ('symmetrised third-order kernel', 'src/kernels.c F3_sym')],
 ['calls of the integrator, pk_gamma3_tree and A2Loop pk'])
prop('C13', 'A terms equal their bispectrum integrals',
 'For every spectrum, k and precision setting, the five one-loop A columns equal the quadrature of the published kernels (tree-level bispectrum), in every regime of q/k, and the five two-loop A columns equal the quadrature of the projection kernels times the regularised one-loop bispectrum, combined by powers of mu^2 and f, plus the Monte-Carlo part. For a spectrum of vanishing amplitude the two-loop columns reduce to the one-loop ones.',
 ['inputs', 'configurations'], 'all positive spectra, wavenumbers, node counts and ranges',
 'Stored values for one spectrum at k>0.1; the two-loop test does not run without Cuba.',
 ['src/calc_pkcorr_from_A_1loop.c', 'src/calc_pkcorr_from_A_2loop_I.c', 'src/bispectrum_1loop.c', 'src/spectrum_A_1loop.c', 'src/spectrum_A_2loop.c'],
 [('kernels', 'src/calc_pkcorr_from_A_1loop.c kernel_A_tA_1loop, kernel_a_1loop; src/calc_pkcorr_from_A_2loop_I.c kernel_projection_A_tA'), ('regularised bispectrum', 'src/bispectrum_1loop.c bispectrum_1loop_I'), ('combination', 'src/spectrum_A_2loop.c run_terms_A_2loop')],
 ['pk columns of A1Loop, A2Loop'])
prop('C14', 'B terms equal their integrals over the input spectra',
 'For every spectrum, k and precision setting, the nine B columns equal the quadrature of the published kernels times products of the delta-theta and theta-theta spectra at q and |k-q|, each column combining the contributions of one power of mu^2 and f. The one-loop B uses the linear spectrum for both, the two-loop B uses the regularised one-loop spectra of the corresponding fields computed with the current settings.',
 ['inputs', 'configurations'], 'all positive spectra, wavenumbers, node counts and ranges',
 'Stored values for one spectrum at k>0.1.',
 ['src/calc_pkcorr_from_B.c', 'src/spectrum_B.c', PY], [('kernels', 'src/calc_pkcorr_from_B.c kernel_B'), ('combination', 'src/spectrum_B.c run_terms_B'), ('input spectra', 'pyregpt/pyregpt.py B1Loop.run_terms, B2Loop.run_terms')],
 ['pk columns of B1Loop, B2Loop'])
prop('C15', 'Bias terms equal their integrals',
 'For every spectrum, k and precision setting, each one-loop bias term equals the quadrature of its second-order kernel and linear spectra over q and angle, the auto terms (b22, b2s2, bs22) having their large-scale limit subtracted, so that they vanish as k tends to zero; the cross terms for delta and theta differ only by the second-order kernel of the field.',
 ['inputs', 'configurations'], 'all positive spectra, wavenumbers, node counts and ranges',
 'Stored values for one spectrum at k>0.1.',
 ['src/calc_pkcorr_from_bias_1loop.c', 'src/spectrum_bias_1loop.c', 'src/kernels.c'], [('kernels', 'src/spectrum_bias_1loop.c kernel_*'), ('quadrature', 'src/calc_pkcorr_from_bias_1loop.c calc_pk_bias_1loop')],
 ['columns of Bias1Loop'])
prop('C16', 'Assembled spectra follow the RegPT resummation and growth scaling',
 'For every set of terms, growth factor D (scalar or array) and optional damping sigma_d^2, pk(D, sigmad2) of the one and two-loop spectra equals the published regularised expression of the terms, pk_lin and the bias spectra scale as D^2 and D^4 (with the optional damped forms), and evaluating at D equals evaluating at D=1 the terms rescaled by D.',
 ['inputs'], 'all terms, growth factors and dampings',
 'Tests use one growth per stored k.',
 [PY], [('regularised expressions', 'Spectrum1Loop.pk, Spectrum2Loop.pk'), ('growth and damping decorators', 'scale_factor, damping_factor'), ('powers of the growth of each term', 'SCALE tables')],
 ['pk, pk_lin, pk_b* methods'])
prop('C17', 'Precision settings act as named, persist, and clear restores the defaults',
 'Every precision setting (node counts, ranges, interpolation modes, UV cutoffs) changes exactly the calculations it names, group names set all their members, settings persist until changed whatever is calculated, a non-positive bound selects the range of the linear spectrum in use, and giving no value or calling clear() restores the defaults.',
 ['histories', 'configurations'], 'all sequences of settings and calculations',
 'Tests set a couple of groups and check that values move.',
 [PY, 'src/common.c', 'src/calc_pkcorr_from_gamma3.c'], [('settings', 'src/common.c set_precision, set_interpol; set_precision_* of src/*.c'), ('group names', 'pyregpt/pyregpt.py set_precision, set_running_uvcutoff, clear')],
 ['terms against the reference model run with the settings tracked by a model'])
prop('C18', 'Verbosity controls output only',
 'In quiet mode no call writes anything to standard output or creates any file; info mode reports each call on standard output with its true particulars (size and range of the spectrum or wavenumbers given, what is calculated, for which fields, on how many threads, for how long), debug mode writes its debug files with the calculated values; the mode lasts until changed, whatever instances are created or copied meanwhile. The results are the same in all modes.',
 ['histories', 'configurations'], 'all sequences of calls and mode changes',
 'The verbosity test only checks that the calls do not fail.',
 [PY, 'src/regpt.c', 'src/spectrum_1loop.c', 'src/spectrum_2loop.c', 'src/spectrum_B.c'], [('global mode', 'src/regpt.c set_verbosity'), ('mode of new instances', 'pyregpt/pyregpt.py PyRegPT.__init__')],
 ['file descriptor 1 and the working directory of the process'])
prop('C19', 'Containers of terms: selection, copies, padding, rescaling',
 'Selecting, assigning, iterating, converting, copying and padding terms act on all columns consistently: a selection holds the selected rows of every column, deepcopy shares nothing with its origin, copy keeps every attribute, pad_k keeps the existing rows and adds the requested wavenumbers with the given fill (and the true linear spectrum and dispersion for calculated terms), nan_to_zero changes only NaNs, and rescale(s) multiplies each column by s to twice its power of the linear spectrum, rescale(1/s) undoing it.',
 ['inputs', 'histories'], 'all types of terms, indices, paddings and scales',
 'Tests copy one type and pad another once (and the pad test does not run without Cuba).',
 [PY], [('column container', 'Terms.__getitem__, __setitem__, copy, deepcopy, pad_k, rescale'), ('padding of calculated terms', 'PyRegPT.pad_k')],
 ['columns of all classes'])
prop('C20', 'Interpolated redshift-space polynomials',
 'For every wavenumber, squared cosine, growth rate and growth factor (scalars or broadcastable arrays), pk_interp of the A and B terms equals the sum over columns of the linear interpolation of that column times its power of mu^2 and of the growth rate, pk_interp of spectra equals the linear interpolation of pk, with the left and right values used outside of the range.',
 ['inputs'], 'all arguments',
 'No test calls pk_interp.',
 [PY], [('polynomials', 'A1Loop.pk_interp, B1Loop.pk_interp, Terms.pk_interp')], ['pk_interp'])
prop('C21', 'Dispersions and no-wiggle spectrum',
 'sigmav, sigmar(r) and sigma8 equal the trapezoidal integrals over the table of pk, respectively unweighted and weighted by the squared spherical top-hat window, scale linearly with the growth and decrease with r for sigmar; the no-wiggle spectrum equals the Eisenstein-Hu zero-baryon-oscillation form, positive and smooth, normalised to the amplitude given or, without one, to the first point of the spectrum given. Shot-noise damping is 1 inside its range and falls monotonically outside.',
 ['inputs'], 'all spectra, radii and cosmological parameters',
 'The tests check two of these at one point.',
 [PY], [('dispersions', 'Terms.sigmav, sigmar, sigma8'), ('transfer function', 'SpectrumNoWiggle.transfer, run_terms'), ('shot-noise damping', 'Bias1Loop.shotnoise')], ['sigmav, sigmar, sigma8, SpectrumNoWiggle'])
prop('C22', 'Finite results for every positive spectrum',
 'For every positive finite linear spectrum (three points at least), every k from 1e-6 of the largest node upwards and every precision setting, all terms are finite, including at k equal to tabulated or quadrature wavenumbers, at degenerate triangles, and far outside of the table, and no column is left unset.',
 ['inputs', 'configurations'], 'all positive spectra, wavenumbers and settings',
 'The tests never place a node on a singular point of a kernel.',
 ['src/gamma1_1loop.c', 'src/kernels.c', 'src/gamma2d_1loop.c', 'src/gamma2t_1loop.c', 'src/calc_pkcorr_from_A_1loop.c', 'src/gamma1_2loop.c', 'src/calc_pkcorr_from_bias_1loop.c'],
 [('expansions around singular points', 'kernel_ff, kernel_gamma2d, small_beta, big_beta, kernel_a_1loop')], ['all columns, also through allocation-poisoned runs'])
prop('C23', 'Memory of a calculation is released',
 'When a calculation returns, the library has released all memory it allocated for it, exactly once each, whatever the thread count: memory use does not grow with the number of calculations.',
 ['histories', 'schedules', 'configurations'], 'all sequences of calculations and thread counts',
 'No test looks at memory.',
 ['src/common.c', 'src/spectrum_B.c', 'src/gamma1_1loop.c', 'src/gamma2d_1loop.c', 'src/gamma2t_1loop.c', 'src/bispectrum_1loop.c'],
 [('init/free pairs in each parallel region', 'run_terms_* of src/spectrum_*.c'), ('scratch of the interpolation', 'src/common.c interpol_poly')],
 ['live blocks of the allocator as seen by the library (link-time wrapped), before and after each call'])
prop('C24', 'Field symmetry and positivity',
 'Spectra of (delta, theta) and (theta, delta) are equal, with the two propagators exchanged; auto terms that are integrals of squares times positive spectra are non-negative, and cross terms are bounded by the geometric mean of the auto terms (Cauchy-Schwarz).',
 ['inputs', 'configurations'], 'all positive spectra, wavenumbers, settings',
 'The tests compare each combination with its own stored file.',
 ['src/spectrum_1loop.c', 'src/spectrum_2loop.c', 'src/calc_pkcorr_from_gamma1.c', 'src/calc_pkcorr_from_gamma2.c', 'src/calc_pkcorr_from_gamma3.c', 'src/regpt.c'],
 [('fields of the two factors', 'src/regpt.c set_flag; calc_pk_gamma1_2loop, kernel_pk_gamma2_1loop, kernel_pk_gamma3_tree')], ['columns of Spectrum1Loop, Spectrum2Loop'])
prop('C25', 'Terms are homogeneous in the amplitude of the linear spectrum',
 'Multiplying the linear spectrum by a constant s^2 multiplies each term of the one-loop spectrum, two-loop spectrum, bias, one-loop A and one-loop B by s to twice its declared power, and pk(D) computed from the scaled spectrum equals pk(s D) of the original. Measuring wavenumbers in units scaled by a constant (spectrum table, k and ranges together, volume units for the spectrum) leaves dimensionless terms and scales spectra by volume.',
 ['inputs', 'configurations'], 'all spectra, scale factors',
 'Each stored file has one amplitude and one unit.',
 ['src/spectrum_1loop.c', 'src/spectrum_2loop.c', 'src/spectrum_bias_1loop.c', 'src/spectrum_A_1loop.c', 'src/spectrum_B.c', PY],
 [('number of linear spectra in each term', 'SCALE tables of pyregpt/pyregpt.py'), ('dimensionless kernels of q/k', 'calc_pk_* functions')], ['columns of all types of terms'])
prop('C26', 'Native one-call spectra agree with the assembled terms',
 'The native library entry points that compute a spectrum in one call give, for every spectrum, fields, k and settings, the same one and two-loop spectra as the Python classes assemble at unit growth, and B terms run natively without given input spectra equal those run with the one-loop spectra given; calls can be repeated in any order.',
 ['inputs', 'histories'], 'all spectra, wavenumbers, fields and call orders',
 'No test calls these entry points.',
 ['src/spectrum_1loop.c', 'src/spectrum_2loop.c', 'src/spectrum_B.c'], [('native assembly', 'src/spectrum_1loop.c spectrum_1loop, run_spectrum_1loop; src/spectrum_2loop.c spectrum_2loop'), ('spectra computed on demand', 'src/spectrum_B.c run_spectra_B_1loop')],
 ['ctypes handle of the library'])
prop('C27', 'Requests that cannot be served raise and leave no trace',
 'A request that cannot be served (a calculation without a linear spectrum; a spectrum that is empty, has one point, columns of different lengths or that are not numbers; terms with missing or wrongly sized columns; unknown names of settings or columns; values of a wrong type for settings, cutoffs, fields, threads, wavenumbers or modes) raises a Python exception: it never crashes the process nor returns as if it had been served. It leaves no trace: columns of all instances, arrays given, settings, mode and spectra are as before, and once valid inputs are given every calculation gives the bits it would have given had the request never been made.',
 ['histories', 'inputs'], 'all such requests at all points of all histories',
 'No test makes a request that cannot be served.',
 [PY, 'src/common.c', 'src/regpt.c'], [('registration of arrays with the library', 'pyregpt/pyregpt.py _register_spectrum_lin, _register_terms, _is_registered'), ('settings', 'pyregpt/pyregpt.py set_precision, set_running_uvcutoff'), ('new terms', 'Terms.zeros, set_terms')],
 ['exceptions of public calls; columns of all classes in histories with and without such requests'])
prop('C28', 'Calculations run on the number of threads requested',
 'A calculation requested on N threads runs all its parallel regions on exactly N threads and gives N processes to the Monte Carlo integrator, whatever the class, the number of wavenumbers (also fewer than N), the verbosity and the numbers requested before by this or other instances; a request for zero threads keeps the number of the last request, or all processors if there was none. The same holds for the spectra a calculation computes on its way and for native calls.',
 ['histories', 'schedules', 'configurations'], 'all sequences of requests',
 'Tests use the default number and cannot see how many threads run.',
 ['src/regpt.c', 'src/spectrum_1loop.c', 'src/spectrum_2loop.c', 'src/spectrum_A_1loop.c', 'src/spectrum_A_2loop.c', 'src/spectrum_B.c', 'src/spectrum_bias_1loop.c', PY], [('number of threads', 'src/regpt.c set_num_threads'), ('intermediate spectra', 'B2Loop.run_terms, src/spectrum_B.c run_spectra_B_1loop')],
 ['OpenMP entry points (link-time wrapped), read inside of each region'])
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl'), 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['id']
        f.write(json.dumps(p) + '\n')
print(len(P))
