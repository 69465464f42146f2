"""Writes /verif/MANIFEST.json."""
import json, os
N = {}
def c(id, technique, note): N[id] = (technique, note)
c('C01', 'AddressSanitizer+UBSan, MemorySanitizer (native driver), stack-pattern builds over hostile call histories', 'Reports on the executions driven only: random histories over all classes and the native interface, tables of 2..~20 points, unsorted/absent/strided inputs, mutated arguments; MSan sees the library only through recorded native call sequences.')
c('C02', 'ThreadSanitizer with happens-before of libgomp made visible by wrappers, perturbed schedules', 'No unsynchronised access pair in the executions driven (all classes, 1..17 threads, random delays at region starts and critical sections).')
c('C03', 'runtime monitor: bitwise comparison of outputs over thread counts and perturbed schedules', 'Bitwise identity over the thread counts and distinct critical-section orders recorded in the evidence.')
c('C04', 'runtime monitor: outputs of permuted, split, repeated, empty requests against the whole request, bitwise', 'Holds on the sampled requests, spectra and settings.')
c('C05', 'history monitor: each calculation of random histories replayed in a pristine process, bitwise', 'Holds on the sampled histories; trusts fork for pristine state.')
c('C06', 'history monitor over several instances: frames of all other instances and arrays, allocation scribbling, replay in a pristine process', 'Holds on the sampled interleavings and array layouts.')
c('C07', 'reference-model monitor in extended precision', 'Sampled tables and wavenumbers incl. table ends, tabulated points, neighbours in ulp; tolerance from conditioning.')
c('C08', 'reference-model monitor in extended precision', 'Sampled tables, cutoffs and wavenumbers, incl. cut exactly on tabulated points.')
c('C09', 'property monitor (ordering, symmetry, exactness on polynomials) in extended precision', 'All n up to a bound plus sampled larger n and intervals.')
c('C10', 'reference-model monitor (independent quadratures in extended precision with error bounds), reference checked against angular averages of the symmetrised kernel', 'Sampled spectra, settings and wavenumbers, incl. single-node ranges which isolate regimes of kernels.')
c('C11', 'reference-model monitor with error bounds, single-regime isolation of the one-loop kernels', 'Fit constants of the published low-precision regimes are part of the reference.')
c('C12', 'monitor at the integrator boundary: recorded integrand values against the reference at chosen points', 'Cuba is not installed: a stand-in integrator records calls; the Cuba integration itself is trusted.')
c('C13', 'reference-model monitor with error bounds; limit of vanishing amplitude', 'As C10; the Monte Carlo part is deterministic through the stand-in integrator.')
c('C14', 'reference-model monitor with error bounds', 'As C10.')
c('C15', 'reference-model monitor with error bounds; large-scale limit', 'As C10.')
c('C16', 'reference-model monitor on random and calculated terms', 'Sampled terms, growth factors and dampings.')
c('C17', 'model of the settings run along histories of settings; calculations compared with the reference model under the modelled settings', 'Sampled histories; every setting name is driven and counted.')
c('C18', 'stream and working directory monitor along histories of calls and mode changes', 'Sampled histories; file descriptors 1 and 2 captured below stdio.')
c('C19', 'history monitor of containers against a dictionary model', 'Sampled operations on all classes.')
c('C20', 'reference-model monitor', 'Sampled arguments, shapes and edge positions.')
c('C21', 'reference-model monitor in extended precision', 'Sampled spectra, radii, cosmologies.')
c('C22', 'finiteness monitor with nodes and wavenumbers placed on singular points, poisoned outputs', 'Sampled special positions; not exhaustive.')
c('C23', 'allocator monitor (link-time wrapped malloc family) around each call', 'Live blocks and bytes before/after each call, unknown frees, canaries; RSS growth bound.')
c('C24', 'metamorphic runtime monitor (symmetry, sign, Cauchy-Schwarz)', 'Sampled spectra and settings.')
c('C25', 'metamorphic runtime monitor (amplitude and unit scaling)', 'Sampled spectra and scale factors.')
c('C26', 'differential runtime monitor: native entry points against the classes, along sequences of native calls', 'Sampled sequences.')
c('C27', 'history monitor: histories with refused requests against the same histories without them, bitwise; every refusal observed', 'Sampled histories and positions; the kinds of request are listed in the evidence.')
c('C28', 'trace monitor on the OpenMP entry points: team of every parallel region along histories of requests', 'Sampled histories; the processes of the real integrator are not observed, only their number requested.')
checks = [dict(property=p, quick_cmd='./check ' + p, thorough_cmd='VERIF_TIER=thorough ./check ' + p, evidence_file='evidence/{}.json'.format(p), technique=t, level='exploration', level_note=n) for p, (t, n) in sorted(N.items())]
json.dump(dict(version=1, setup_cmd='/usr/bin/python3 -m rv.build', checks=checks, not_applicable=[], notes='No hooks in /repo: monitors are attached by link-time wrapping, stand-in headers, and sanitizer builds of copies of the sources. See DESIGN.md.'),
          open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'MANIFEST.json'), 'w'), indent=1)
