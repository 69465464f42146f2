"""Verbosity: what each call writes on the standard streams and into the working directory, against a model of the mode."""
import ctypes
import os
import re
import time
import numpy as np
from .. import gen, history, jobs, model
from ..oracle import Report, collect
from . import c03

DEBUG = {'Spectrum1Loop': 'debug_terms_spectrum_1loop.dat', 'Spectrum2Loop': 'debug_terms_spectrum_2loop.dat', 'B1Loop': 'debug_spectra_B.dat', 'B2Loop': 'debug_spectra_B.dat'}

TITLE = {'Spectrum1Loop': 'power spectrum at 1 loop', 'Spectrum2Loop': 'power spectrum at 2 loop', 'Bias1Loop': 'bias terms at 1 loop', 'A1Loop': 'A term at 1 loop', 'A2Loop': 'A term at 2 loop', 'B1Loop': 'B term', 'B2Loop': 'B term'}


class Streams(object):
    """File descriptors 1 and 2 of the process, into files."""

    def __init__(self):
        self.c = ctypes.CDLL(None)
        self.fd, self.pos = {}, {}
        for n in (1, 2):
            self.fd[n] = os.memfd_create('stream{}'.format(n))
            os.dup2(self.fd[n], n)
            self.pos[n] = 0

    def take(self):
        """What was written since the last call."""
        import sys
        sys.stdout.flush()
        sys.stderr.flush()
        self.c.fflush(None)
        out = {}
        for n in (1, 2):
            size = os.fstat(self.fd[n]).st_size
            out[n] = os.pread(self.fd[n], size - self.pos[n], self.pos[n]).decode(errors='replace')
            self.pos[n] = size
        return out


def listing():
    return {f: (os.stat(f).st_mtime_ns, os.stat(f).st_size) for f in os.listdir('.')}


def job(hist, points, seed, strip=False):
    """Job: a history with changes of mode (strip: all of them ignored, quiet from start to end)."""
    rep = Report()
    out = []
    mode = ['info']

    def on_run(p, i, args, nthreads):
        out.append(jobs.columns(p.objs[i]))

    coin = np.random.default_rng(seed)
    streams = Streams()
    files = [listing()]
    start = [(time.monotonic(), time.time())]

    def on_op(p, name, kw):
        if name == 'verbosity': mode[0] = kw['mode']
        if name == 'clear': mode[0] = 'info'
        if name == 'make' and kw['verbosity']: mode[0] = kw['verbosity']
        said = streams.take()
        took = [1000 * (t - u) for t, u in zip((time.monotonic(), time.time()), start[0])]  # the clock of the day may be set meanwhile
        least, took = min(took + [0.]), max(took)
        for t in re.findall(r'time ell?apsed +([0-9.:+-]+)', said[1]):
            ms, slack = (1000 * sum(float(x) * 60**j for j, x in enumerate(t.split(':')[::-1])), 1001) if ':' in t else (float(t), 1)  # whole seconds
            rep.true('info_time', least - slack <= ms <= took + slack, '{} in {} mode, which took {:.1f} ms, reports {}'.format(name, mode[0], took, t))
            rep.count('times_read')
        now = listing()
        made = [f for f in now if now[f] != files[0].get(f)]
        obj = p.objs.get(kw.get('i'))
        cls = type(obj).__name__
        what = '{} of {}'.format(name, cls)
        rep.count('calls_in_mode_' + mode[0])
        if mode[0] == 'quiet' and name not in ('clear',):
            rep.true('quiet_output', not said[1] and not said[2], '{} in quiet mode writes {!r}'.format(what, (said[1] + said[2])[:200]))
            rep.true('quiet_files', not made, '{} in quiet mode creates {}'.format(what, made))
        if mode[0] != 'debug': rep.true('files', not made, '{} in {} mode creates {}'.format(what, mode[0], made))
        if name == 'run':
            rep.sig.append((cls, mode[0], len(obj['k']), kw['nthreads']))
            if mode[0] == 'info': rep.true('info', len(said[1].strip()) > 0, '{} in info mode reports nothing'.format(what))
            if mode[0] == 'info':
                told = [TITLE[cls], 'using {} threads'.format(kw['nthreads'])] + (['calculating P_{a}_{b}'.format(**kw['args'])] if kw['args'] else [])
                for t in told: rep.true('info_report', t in said[1], '{} in info mode does not report {!r}: {!r}'.format(what, t, said[1][:500]))
                used = set(re.findall('using ([0-9]+) thread', said[1]))
                rep.true('info_threads', used == {str(kw['nthreads'])}, '{} on {} threads reports {}'.format(what, kw['nthreads'], used))
                rep.count('reports_read')
            fn = DEBUG.get(cls)
            if mode[0] == 'debug' and fn:
                if rep.true('debug', fn in made, '{} in debug mode does not write {} (but {})'.format(what, fn, made)): debug_file(rep, cls, fn, obj)
        if mode[0] == 'info' and name in ('spec', 'terms'):
            x = obj.spectrum_lin['k'] if name == 'spec' else obj['k']
            told = ['#modes: {}\n'.format(len(x))] + (['range: {:.3g} < k < {:.3g}\n'.format(x[0], x[-1])] if len(x) else [])
            for t in told: rep.true('info_report', t in said[1], '{} in info mode does not report {!r}: {!r}'.format(what, t, said[1][:500]))
            rep.count('reports_read')
        files[0] = now
        for f in made:
            if coin.random() < 0.5: os.remove(f)  # or the next one replaces it
        files[0] = listing()
        start[0] = (time.monotonic(), time.time())

    ops = hist['ops']
    if strip: ops = [op for op in ops if op[0] not in ('verbosity',)]
    p = history.Player(hist['spectra'], on_run=on_run, on_op=on_op)
    p.quiet_after_clear = strip
    jobs.suave_points(jobs.new('PyRegPT'), points)
    streams.take()
    mode[0] = 'quiet'
    for op in ops:
        if strip and op[0] == 'clear': op = ('clear', op[1])
        p.play([op])
    return rep, out


def debug_file(rep, cls, fn, o):
    text = open(fn).read().split('\n')
    rows = [r.split() for r in text if r.strip()]
    if cls.startswith('Spectrum'):
        if not rep.true('debug_rows', len(rows) == len(o['k']), '{} holds {} lines for {} wavenumbers'.format(fn, len(rows), len(o['k']))): return
        if len(rows):
            cols = [n for n in o if n not in ('pk_lin', 'sigmad2')]
            with np.errstate(all='ignore'):
                for j, n in enumerate(cols):
                    ok = np.isfinite(o[n]) & (np.abs(o[n]) < 1e30)
                    rep.close('debug_' + n, np.array([float(r[j]) for r in rows])[ok], o[n][ok], 1e-6 + 1e-12 * np.abs(o[n][ok]))
    elif rep.true('debug_rows', len(rows) == o.spectrum_lin.size, '{} holds {} lines for {} points'.format(fn, len(rows), o.spectrum_lin.size)):
        lin = o.spectrum_lin
        with np.errstate(all='ignore'): cols = [lin['k']] + ([lin['pk']] * 2 if cls == 'B1Loop' else [o.spectrum_1loop_dt.pk(), o.spectrum_1loop_tt.pk()])
        for j, x in enumerate(cols):
            ok = np.isfinite(x) & (np.abs(x) < 1e30)
            rep.close('debug_B', np.array([float(r[j]) for r in rows])[ok], x[ok], 1e-6 + 1e-12 * np.abs(x[ok]))


def run(ctx):
    rng = ctx.rng
    cases = []
    for i in range(ctx.n(48, 600)):
        amp = [10**rng.uniform(-30, 3) for j in range(3)] if i % 3 == 1 else [None] * 3
        h = history.generate(rng, int(rng.integers(60, 120)), nmax=6, verb=True, clear=(i % 3 == 0), threads=40 if i % 4 == 2 else 6, spectra=[gen.spectrum(rng, amp=a)[:2] for a in amp])
        # the mode also changes right before and after instances are made and copied
        ops = []
        for op in h['ops']:
            if rng.random() < 0.08 and ops: ops.append(('verbosity', dict(i=0, mode=str(rng.choice(['quiet', 'info', 'debug'])))))
            ops.append(op)
            live = [kw['i'] for name, kw in ops if name == 'make']
            dropped = [kw['i'] for name, kw in ops if name == 'drop']
            live = [j for j in live if j not in dropped]
            if rng.random() < 0.1 and ops: ops.append(('look', dict(i=int(rng.choice(live)), how=str(rng.choice(['str', 'len', 'list', 'dict', 'iter', 'fields'])))))
            if rng.random() < 0.08 and ops:
                # instances without spectrum or terms, and their copies
                n = 1000 + 3 * len(ops)
                if rng.random() < 0.5: ops.append(('dup', dict(i=0, j=n, how=str(rng.choice(['copy', 'deepcopy'])))))
                else: ops += [('make', dict(i=n + 1, cls=str(rng.choice(['PyRegPT'] + gen.CLASSES)), verbosity=None)), ('dup', dict(i=n + 1, j=n + 2, how=str(rng.choice(['copy', 'deepcopy']))))]
        h['ops'] = ops
        cases.append(dict(hist=h, points=30, seed=int(rng.integers(1 << 30))))
    res = ctx.run('plain', 'job', cases)
    collect(ctx, [r._replace(value=r.value[0]) if r.status == 0 else r for r in res], cases, 'job')
    quiet = ctx.run('plain', 'job', [dict(c, strip=True) for c in cases if not any(o[0] == 'clear' for o in c['hist']['ops'])])
    collect(ctx, [r._replace(value=r.value[0]) if r.status == 0 else r for r in quiet], cases, 'job', samples=False)
    pairs = zip([(c, r) for c, r in zip(cases, res) if not any(o[0] == 'clear' for o in c['hist']['ops'])], quiet)
    for (c, r), q in pairs:
        if r.status != 0 or q.status != 0: continue
        for j, (x, y) in enumerate(zip(r.value[1], q.value[1])):
            ctx.evaluations += 1
            ctx.count('calculations_compared_across_modes')
            if set(x) != set(y) or any(x[n].shape != y[n].shape or not np.array_equal(x[n], y[n], equal_nan=True) for n in x):
                ctx.violate('results', 'calculation {} of a history differs from the one made in quiet mode'.format(j), {'variant': 'plain', 'func': 'job', 'case': c})
    ctx.rule = ('histories of public calls with changes of mode through any instance; after each call the bytes written to file descriptors 1 and 2 (C streams flushed) and the files of the working directory are compared with what the current mode allows and requires; '
                'the same history in quiet mode gives the same bits; one distinct case = one (class, mode, number of wavenumbers, threads)')
    ctx.assumptions = ['stand-in integrator, which prints when it is asked to by its flags, as Cuba does', 'clear() restores the default mode, info']
