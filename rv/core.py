"""Context of a check: random numbers, execution of jobs on instrumented builds, verdicts, evidence."""
import base64
import collections
import glob
import json
import os
import pickle
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback
import zlib
import numpy as np
from . import build

VERIF = build.VERIF
EVIDENCE = os.environ.get('RV_EVIDENCE', os.path.join(VERIF, 'evidence'))
KNOWN = os.path.join(VERIF, 'KNOWN_FINDINGS')
Result = collections.namedtuple('Result', 'status value log reports')
NCPU = os.cpu_count() or 4


class Inconclusive(Exception):
    pass


def known_findings(prop):
    """Lines `finding: property=<id> key=<key> <what>` of KNOWN_FINDINGS."""
    out = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            m = re.match(r'finding:\s+property=(\S+)\s+key=(\S+)\s+(.*)', line)
            if m and m.group(1) == prop: out[m.group(2)] = m.group(3)
    return out


def jsonable(x, depth=0):
    if isinstance(x, dict): return {str(k): jsonable(v, depth + 1) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        if len(x) > 40: return [jsonable(v, depth + 1) for v in x[:40]] + ['... {} in all'.format(len(x))]
        return [jsonable(v, depth + 1) for v in x]
    if isinstance(x, np.ndarray): return jsonable(x.tolist(), depth + 1) if x.size <= 40 else 'array{} [{!r} .. {!r}]'.format(x.shape, x.flat[0], x.flat[-1])
    if isinstance(x, (np.floating, float)): return float(x) if np.isfinite(x) else repr(float(x))
    if isinstance(x, np.integer): return int(x)
    if isinstance(x, (str, int, bool)) or x is None: return x
    return repr(x)


class Ctx(object):

    def __init__(self, prop, module, tier=None, seed=None):
        self.prop, self.module = prop, module
        self.tier = tier or os.environ.get('VERIF_TIER', 'quick')
        if self.tier not in ('quick', 'thorough'): self.tier = 'quick'
        self.seed = int(os.environ.get('VERIF_SEED', '1')) if seed is None else seed
        self.rng = np.random.default_rng([self.seed, int(prop[1:]), 0 if self.tier == 'quick' else 1])
        self.t0 = time.time()
        self.deadline = self.t0 + (700 if self.tier == 'quick' else 6000)
        self.scratch = tempfile.mkdtemp(prefix='rv-{}-'.format(prop))
        self.violations = []
        self.known = known_findings(prop)
        self.evaluations = 0
        self.distinct = set()
        self.samples = []
        self.cov = collections.OrderedDict()
        self.rule = ''
        self.assumptions = []
        self.skipped = 0
        self._nrun = 0

    @property
    def thorough(self):
        return self.tier == 'thorough'

    def n(self, quick, thorough):
        return thorough if self.thorough else quick

    # ---------------------------------------------------------------- bookkeeping
    def seen(self, signature, nontrivial=True, sample=None):
        """One case evaluated by the oracle."""
        self.evaluations += 1
        if nontrivial: self.distinct.add(zlib.crc32(repr(signature).encode()) | (len(repr(signature)) << 32))
        if sample is not None and len(self.samples) < 5: self.samples.append(jsonable(sample))

    def count(self, name, n=1):
        self.cov[name] = self.cov.get(name, 0) + n

    def high(self, name, v):
        v = float(v)
        if np.isfinite(v): self.cov[name] = max(self.cov.get(name, 0.), v)

    def violate(self, key, msg, case=None):
        if key in self.known:
            self.count('known_findings_seen')
            return
        self.violations.append((key, msg, case))

    # ---------------------------------------------------------------- execution
    def run(self, variant, func, cases, nproc=None, timeout=None, report=True, module=None):
        """Runs func(**case) of the module of the check for each case, each in its own process. Returns the Results; unless report=False,
        crashes, hangs, sanitizer reports and exceptions are violations."""
        cases = list(cases)
        timeout = timeout or (400 if self.thorough else 100)
        res = self._batch(variant, func, list(enumerate(cases)), nproc or NCPU, timeout, module)
        again = [i for i, r in res.items() if r.status == 'timeout' or (isinstance(r.status, int) and r.status == -signal.SIGKILL)]
        if again and not report is None:
            # alone on the machine, with more time; one that does not return is enough
            first = {i: res[i] for i in again}
            for i in again: res[i] = Result('skipped', None, '', [])
            for i in again[:4]:
                left = self.deadline + 150 - time.time()
                if left < 40:
                    res[i] = first[i]  # no time to tell
                    break
                res[i] = self._batch(variant, func, [(i, cases[i])], 1, min(2.5 * timeout, left), module)[i]
                if res[i].status == 'timeout': break
        out = []
        for i, case in enumerate(cases):
            r = res[i]
            if r.status == 'skipped': self.skipped += 1
            elif report:
                info = {'variant': variant, 'func': func, 'case': case, 'module': module}
                if r.status == -signal.SIGKILL: raise Inconclusive('job killed (out of memory?): {}'.format(jsonable(case)))
                if r.status == 'timeout': self.violate('hang', 'the calculation does not return ({} build)'.format(variant), info)
                elif r.reports: self.violate('sanitizer', 'sanitizer report: ' + summary(r.reports[0]), dict(info, report=r.reports[0][:6000]))
                elif r.status != 0: self.violate('crash', 'the process ends with status {} ({} build): {}'.format(r.status, variant, r.log[-300:]), info)
            if r.status == 0 and isinstance(r.value, Exc):
                if report: self.violate('exception', 'a call raises: ' + r.value.text.strip().splitlines()[-1], dict(info, traceback=r.value.text))
                r = Result('exc', r.value, r.log, r.reports)
            out.append(r)
        return out

    def _batch(self, variant, func, cases, nproc, timeout, module):
        self._nrun += 1
        out = os.path.join(self.scratch, 'run{}'.format(self._nrun))
        os.makedirs(out)
        spec = {'module': module or self.module, 'jobs': [(i, func, c) for i, c in cases], 'out': out, 'nproc': nproc, 'timeout': timeout, 'deadline': self.deadline}
        fn = os.path.join(out, 'spec.pickle')
        with open(fn, 'wb') as f: pickle.dump(spec, f, protocol=4)
        env = build.env(variant, os.path.join(out, 'san'))
        with open(os.path.join(out, 'worker.log'), 'w') as log:
            p = subprocess.run(['/usr/bin/python3', '-m', 'rv.worker', fn], env=env, cwd=out, stdin=subprocess.DEVNULL, stdout=log, stderr=log)
        if p.returncode: raise Inconclusive('worker failed ({}): {}'.format(p.returncode, open(os.path.join(out, 'worker.log')).read()[-3000:]))
        res = {}
        for i, c in cases:
            st, pid = open(os.path.join(out, '{}.st'.format(i))).read().split()
            st = int(st) if st.lstrip('-').isdigit() else st
            log, value, reports = '', None, []
            fl = os.path.join(out, '{}.log'.format(i))
            if os.path.exists(fl): log = open(fl, errors='replace').read()
            if st not in (0, 'skipped') and 'runtime error:' in log: reports += [r for r in split_reports(log[log.index('runtime error:') - 300 if log.index('runtime error:') > 300 else 0:]) if 'runtime error:' in r]
            log = log[-4000:]
            fp = os.path.join(out, '{}.pkl'.format(i))
            if os.path.exists(fp):
                with open(fp, 'rb') as f: kind, value = pickle.load(f)
                if kind == 'exc': value = Exc(value)
            elif st == 0: st = 'noresult'
            for g in glob.glob(os.path.join(out, 'san*.{}'.format(pid))):
                reports += split_reports(open(g, errors='replace').read())
            res[i] = Result(st, value, log, reports)
        shutil.rmtree(out, ignore_errors=True)
        return res

    # ---------------------------------------------------------------- verdict
    def finish(self):
        if self.evaluations == 0 and not self.violations: raise Inconclusive('nothing was evaluated')
        if self.skipped and not self.violations and self.skipped > 0.5 * (self.evaluations + self.skipped): raise Inconclusive('most of the jobs did not fit in the time')
        cov = collections.OrderedDict(evaluations=self.evaluations, distinct_nontrivial=len(self.distinct), rule=self.rule, samples=self.samples)
        for k, v in self.cov.items(): cov[k] = jsonable(v)
        if self.skipped: cov['jobs_not_run_for_lack_of_time'] = self.skipped
        ev = {'property': self.prop, 'tier': self.tier, 'seed': self.seed, 'level': 'exploration', 'coverage': cov,
              'assumptions': self.assumptions, 'wall_s': round(time.time() - self.t0, 2), 'violations': len(self.violations)}
        os.makedirs(EVIDENCE, exist_ok=True)
        with open(os.path.join(EVIDENCE, self.prop + '.json'), 'w') as f: json.dump(ev, f, indent=1)
        for key, what in self.known.items(): print('KNOWN-FINDING: property={} {}'.format(self.prop, what))
        if not self.violations:
            print('{} held: {} evaluations, {} distinct, {:.1f} s'.format(self.prop, self.evaluations, len(self.distinct), time.time() - self.t0))
            return 0
        d = os.path.join(build.BUILD, 'replays')
        os.makedirs(d, exist_ok=True)
        for i, (key, msg, case) in enumerate(self.violations[:10]):
            fn = os.path.join(d, '{}-{}-{}-{}.json'.format(self.prop, self.tier, self.seed, i))
            rep = {'property': self.prop, 'key': key, 'message': msg, 'tier': self.tier, 'seed': self.seed, 'module': self.module, 'case': jsonable(case),
                   'pickle': base64.b64encode(pickle.dumps(case, protocol=4)).decode()}
            with open(fn, 'w') as f: json.dump(rep, f, indent=1)
            print('  [{}] {}'.format(key, msg[:500]))
            print('VIOLATION property={} replay={}'.format(self.prop, fn))
        if len(self.violations) > 10: print('  ... {} violations in all'.format(len(self.violations)))
        return 1

    def close(self):
        shutil.rmtree(self.scratch, ignore_errors=True)


class Exc(object):

    def __init__(self, text):
        self.text = text

    def __repr__(self):
        return 'Exc({})'.format(self.text.strip().splitlines()[-1])


def split_reports(text):
    parts = re.split(r'(?m)^(?===+\d*=*ERROR|WARNING: ThreadSanitizer|.*runtime error:)', text)
    return [p for p in parts if 'ERROR: ' in p or 'WARNING: ThreadSanitizer' in p or 'runtime error:' in p]


def summary(rep):
    for line in rep.splitlines():
        if 'SUMMARY' in line: return line.strip()
    for line in rep.splitlines():
        if 'ERROR' in line or 'WARNING' in line or 'runtime error' in line: return line.strip()
    return rep[:200]


def main(argv):
    import importlib
    prop = argv[0]
    module = 'rv.checks.' + prop.lower()
    mod = importlib.import_module(module)
    if len(argv) > 2 and argv[1] == '--replay': return replay(argv[2])
    ctx = Ctx(prop, module)
    try:
        mod.run(ctx)
        code = ctx.finish()
    except (Inconclusive, build.BuildError) as e:
        print('{}: no answer: {}'.format(prop, e))
        code = ctx.finish() if ctx.violations else 2
    except Exception:
        traceback.print_exc()
        code = 2
        if ctx.violations: code = ctx.finish()
    finally:
        ctx.close()
    sys.stdout.flush()
    return code


def replay(fn):
    """Runs the job of a replay file again on the current tree and prints what it returns."""
    rep = json.load(open(fn))
    case = pickle.loads(base64.b64decode(rep['pickle']))
    print(rep['message'])
    print(json.dumps(rep['case'], indent=1)[:4000])
    if not isinstance(case, dict) or 'func' not in case: return 0
    ctx = Ctx(rep['property'], case.get('module') or rep['module'], tier=rep['tier'], seed=rep['seed'])
    try:
        r = ctx.run(case['variant'], case['func'], [case['case']], report=False)[0]
    finally:
        ctx.close()
    print('status {}\nvalue {}\nlog {}\n{}'.format(r.status, r.value, r.log[-2000:], '\n'.join(r.reports)[:4000]))
    return 0
