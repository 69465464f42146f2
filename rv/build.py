"""Builds instrumented variants of /repo's library from its current sources and stages them next to copies of its Python files."""
import glob
import hashlib
import os
import re
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('RV_REPO', '/repo')
BUILD = os.environ.get('RV_BUILD', os.path.join(VERIF, 'build'))
NATIVE = os.path.join(VERIF, 'rv', 'native')
CC = 'gcc'

WRAP_MEM = ['malloc', 'calloc', 'realloc', 'free', 'aligned_alloc', 'posix_memalign']
WRAP_OMP = ['GOMP_parallel', 'GOMP_critical_start', 'GOMP_critical_end', 'GOMP_critical_name_start', 'GOMP_critical_name_end',
            'GOMP_atomic_start', 'GOMP_atomic_end', 'GOMP_barrier', 'GOMP_loop_end', 'GOMP_sections_end', 'GOMP_single_start',
            'GOMP_single_copy_start', 'GOMP_single_copy_end', 'GOMP_ordered_start', 'GOMP_ordered_end',
            'omp_set_lock', 'omp_unset_lock', 'omp_test_lock',
            'GOMP_parallel_loop_static', 'GOMP_parallel_loop_dynamic', 'GOMP_parallel_loop_guided',
            'GOMP_parallel_loop_nonmonotonic_dynamic', 'GOMP_parallel_loop_nonmonotonic_guided', 'GOMP_parallel_loop_runtime',
            'GOMP_parallel_loop_nonmonotonic_runtime', 'GOMP_parallel_loop_maybe_nonmonotonic_runtime']

# name -> (compile flags after the project's own, extra native sources, link flags)
VARIANTS = {
    'plain': (['-g'], ['suave.c', 'memmon.c', 'gompmon.c'], WRAP_MEM + WRAP_OMP),
    'asan': (['-O1', '-g', '-fno-omit-frame-pointer', '-fsanitize=address,undefined', '-fsanitize=float-cast-overflow',
              '-fno-sanitize-recover=all'], ['suave.c'], []),
    'tsan': (['-O1', '-g', '-fno-omit-frame-pointer', '-fsanitize=thread'], ['suave.c', 'gompmon.c'], WRAP_OMP),
    'o0': (['-O0', '-g'], ['suave.c'], []),
}
# the same with other contents of uninitialised local variables
for _v in ('pattern', 'zero'): VARIANTS[_v] = (['-g', '-O1', '-ftrivial-auto-var-init=' + _v], ['suave.c', 'memmon.c'], WRAP_MEM)
NATIVE_FLAGS = {
    'pattern': ['-O2', '-g', '-fPIC', '-fopenmp'],
    'zero': ['-O2', '-g', '-fPIC', '-fopenmp', '-DRV_FILL=0'],
    'plain': ['-O2', '-g', '-fPIC', '-fopenmp'],
    'asan': ['-O1', '-g', '-fPIC', '-fopenmp'],
    'tsan': ['-O1', '-g', '-fPIC', '-fopenmp', '-fsanitize=thread', '-DRV_TSAN'],
    'o0': ['-O1', '-g', '-fPIC', '-fopenmp'],
}


class BuildError(Exception):
    pass


def make_vars():
    """SRC and OPT as the project's Makefile defines them."""
    mk = 'include {}/src/Makefile\nrvprint:\n\t@echo SRC=$(SRC)\n\t@echo OPT=$(OPT)\n'.format(REPO)
    env = {k: v for k, v in os.environ.items() if k not in ('OPT', 'SRC', 'OMPFLAG', 'DEFINEOPTIONS', 'MAKEFLAGS')}
    out = subprocess.run(['make', '-s', '-f', '-', 'rvprint', '-C', os.path.join(REPO, 'src')], input=mk, text=True, capture_output=True, env=env)
    src, opt = None, None
    for line in out.stdout.splitlines():
        if line.startswith('SRC='): src = line[4:].split()
        if line.startswith('OPT='): opt = line[4:].split()
    if not src or opt is None: raise BuildError('cannot read src/Makefile: ' + out.stderr)
    return src, opt


def _hash(files, extra=''):
    h = hashlib.sha256(extra.encode())
    for fn in sorted(files):
        h.update(fn.encode())
        with open(fn, 'rb') as f: h.update(f.read())
    return h.hexdigest()[:16]


def _run(cmd):
    p = subprocess.run(cmd, capture_output=True, text=True)
    if p.returncode: raise BuildError('{}\n{}'.format(' '.join(cmd), p.stderr[-4000:]))


def stage(variant):
    """Returns a directory to put on PYTHONPATH that holds the package `pyregpt` with lib/regpt.so of this variant."""
    flags, native, wraps = VARIANTS[variant]
    src, opt = make_vars()
    srcdir = os.path.join(REPO, 'src')
    cfiles = [os.path.join(srcdir, s) for s in src]
    hfiles = glob.glob(os.path.join(srcdir, '*.h'))
    pyfiles = [p for p in glob.glob(os.path.join(REPO, 'pyregpt', '**', '*.py'), recursive=True) if os.path.relpath(p, REPO).split(os.sep)[1] not in ('tests', 'lib')]
    nfiles = [os.path.join(NATIVE, n) for n in native]
    key = _hash(cfiles + hfiles + pyfiles + nfiles + [os.path.join(NATIVE, 'cuba.h')], repr((VARIANTS[variant], NATIVE_FLAGS[variant], opt)))
    dest = os.path.join(BUILD, '{}-{}'.format(variant, key))
    if os.path.exists(os.path.join(dest, 'ok')): return dest
    tmp = dest + '.tmp{}'.format(os.getpid())
    shutil.rmtree(tmp, ignore_errors=True)
    os.makedirs(os.path.join(tmp, 'obj'))
    os.makedirs(os.path.join(tmp, 'pyregpt', 'lib'))
    opt = [o for o in opt if not o.startswith('-Wl,')] + ['-w']
    jobs, objs = [], []
    for c in cfiles:
        o = os.path.join(tmp, 'obj', os.path.basename(c)[:-2] + '.o')
        objs.append(o)
        jobs.append([CC] + opt + flags + ['-I' + NATIVE, '-iquote', srcdir, '-fPIC', '-o', o, '-c', c])
    for c in nfiles:
        o = os.path.join(tmp, 'obj', 'rv_' + os.path.basename(c)[:-2] + '.o')
        objs.append(o)
        jobs.append([CC] + NATIVE_FLAGS[variant] + ['-I' + NATIVE, '-o', o, '-c', c])
    with ThreadPoolExecutor(os.cpu_count() or 4) as ex: list(ex.map(_run, jobs))
    link = [f for f in flags if f.startswith('-fsanitize') or f.startswith('-fno-sanitize')]
    # as the project's Makefile: regpt.so may define a symbol twice
    _run([CC] + opt + link + ['-shared', '-Wl,--allow-multiple-definition'] + ['-Wl,--wrap=' + w for w in wraps] + objs
         + ['-lm', '-o', os.path.join(tmp, 'pyregpt', 'lib', 'regpt.so')])
    for p in pyfiles:
        to = os.path.join(tmp, os.path.relpath(p, REPO))
        os.makedirs(os.path.dirname(to), exist_ok=True)
        shutil.copy(p, to)
    open(os.path.join(tmp, 'ok'), 'w').close()
    shutil.rmtree(os.path.join(tmp, 'obj'))
    try:
        os.rename(tmp, dest)
    except OSError:
        shutil.rmtree(tmp, ignore_errors=True)
    old = sorted(glob.glob(os.path.join(BUILD, variant + '-*')), key=os.path.getmtime)
    for d in old[:-4]:
        if d != dest: shutil.rmtree(d, ignore_errors=True)
    return dest


def stage_driver(san='memory'):
    """Returns the path of the program of native calls (rv/native/driver.c) linked with the library's sources, sequential, under a clang sanitizer."""
    src, opt = make_vars()
    srcdir = os.path.join(REPO, 'src')
    cfiles = [os.path.join(srcdir, s) for s in src]
    hfiles = glob.glob(os.path.join(srcdir, '*.h'))
    nfiles = [os.path.join(NATIVE, n) for n in ('driver.c', 'suave.c')]
    flags = ['-O1', '-g', '-fno-omit-frame-pointer', '-fsanitize=' + san] + (['-fsanitize-memory-track-origins=1'] if san == 'memory' else ['-fno-sanitize-recover=all'])
    flags += [o for o in opt if o.startswith('-D') or o.startswith('-std')] + ['-w']
    key = _hash(cfiles + hfiles + nfiles + [os.path.join(NATIVE, 'cuba.h'), os.path.join(NATIVE, 'seq', 'omp.h')], repr(flags))
    dest = os.path.join(BUILD, 'driver_{}-{}'.format(san.split(',')[0], key))
    exe = os.path.join(dest, 'driver')
    if os.path.exists(exe): return exe
    tmp = dest + '.tmp{}'.format(os.getpid())
    shutil.rmtree(tmp, ignore_errors=True)
    os.makedirs(tmp)
    jobs, objs = [], []
    for c in cfiles + nfiles:
        objs.append(os.path.join(tmp, ('rv_' if c in nfiles else '') + os.path.basename(c)[:-2] + '.o'))
        jobs.append(['clang'] + flags + ['-I' + NATIVE, '-I' + os.path.join(NATIVE, 'seq'), '-iquote', srcdir, '-o', objs[-1], '-c', c])
    with ThreadPoolExecutor(os.cpu_count() or 4) as ex: list(ex.map(_run, jobs))
    _run(['clang'] + flags + ['-rdynamic', '-Wl,--allow-multiple-definition'] + objs + ['-lm', '-ldl', '-o', os.path.join(tmp, 'driver')])
    for o in objs: os.remove(o)
    try:
        os.rename(tmp, dest)
    except OSError:
        shutil.rmtree(tmp, ignore_errors=True)
    return exe


def runtime_lib(name):
    return subprocess.run([CC, '-print-file-name=' + name], capture_output=True, text=True).stdout.strip()


def env(variant, log=None):
    e = {k: v for k, v in os.environ.items() if k not in ('LD_PRELOAD', 'ASAN_OPTIONS', 'UBSAN_OPTIONS', 'TSAN_OPTIONS', 'PYTHONPATH')
         and not k.startswith('OMP_') and not k.startswith('GOMP_')}
    e['PYTHONDONTWRITEBYTECODE'] = '1'
    e['OPENBLAS_NUM_THREADS'] = '1'
    e['PYTHONPATH'] = os.pathsep.join([stage(variant), VERIF])
    log = log or '/dev/null'
    if variant == 'asan':
        e['LD_PRELOAD'] = runtime_lib('libasan.so') + ' ' + runtime_lib('libubsan.so')
        e['ASAN_OPTIONS'] = 'detect_leaks=0:abort_on_error=0:halt_on_error=1:exitcode=86:allocator_may_return_null=1:detect_stack_use_after_return=1:malloc_fill_byte=255:max_malloc_fill_size=1000000000:free_fill_byte=255:max_free_fill_size=1000000000:quarantine_size_mb=64:log_path=' + log
        e['UBSAN_OPTIONS'] = 'print_stacktrace=1:halt_on_error=1:exitcode=86:log_path=' + log
        e['PYTHONMALLOC'] = 'malloc'
    if variant == 'tsan':
        e['LD_PRELOAD'] = runtime_lib('libtsan.so')
        e['TSAN_OPTIONS'] = 'halt_on_error=0:report_signal_unsafe=0:exitcode=0:history_size=4:ignore_noninstrumented_modules=0:log_path=' + log
    return e


if __name__ == '__main__':
    for v in sys.argv[1:] or VARIANTS: print(v, stage(v))
    if not sys.argv[1:]: print('driver', stage_driver())
