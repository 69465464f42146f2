"""Runs jobs, each in a forked process with pristine library state, inside the environment of one instrumented variant.
Usage: python3 -m rv.worker SPEC.pkl ; SPEC = dict(module, jobs=[(index, func, kwargs)], out, nproc, timeout, deadline)"""
import importlib
import os
import pickle
import shutil
import signal
import sys
import time
import traceback


def child(mod, out, i, func, kwargs):
    cwd = os.path.join(out, 'cwd{}'.format(i))
    os.makedirs(cwd)
    os.chdir(cwd)
    fd = os.open(os.path.join(out, '{}.log'.format(i)), os.O_WRONLY | os.O_CREAT | os.O_TRUNC)
    os.dup2(fd, 1)
    os.dup2(fd, 2)
    try:
        res = ('ok', getattr(mod, func)(**kwargs))
    except BaseException:
        res = ('exc', traceback.format_exc())
    tmp = os.path.join(out, '{}.tmp'.format(i))
    with open(tmp, 'wb') as f: pickle.dump(res, f, protocol=4)
    os.rename(tmp, os.path.join(out, '{}.pkl'.format(i)))
    os._exit(0)


def main(spec):
    mod = importlib.import_module(spec['module'])
    out = spec['out']
    todo = list(spec['jobs'])[::-1]
    running = {}
    late = 0
    while todo or running:
        while todo and len(running) < spec['nproc']:
            i, func, kwargs = todo.pop()
            if time.time() > spec['deadline'] or late >= 3:
                with open(os.path.join(out, '{}.st'.format(i)), 'w') as f: f.write('skipped 0')
                continue
            pid = os.fork()
            if pid == 0:
                try:
                    child(mod, out, i, func, kwargs)
                finally:
                    os._exit(99)
            running[pid] = (i, time.time())
        if not running: continue
        pid, status = os.waitpid(-1, os.WNOHANG)
        if pid == 0:
            time.sleep(0.002)
            now = time.time()
            for pid, (i, t) in list(running.items()):
                if t is not None and now - t > spec['timeout']:
                    os.kill(pid, signal.SIGKILL)
                    with open(os.path.join(out, '{}.st'.format(i)), 'w') as f: f.write('timeout {}'.format(pid))
                    running[pid] = (i, None)
                    late += 1
            continue
        i, t = running.pop(pid)
        fn = os.path.join(out, '{}.st'.format(i))
        if not os.path.exists(fn):
            with open(fn, 'w') as f: f.write('{} {}'.format(-os.WTERMSIG(status) if os.WIFSIGNALED(status) else os.WEXITSTATUS(status), pid))
        shutil.rmtree(os.path.join(out, 'cwd{}'.format(i)), ignore_errors=True)


if __name__ == '__main__':
    with open(sys.argv[1], 'rb') as f: spec = pickle.load(f)
    main(spec)
