"""Run a function over items, each in a fresh process forked from a pool of workers."""
import os
import pickle
import shutil
import signal
import sys
import tempfile
import traceback


def map(fn, items, preload=None, jobs=8, timeout=120):
    d = tempfile.mkdtemp(prefix="dsv-pool-", dir="/dev/shm" if os.path.isdir("/dev/shm") else None)
    kids = []
    try:
        for w in range(min(jobs, len(items))):
            pid = os.fork()
            if pid == 0:
                rc = 1
                try:
                    nul = os.open(os.devnull, os.O_RDWR)
                    os.dup2(nul, 0)
                    if preload:
                        preload()
                    rc = _worker(fn, items, range(w, len(items), jobs), d, timeout)
                except BaseException:
                    traceback.print_exc()
                sys.stdout.flush()
                sys.stderr.flush()
                os._exit(rc)
            kids.append(pid)
        bad = 0
        for pid in kids:
            _, st = os.waitpid(pid, 0)
            bad |= st
        for f in sorted(os.listdir(d)):
            if f.endswith(".err"):
                with open(os.path.join(d, f)) as f:
                    sys.stderr.write(f.read())
        if bad:
            raise RuntimeError("a worker failed")
        res = []
        for i in range(len(items)):
            with open(os.path.join(d, str(i)), "rb") as f:
                res.append(pickle.load(f))
        return res
    finally:
        shutil.rmtree(d, ignore_errors=True)


def _worker(fn, items, idx, d, timeout):
    for i in idx:
        pid = os.fork()
        if pid == 0:
            rc = 1
            try:
                signal.alarm(timeout)
                r = fn(items[i])
                with open(os.path.join(d, str(i)), "wb") as f:
                    pickle.dump(r, f)
                rc = 0
            except BaseException:
                with open(os.path.join(d, "%d.err" % i), "w") as f:
                    traceback.print_exc(file=f)
            os._exit(rc)
        _, st = os.waitpid(pid, 0)
        if st:
            sys.stderr.write("item %d: wait status %#x\n" % (i, st))
            return 1
    return 0
