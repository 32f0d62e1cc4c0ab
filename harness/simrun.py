"""Run scenarios in the simulated world and collect their traces.

run_all(scenarios, outdir, jobs=8) -> list of trace file names (ndjson, first line = header).
Every life of the daemon is its own process, forked from a parent that has the modules loaded.
"""
import json
import logging
import os
import pwd
import random
import re
import shutil
import signal
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import fakedb  # noqa: E402
import simworld as sw  # noqa: E402

_loaded = None
LIFE_S = 90          # a life of the daemon takes a second or so; one which spins is ended
ENOUGH = 3           # scenarios with such a life, after which the others are left out
RIDRE = re.compile(r"^\[(.+?) ([0-9a-f]{8}-[0-9a-f-]{27})\] ")


def load():
    """Import the daemon under the patched boundary (once per parent process)."""
    global _loaded
    if _loaded is None:
        sw.install()
        os.environ["DSARI_HOME"] = "/dev/null/dsari"   # where nothing can be created
        try:
            import dsari.daemon as m
            _loaded = m
        except BaseException as e:  # reported by every scenario as a death of the daemon
            _loaded = e
    return _loaded


class Tap(logging.Handler):
    def emit(self, record):
        w = sw.W
        if not w.active or w.in_child or w.in_poll:
            return
        sw.poll()
        if not w.quit_open:
            return
        try:
            m = RIDRE.match(record.getMessage())
        except Exception:
            return
        if m and record.levelno >= logging.INFO:
            w.logbuf.append((m.group(1), m.group(2)))


def _life(scn, scratch, tracefn, n, life):
    """In a fresh process: one life of the daemon.  Exit code 0 over, 77 crashed, 3 harness error."""
    m = load()
    if scn.get("tz"):
        os.environ["TZ"] = scn["tz"]
        time.tzset()
    out = open(tracefn, "a")
    rnd = random.Random("%s/%s" % (scn["seed"], n))
    os.urandom = lambda k: rnd.getrandbits(8 * k).to_bytes(k, "big") if k else b""
    random.seed(scn["seed"] * 7 + n)
    sw.start_world(scn, scratch, out, life)
    os.environ["PATH"] = "/usr/bin:/bin:/simulated"
    sys.argv = ["dsari-daemon", "-c", sw.W.etc]
    code = 0
    try:
        logging.getLogger().addHandler(Tap())
        sw.emit("boot", life=n)
        if isinstance(m, BaseException):
            raise m
        try:
            m.main()
        except SystemExit as e:
            if sw.W.in_child:
                raise
            if e.code not in (0, None):
                sw.poll()
                sw.emit("died", exc="exit %r" % (e.code,))
                code = 4
        if not code:
            if sw.W.in_child:
                sw.child_done({"exc": "child returned from main"})
            sw.poll()
            sw.emit("down")
            if scn.get("restart") and sw.W.queue:
                sw.save_state()
                out.flush()
                os._exit(77)
    except sw.SimEnd:
        pass
    except sw.DefaultAction as e:
        sw.emit("died", exc="killed by default action of %s" % e)
    except BaseException as e:
        if sw.W.in_child:
            sw.child_done({"exc": repr(e)})
        tb = traceback.extract_tb(e.__traceback__)
        where = tb[-1].filename if tb else ""
        if os.path.dirname(os.path.abspath(where)) == HERE and not isinstance(e, (ProcessLookupError, ChildProcessError, PermissionError, ValueError, OverflowError, fakedb.Error)):
            sys.__stderr__.write("HARNESS " + "".join(traceback.format_exception(e)))
            with open(tracefn + ".err", "w") as f:
                f.write("".join(traceback.format_exception(e)))
            os._exit(3)
        try:
            sw.poll()
        except BaseException:
            pass
        sw.W.queue = []
        sw.emit("died", exc=(repr(e)[:200] + " @" + (os.path.basename(where) + ":" + str(tb[-1].lineno) if tb else "")))
    out.flush()
    os._exit(code if code == 3 else 0)


def canon_header(scn, data):
    u = pwd.getpwuid(os.getuid())
    return {"e": "header", "t": 0, "name": scn["name"], "seed": scn["seed"],
            "cfgs": [c["desc"] for c in scn["cfgs"]],
            "logname": u.pw_name, "home": u.pw_dir, "path": "/usr/bin:/bin:/simulated",
            "dirs": scn.get("dirs", [])}


def run_one(scn, tracefn):
    scratch = tempfile.mkdtemp(prefix="dsv-", dir="/dev/shm" if os.path.isdir("/dev/shm") else None)
    try:
        if os.path.exists(tracefn):
            os.unlink(tracefn)
        # the other data directory of a scenario has the same directory of triggers
        os.makedirs(os.path.join(scratch, "var", "trigger"))
        os.mkdir(os.path.join(scratch, "alt"))
        os.symlink(os.path.join(scratch, "var", "trigger"), os.path.join(scratch, "alt", "trigger"))
        for d in scn.get("dirs", []):
            os.makedirs(d.replace("$D", os.path.join(scratch, "var")), exist_ok=True)
        for d in scn.get("files", []):
            with open(d.replace("$D", os.path.join(scratch, "var")), "w"):
                pass
        with open(tracefn, "w") as f:
            f.write(json.dumps(canon_header(scn, scratch), sort_keys=True) + "\n")
        life = None
        for n in range(6):
            pid = sw.real["fork"]()
            if pid == 0:
                try:
                    nul = os.open(os.devnull, os.O_RDWR)
                    for k in (0, 1, 2):
                        os.dup2(nul, k)
                    signal.alarm(LIFE_S)
                    _life(scn, scratch, tracefn, n, life)
                except BaseException:
                    traceback.print_exc()
                os._exit(3)
            _, st = sw.real["waitpid"](pid, 0)
            if os.WIFSIGNALED(st):
                with open(tracefn, "a") as f:
                    f.write(json.dumps({"e": "died", "t": last_t(tracefn), "exc": "harness life killed by signal %d" % os.WTERMSIG(st)}) + "\n")
                return False
            c = os.WEXITSTATUS(st)
            if c == 3:
                raise RuntimeError("harness error in %s (%s)" % (scn["name"], tracefn + ".err"))
            if c != 77:
                break
            with open(os.path.join(scratch, "life.json")) as f:
                life = json.load(f)
        if scn.get("dump"):
            dump_db(os.path.join(scratch, "var", "dsari.sqlite3"), tracefn + ".db")
        return True
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def dump_db(fn, to):
    """The recorded runs, with times in microseconds."""
    rows = []
    if os.path.exists(fn):
        c = sw.real["connect"](fn)
        for table in ("runs", "runs_running"):
            for r in c.execute("select job_name, schedule_time, start_time, trigger_type from " + table):
                rows.append([r[0], sw.us_of(r[1]), sw.us_of(r[2]), r[3]])
        c.close()
    with open(to, "w") as f:
        json.dump(rows, f)


def last_t(fn):
    t = 0
    with open(fn) as f:
        for l in f:
            try:
                t = json.loads(l)["t"]
            except Exception:
                pass
    return t


def run_all(scns, outdir, jobs=8):
    """Run every scenario; returns trace file names in order."""
    os.makedirs(outdir, exist_ok=True)
    load()
    names = [os.path.join(outdir, "t%04d.ndjson" % i) for i in range(len(scns))]
    r, w = os.pipe()
    os.write(w, b"")
    # work distribution by a counter file descriptor: one byte token per scenario
    import multiprocessing as mp
    ctr = mp.get_context("fork").Value("i", 0)
    hung = mp.get_context("fork").Value("i", 0)
    kids = []
    for k in range(min(jobs, len(scns))):
        pid = sw.real["fork"]()
        if pid == 0:
            rc = 0
            try:
                while True:
                    with ctr.get_lock():
                        i = ctr.value
                        ctr.value += 1
                    if i >= len(scns):
                        break
                    if hung.value >= ENOUGH:
                        with open(names[i], "w") as f:
                            f.write(json.dumps(canon_header(scns[i], ""), sort_keys=True) + "\n" + json.dumps({"e": "end", "t": 0}) + "\n")
                    elif not run_one(scns[i], names[i]):
                        with hung.get_lock():
                            hung.value += 1
            except BaseException:
                traceback.print_exc()
                rc = 1
            os._exit(rc)
        kids.append(pid)
    os.close(r)
    os.close(w)
    bad = 0
    for pid in kids:
        _, st = sw.real["waitpid"](pid, 0)
        bad |= st
    if bad:
        raise RuntimeError("a simulation worker failed")
    return names


if __name__ == "__main__":
    scn = json.load(open(sys.argv[1]))
    load()
    run_one(scn, sys.argv[2])
