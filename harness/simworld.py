"""A simulated operating-system boundary for the real dsari daemon.

The modules under /repo/dsari run unmodified; what is replaced is the world around them: the clock and
sleeps, fork/exec, wait, kill, signal delivery.  Files and the SQLite database are real, inside a scratch
directory.  Everything the daemon does at that boundary is recorded as an event of a trace which TLC
then checks against spec/DsariTrace.tla.

Must be imported (install()) before anything of dsari, croniter or dateutil.
"""
import builtins
import datetime as _dtmod
import errno
import fcntl
import heapq
import json
import os
import pwd
import random
import select as _select_mod
import signal as _signal
import sqlite3
import sys
import time as _time

REPO = os.environ.get("DSV_REPO", "/repo")
BASE = 1700006400  # 2023-11-15 00:00:00 UTC, a multiple of 86400
TICK_US = 100      # every reading of the clock takes this long

real = {
    "fork": os.fork, "waitpid": os.waitpid, "kill": os.kill, "sleep": _time.sleep,
    "time": _time.time, "signal": _signal.signal, "sigmask": _signal.pthread_sigmask, "connect": sqlite3.connect,
    "datetime": _dtmod.datetime, "monotonic": _time.monotonic,
}


class SimEnd(BaseException):
    """The scenario is over; unwinds the daemon out of a sleep."""


class SimExit(BaseException):
    """Child side: leave without running the daemon any further."""


class World:
    active = False


W = World()


def us_of(x):
    return int(round(x * 1000000))


def rel_ms(x):
    """epoch float seconds -> integer ms relative to BASE (via exact microseconds)"""
    return clamp((us_of(x) - BASE * 1000000) // 1000)


def clamp(ms):
    """TLC has 32-bit integers; such distant times are only compared for equality and order"""
    return max(-2000000000, min(2000000000, ms))


# ------------------------------------------------------------------ clock

def _now_us():
    if not W.active:
        return us_of(real["time"]())
    if not W.in_child:
        if W.deferred_exc is not None:
            e, W.deferred_exc = W.deferred_exc, None
            raise e
        W.now += TICK_US
        pump(W.now)
    return W.now


class _Meta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, real["datetime"])

    def __subclasscheck__(cls, c):
        return issubclass(c, real["datetime"])


class SimDateTime(real["datetime"], metaclass=_Meta):
    # all instances are real ones; the methods of a subclass lose the fold
    def __new__(cls, *a, **kw):
        return real["datetime"](*a, **kw)

    @classmethod
    def fromtimestamp(cls, t, tz=None):
        return real["datetime"].fromtimestamp(t, tz)

    @classmethod
    def now(cls, tz=None):
        us = _now_us()
        return real["datetime"].fromtimestamp(us // 1000000, tz).replace(microsecond=us % 1000000)

    @classmethod
    def utcnow(cls):
        us = _now_us()
        return real["datetime"].fromtimestamp(us // 1000000, _dtmod.timezone.utc).replace(microsecond=us % 1000000, tzinfo=None)

    @classmethod
    def today(cls):
        return cls.now()


SimDateTime.__name__ = "datetime"
SimDateTime.__qualname__ = "datetime"
SimDateTime.__module__ = "datetime"


def child_astray(what):
    if W.in_child:
        child_done({"exc": "child went on as daemon: " + what})


def _sleep(d):
    if not W.active:
        return real["sleep"](d)
    child_astray("sleep")
    if d < 0:
        raise ValueError("sleep length must be non-negative")
    poll()
    target = W.now + int(d * 1000000) + TICK_US
    quiet()
    W.idle = True
    try:
        pump(target)
    finally:
        W.idle = False
    if target > W.now:
        W.now = target
    _arm()


# ------------------------------------------------------------------ trace

# what the world does between two lines of the log does not end a status report
ENV_EVENTS = {"report", "sig", "put", "exit", "stranger", "lock"}


def emit(e, **kw):
    if W.logbuf and e not in ENV_EVENTS:
        flush_report()
    kw["e"] = e
    kw["t"] = (W.now - BASE * 1000000) // 1000
    if e != "quiet":
        W.dirty = True
    W.out.write(json.dumps(kw, sort_keys=True) + "\n")
    W.out.flush()
    W.nev += 1


def flush_report():
    """A contiguous block of log lines about runs, after SIGQUIT: possibly the status report."""
    buf, W.logbuf = W.logbuf, []
    seen = {}
    for job, rid in buf:
        seen[rid] = job
    emit("report", ids=sorted(seen), jobs=[seen[i] for i in sorted(seen)])


def quiet():
    if W.logbuf:
        flush_report()
    if W.dirty or W.now - W.lastquiet >= 30000000:
        W.dirty = False
        W.lastquiet = W.now
        emit("quiet")


# ------------------------------------------------------------------ environment events

def schedule(t_us, op):
    W.seq += 1
    heapq.heappush(W.queue, (t_us, W.seq, op))


def pump(until):
    """Process every environment event due at or before `until` (advancing the clock to it)."""
    while W.queue and W.queue[0][0] <= until:
        if W.nopump:
            return
        t, _, op = heapq.heappop(W.queue)
        if t > W.now:
            W.now = t
        do_env(op)


def do_env(op):
    kind = op["op"]
    if kind == "exit":
        proc_exit(op["pid"], op["status"], op["gen"])
    elif kind == "put":
        put_trigger(op)
    elif kind == "sig":
        deliver(op["sig"])
    elif kind == "reload":
        write_config(op["cfg"])
        deliver("HUP")
    elif kind == "writecfg":
        write_config(op["cfg"])
    elif kind == "stranger":
        add_stranger(op.get("status", 0))
    elif kind == "stall":
        stall(op["ms"] * 1000)
    elif kind == "chmod":
        W.undeletable.add(op["job"]) if op["lock"] else W.undeletable.discard(op["job"])
        emit("lock", job=op["job"], lock=bool(op["lock"]))
    elif kind == "end":
        poll()
        emit("end")
        raise SimEnd()
    elif kind == "crash":
        crash()
    elif kind == "inject":
        W.armed_next.append(op)
    else:
        raise RuntimeError("unknown env op " + kind)


def stall(us):
    """The daemon does not run for a while (suspended); the world does."""
    end = W.now + us
    later = []
    poll()
    emit("freeze")
    while W.queue and W.queue[0][0] <= end:
        t, _, op = heapq.heappop(W.queue)
        if op["op"] in ("sig", "reload", "end", "stall", "crash", "inject"):
            later.append(op)
            continue
        if t > W.now:
            W.now = t
        do_env(op)
    W.now = end
    emit("thaw")
    for op in later:
        do_env(op)


class own_files:
    """File operations of the simulation itself, not of the daemon."""

    def __enter__(self):
        self.old, W.in_poll = W.in_poll, True

    def __exit__(self, *a):
        W.in_poll = self.old


def put_trigger(op):
    d = os.path.join(W.data, "trigger", op["job"])
    fn = os.path.join(d, "trigger." + op["fmt"])
    if os.path.exists(fn):
        return  # the previous one has not been taken yet; writing over it is the writer's business
    if "raw_hex" in op:
        raw = bytes.fromhex(op["raw_hex"])
    else:
        raw = op["raw"].replace("$D", W.data).encode("utf-8", "surrogatepass")
    mt = W.now - op.get("age", 0) * 1000
    mt -= mt % 1000
    with own_files():
        os.makedirs(d, exist_ok=True)
        tmp = os.path.join(W.scratch, "trigger.tmp")
        with open(tmp, "wb") as f:
            f.write(raw)
        os.utime(tmp, ns=(mt * 1000, mt * 1000))
        os.rename(tmp, fn)
    W.trig[fn] = (op["job"], op["fmt"])
    mtms = (mt - BASE * 1000000) // 1000
    sched = op.get("sched", None)
    emit("put", job=op["job"], fmt=op["fmt"], valid=bool(op["valid"]), tag=op.get("tag", ""),
         sched=mtms if sched is None else sched, env=op.get("env", {}), datas=op.get("datas", [""]),
         lock=op["job"] in W.undeletable)


# ------------------------------------------------------------------ processes

class Proc:
    __slots__ = ("pid", "run", "gen", "state", "status", "on_term", "stranger")


def alloc_pid():
    if W.pid_pool:
        for pid in range(4001, 4001 + 64):
            p = W.procs.get(pid)
            if p is None or p.state == "gone":
                return pid
    W.nextpid += 1
    return W.nextpid


def add_stranger(status):
    p = Proc()
    p.pid = alloc_pid()
    p.run = ""
    p.gen = 0
    p.state = "zombie"
    p.status = status
    p.on_term = None
    p.stranger = True
    W.procs[p.pid] = p
    emit("stranger", pid=p.pid)


def proc_exit(pid, status, gen):
    p = W.procs.get(pid)
    if p is None or p.gen != gen or p.state != "alive":
        return
    p.state = "zombie"
    p.status = status
    emit("exit", run=p.run, pid=pid, status=status)


def behaviour(job):
    bs = W.scn["behave"].get(job) or W.scn["behave"].get("*") or [{"dur": 1000, "status": 0}]
    n = W.counters.get(job, 0)
    W.counters[job] = n + 1
    return bs[n % len(bs)]


def _fork():
    if not W.active:
        return real["fork"]()
    child_astray("fork")
    poll()
    W.nfork += 1
    cap = os.path.join(W.scratch, "child-%d.json" % W.nfork)
    W.nopump += 1
    W.out.flush()
    rpid = real["fork"]()
    if rpid == 0:
        W.in_child = True
        W.cap = cap
        sys.settrace(None)
        # one instant of this child's life before the exec at which a SIGTERM reaches (a copy of) it
        W.probe_at, W.probe_n, W.probing, W.deaf = (W.nfork * 7 + W.scn.get("t0", 0)) % 9, 0, False, False
        if W.probe_at > 6:
            W.probe_at = 0
        probe_point()
        return 0
    real["waitpid"](rpid, 0)
    W.nopump -= 1
    try:
        with open(cap) as f:
            c = json.load(f)
        os.unlink(cap)
    except OSError:
        c = {"exc": "child vanished"}
    p = Proc()
    p.pid = alloc_pid()
    p.gen = W.nfork
    p.state = "alive"
    p.status = None
    p.stranger = False
    out1 = c.get("fd1", "")
    run, job = "", ""
    parts = out1.split("/")
    if len(parts) >= 3 and parts[-1] == "output.txt":
        run, job = parts[-2], parts[-3]
    else:
        run, job = c.get("env", {}).get("RUN_ID", ""), c.get("env", {}).get("JOB_NAME", "")
    if "exc" in c:
        # the child-side set-up failed: exits with status 1; identity from the running table
        cand = [r for r in W.db["running"].values() if r["id"] not in W.forked]
        if cand:
            run, job = cand[-1]["id"], cand[-1]["job"]
    W.forked.add(run)
    p.run = run
    b = behaviour(job)
    p.on_term = b.get("term")
    W.procs[p.pid] = p
    if b.get("files"):
        rd = os.path.dirname(out1)
        if os.path.isdir(rd) and out1.endswith("/output.txt"):
            for fn, hexs in b["files"].items():
                with open(os.path.join(rd, fn), "wb") as f:
                    f.write(bytes.fromhex(hexs))
    if "exc" in c:
        emit("fork", run=run, job=job, pid=p.pid, exc=c["exc"], env={}, argv=[], cwd="", fd0="", fd1="",
             fd2="", fds=[], pgrp=False, sigign=[], masked=[], deaf=False, sched=-1, rdata="", rcls="")
        schedule(W.now + 1000, {"op": "exit", "pid": p.pid, "status": 256, "gen": p.gen})
    else:
        env = {k: canon_env(k, v) for k, v in c["env"].items()}
        emit("fork", run=run, job=job, pid=p.pid, exc="", env=env, argv=[canon(a) for a in c["argv"]],
             cwd=canon(c["cwd"]), fd0=c["fd0"], fd1=canon(c["fd1"]), fd2=canon(c["fd2"]), fds=c["fds"],
             pgrp=c["pgrp"], sigign=c["sigign"], masked=c["masked"], deaf=c["deaf"], rdata=b.get("rdata", ""), rcls=b.get("rcls", ""))
        if b.get("dur") is not None:
            schedule(W.now + b["dur"] * 1000, {"op": "exit", "pid": p.pid, "status": b.get("status", 0), "gen": p.gen})
    return p.pid


def probe_point():
    if W.probing or W.probe_n != W.probe_at:
        W.probe_n += 1
        return
    W.probe_n += 1
    fn = W.cap + ".probe"
    pid = real["fork"]()
    if pid:
        real["waitpid"](pid, 0)
        try:
            with open(fn) as f:
                W.deaf = f.read() == "deaf"
            os.unlink(fn)
        except OSError:
            pass
        return
    W.probing, W.cap = True, fn
    if _signal.SIGTERM in W.mask:
        W.sigpend.append("TERM")
    else:
        probe_act()


def probe_act():
    """SIGTERM takes effect in the copy"""
    h = W.handlers.get(15, _signal.SIG_DFL)
    if h == _signal.SIG_DFL:
        probe_end("")
    elif h != _signal.SIG_IGN:
        h(15, sys._getframe())


def probe_end(what):
    try:
        with open(W.cap, "w") as f:
            f.write(what)
    finally:
        os._exit(0)


def canon(s):
    return s.replace(W.data, "$D").replace(W.alt, "$E") if isinstance(s, str) else s


def canon_env(k, v):
    if k.endswith("_TIME"):
        try:
            return str(rel_ms(float(v)))
        except (ValueError, OverflowError):
            return v
    return canon(v)


def _capture(file, argv, env):
    def link(n):
        try:
            return os.readlink("/proc/self/fd/%d" % n)
        except OSError:
            return ""
    c = {"argv": [a if isinstance(a, str) else os.fsdecode(a) if isinstance(a, bytes) else None for a in argv]}
    exc = ""
    if any(a is None for a in c["argv"]) or any("\0" in a for a in c["argv"]) or not argv:
        exc = "TypeError: bad argv"
    e2 = {}
    for k, v in env.items():
        if not isinstance(k, str) or not isinstance(v, str) or "\0" in k or "\0" in v or "=" in k or not k:
            exc = "bad environment"
            continue
        e2[k] = v
        try:
            os.fsencode(k), os.fsencode(v)
        except UnicodeEncodeError:
            exc = "bad environment"
    c["env"] = e2
    c["cwd"] = os.getcwd()
    c["fd0"], c["fd1"], c["fd2"] = link(0), link(1), link(2)
    fds = []
    for n in os.listdir("/proc/self/fd"):
        n = int(n)
        if n > 2:
            try:
                if not (fcntl.fcntl(n, fcntl.F_GETFD) & fcntl.FD_CLOEXEC):
                    fds.append(n)
            except OSError:
                pass
    c["fds"] = sorted(fds)
    c["pgrp"] = os.getpgid(0) == os.getpid()
    c["deaf"] = W.deaf
    c["masked"] = sorted(W.mask)
    ign = 0
    for l in open("/proc/self/status"):
        if l.startswith("SigIgn:"):
            ign = int(l.split()[1], 16)
    c["sigign"] = [s for s in (1, 2, 3, 10, 13, 15, 25) if ign & (1 << (s - 1))]
    if exc:
        c = {"exc": exc}
    child_done(c)


def child_done(c):
    if W.probing:
        probe_end("deaf" if "exc" not in c else "")
    try:
        with open(W.cap + ".w", "w") as f:
            json.dump(c, f)
        os.rename(W.cap + ".w", W.cap)
    finally:
        os._exit(0)


def _execvpe(file, args, env):
    if not W.active or not W.in_child:
        raise RuntimeError("exec outside a simulated child")
    _capture(file, list(args), dict(env))


def _execvp(file, args):
    _execvpe(file, args, os.environ)


def _wait_any(pid, options):
    poll()
    while True:
        cands = [p for p in W.procs.values() if p.state == "zombie" and (pid == -1 or p.pid == pid)]
        if cands:
            p = min(cands, key=lambda q: (q.gen, q.pid)) if W.scn.get("reap") != "last" else max(cands, key=lambda q: (q.gen, q.pid))
            p.state = "gone"
            emit("reap", run=p.run, pid=p.pid)
            return p.pid, p.status
        if not [p for p in W.procs.values() if p.state == "alive" and (pid == -1 or p.pid == pid)]:
            raise ChildProcessError(errno.ECHILD, "No child processes")
        if options & os.WNOHANG:
            return 0, 0
        # blocking wait: the world goes on until something exits
        if not W.queue:
            raise SimEnd()
        quiet()
        pump(max(W.queue[0][0], W.now))


_ru = None


def _rusage():
    global _ru
    if _ru is None:
        import resource
        _ru = resource.getrusage(resource.RUSAGE_SELF)
    return _ru


def _wait4(pid, options):
    if not W.active:
        return _real_wait4(pid, options)
    child_astray("wait")
    p, s = _wait_any(pid, options)
    return p, s, _rusage()


_real_wait4 = os.wait4


def _waitpid(pid, options):
    if not W.active:
        return real["waitpid"](pid, options)
    child_astray("wait")
    return _wait_any(pid, options)


def _wait():
    return _wait_any(-1, 0)


def _wait3(options):
    return _wait4(-1, options)


class _SigInfo:
    def __init__(self, pid, st):
        self.si_pid, self.si_uid, self.si_signo = pid, 0, int(_signal.SIGCHLD)
        if os.WIFSIGNALED(st):
            self.si_status, self.si_code = os.WTERMSIG(st), os.CLD_KILLED
        else:
            self.si_status, self.si_code = os.WEXITSTATUS(st), os.CLD_EXITED


def _waitid(idtype, id, options):
    if not W.active:
        return _real_waitid(idtype, id, options)
    if options & os.WNOWAIT or idtype == os.P_PGID:
        raise OSError(errno.EINVAL, "not simulated")
    p, st = _wait_any(-1 if idtype == os.P_ALL else id, options & os.WNOHANG)
    return _SigInfo(p, st) if p else None


_real_waitid = os.waitid


def _select(r, w, x, timeout=None):
    if not W.active or r or w or x or timeout is None:
        return _real_select(r, w, x, timeout)
    _sleep(timeout)
    return [], [], []


_real_select = _select_mod.select


def _kill(pid, sig):
    if not W.active:
        return real["kill"](pid, sig)
    if W.in_child:
        if W.probing and pid == os.getpid() and sig in (9, 15) and (sig == 9 or W.handlers.get(15, _signal.SIG_DFL) == _signal.SIG_DFL):
            probe_end("")
        return None  # a child of the simulation never signals anything real
    sig = int(sig)
    if sig == 0:
        p = W.procs.get(pid)
        if p is None or p.state == "gone":
            raise ProcessLookupError(errno.ESRCH, "No such process")
        return None
    poll()
    p = W.procs.get(pid)
    ok = p is not None and p.state != "gone"
    emit("kill", pid=pid, sig=sig, run=p.run if ok else "", alive=bool(ok and p.state == "alive"))
    if not ok:
        raise ProcessLookupError(errno.ESRCH, "No such process")
    if p.state == "alive":
        if sig == 9:
            schedule(W.now + 500, {"op": "exit", "pid": pid, "status": 9, "gen": p.gen})
        elif p.on_term is not None:
            schedule(W.now + p.on_term["delay"] * 1000,
                     {"op": "exit", "pid": pid, "status": p.on_term.get("status", sig), "gen": p.gen})
    return None


def _killpg(pg, sig):
    return _kill(pg, sig)


# ------------------------------------------------------------------ signals

def _signal_signal(signum, handler):
    if not W.active:
        return real["signal"](signum, handler)
    prev = W.handlers.get(int(signum), _signal.SIG_DFL)
    if W.in_child:
        real["signal"](signum, handler)
        W.handlers[int(signum)] = handler
        probe_point()
    W.handlers[int(signum)] = handler
    return prev


def _sigmask(how, sigs):
    if not W.active:
        return real["sigmask"](how, sigs)
    prev = set(W.mask)
    sigs = {int(x) for x in sigs}
    W.mask = W.mask | sigs if how == _signal.SIG_BLOCK else W.mask - sigs if how == _signal.SIG_UNBLOCK else sigs
    if W.in_child:
        if W.probing and W.sigpend and 15 not in W.mask:
            W.sigpend = []
            probe_act()
        probe_point()
    else:
        for name in [n for n in W.sigpend if SIGS[n] not in W.mask]:
            W.sigpend.remove(name)
            act(name)
    return prev


SIGS = {"TERM": 15, "INT": 2, "HUP": 1, "QUIT": 3, "USR1": 10}


class DefaultAction(BaseException):
    pass


def deliver(name):
    n = SIGS[name]
    h = W.handlers.get(n, _signal.SIG_DFL)
    poll()
    if h == _signal.SIG_DFL or h == _signal.SIG_IGN:
        if n not in W.handlers:
            return  # the daemon has not installed its handlers yet: not this property
        emit("sig", sig=name, busy=not W.idle)
        if h == _signal.SIG_DFL:
            raise DefaultAction(name)
        return
    emit("sig", sig=name, busy=not W.idle)
    if n in W.mask:
        if name not in W.sigpend:
            W.sigpend.append(name)
    else:
        act(name)


def act(name):
    n = SIGS[name]
    h = W.handlers.get(n, _signal.SIG_DFL)
    if h == _signal.SIG_IGN:
        return
    if h == _signal.SIG_DFL:
        raise DefaultAction(name)
    idle, W.idle = W.idle, False
    if name == "QUIT":
        W.quit_open = True
    h(n, sys._getframe())
    W.idle = idle


# ------------------------------------------------------------------ crash and line injection

def crash():
    poll()
    emit("crash")
    save_state()
    W.out.flush()
    os._exit(77)


def save_state():
    with open(os.path.join(W.scratch, "life.json"), "w") as f:
        json.dump({"now": W.now, "counters": W.counters, "db": W.db, "nfork": W.nfork,
                   "trig": [[fn, j, fmt] for fn, (j, fmt) in W.trig.items()],
                   "cfgno": W.cfgno, "lastvalid": W.lastvalid, "fired": W.fired, "procs": [], "nextpid": W.nextpid,
                   "undeletable": sorted(W.undeletable), "server": W.server.dump() if W.server else None}, f)


def _arm():
    if W.armed_next and W.armed is None:
        op = W.armed_next.pop(0)
        W.armed = op
        W.count = op["lines"]
        if op.get("unit", "line") == "line":
            sys.settrace(_tracer)
            f = sys._getframe()
            while f is not None:
                if f.f_code.co_filename.startswith(W.codeprefix):
                    f.f_trace = _local
                f = f.f_back


def _fire():
    op, W.armed = W.armed, None
    W.fired += 1
    if not W.armed_next:
        sys.settrace(None)
    f = sys._getframe()
    while f is not None:
        f.f_trace = None
        f = f.f_back
    if op.get("crash"):
        crash()
    elif "cfg" in op:
        write_config(op["cfg"])
        deliver("HUP")
    else:
        deliver(op["sig"])
    _arm()


def _tracer(frame, event, arg):
    if not frame.f_code.co_filename.startswith(W.codeprefix):
        return None
    return _local


def _local(frame, event, arg):
    if event == "line" and W.armed is not None and W.armed.get("unit", "line") == "line" and not W.in_child:
        W.count -= 1
        if W.count <= 0:
            _fire()
    return _local


def unit_event(unit):
    if W.armed is not None and W.armed.get("unit") == unit:
        W.count -= 1
        if W.count <= 0:
            _fire()


# ------------------------------------------------------------------ observation of files and database

def _connect(*a, **kw):
    c = real["connect"](*a, **kw)
    if W.active and not W.in_child:
        try:
            c.set_trace_callback(_on_sql)
        except Exception:
            pass
    return c


def _on_sql(stmt):
    if W.active and not W.in_child and not W.in_poll:
        poll()
        try:
            unit_event("sql")
        except BaseException as e:  # an exception cannot pass through the SQLite callback
            W.deferred_exc = e


def _row(r, running):
    def tm(x):
        return -1 if x is None else rel_ms(x)
    def cj(x):
        try:
            v = json.loads(x)
            if W.server and isinstance(v, str):
                v = json.loads(v)   # data for which the server has no type, as text
            return canon(json.dumps(v, sort_keys=True))
        except Exception:
            return "!" + repr(x)
    d = {"id": r["run_id"], "job": r["job_name"], "sched": tm(r["schedule_time"]), "start": tm(r["start_time"]),
         "ttype": r["trigger_type"], "tdata": cj(r["trigger_data"]), "rdata": cj(r["run_data"])}
    if not running:
        d["stop"] = tm(r["stop_time"])
        d["exit"] = r["exit_code"] if r["exit_code"] is not None else -1
    return d


def poll():
    if W.in_poll:
        return
    W.in_poll = True
    try:
        for fn in list(W.trig):
            if not os.path.lexists(fn):
                job, fmt = W.trig.pop(fn)
                emit("gone", job=job, fmt=fmt)
        poll_db()
    finally:
        W.in_poll = False


def attach_server(kind, state):
    """a database server other than SQLite"""
    import fakedb
    fakedb.mem_connect = real["connect"]
    servers = dict(zip(("postgresql", "mysql", "mongodb"), fakedb.install()))
    W.server = servers[kind]
    if state:
        W.server.load(state)
    fakedb.steps.hook = _on_step


def _on_step():
    if W.active and not W.in_child and not W.in_poll:
        poll()
        unit_event("sql")


def poll_db():
    if W.server is not None:
        v = W.server.version()
        if v != W.dver:
            W.dver = v
            new, dup = {"running": {}, "runs": {}}, []
            for key, tab, isr in (("running", "runs_running", True), ("runs", "runs", False)):
                for r in W.server.rows(tab):
                    d = _row(r, isr)
                    if d["id"] in new[key]:
                        dup.append(d["id"])
                    new[key][d["id"]] = d
            db_changed(new, dup)
        return
    if W.obs is None:
        if not os.path.exists(W.dbfile):
            return
        try:
            W.obs = real["connect"](W.dbfile, timeout=0, isolation_level=None)
            W.obs.row_factory = sqlite3.Row
            W.dver = None
        except sqlite3.Error:
            W.obs = None
            return
    try:
        v = W.obs.execute("PRAGMA data_version").fetchone()[0]
        if v == W.dver:
            return
        W.obs.execute("BEGIN")
        try:
            tabs = {r[0] for r in W.obs.execute("SELECT name FROM sqlite_master WHERE type='table'")}
            new = {"running": {}, "runs": {}}
            dup = []
            for key, tab, isr in (("running", "runs_running", True), ("runs", "runs", False)):
                if tab in tabs:
                    for r in W.obs.execute("SELECT * FROM %s ORDER BY rowid" % tab):
                        d = _row(r, isr)
                        if d["id"] in new[key]:
                            dup.append(d["id"])
                        new[key][d["id"]] = d
        finally:
            W.obs.execute("COMMIT")
        W.dver = v
    except sqlite3.OperationalError:
        return
    db_changed(new, dup)


def db_changed(new, dup):
    old = W.db
    addrun = [r for i, r in new["running"].items() if old["running"].get(i) != r]
    delrun = [i for i in old["running"] if i not in new["running"]]
    add = [r for i, r in new["runs"].items() if old["runs"].get(i) != r]
    dele = [i for i in old["runs"] if i not in new["runs"]]
    W.db = new
    if addrun or delrun or add or dele or dup:
        emit("db", addrun=addrun, delrun=delrun, add=add, dele=dele, dup=dup)


# ------------------------------------------------------------------ configuration files

def write_config(n):
    W.cfgno = n
    if W.scn["cfgs"][n]["desc"].get("valid", True):
        W.lastvalid = n
    fn = os.path.join(W.etc, "dsari.json")
    raw = W.scn["cfgs"][n]["file"]
    if isinstance(raw, dict):
        raw = dict(raw)
        raw.setdefault("data_dir", W.data)
        raw = json.dumps(raw)
        raw = raw.replace("$D", W.data).replace("$E", W.alt)
    tmp = fn + ".tmp"
    with own_files():
        with open(tmp, "w") as f:
            f.write(raw)
        os.rename(tmp, fn)


def _audit(event, args):
    if not W.active or W.in_child or W.in_poll:
        return
    if event == "open":
        p = args[0]
        if isinstance(p, str) and p == W.cfgfile and not (isinstance(args[1], str) and "w" in args[1]):
            W.booted = True
            poll()
            emit("cfgread", cfg=W.cfgno)
    elif event in ("os.remove", "os.mkdir", "os.rename"):
        unit_event("fs")
        if event == "os.remove":
            p = args[0]
            if isinstance(p, str) and p.startswith(W.alt + "/trigger/"):
                p = W.data + p[len(W.alt):]
            if isinstance(p, str) and p in W.trig and W.trig[p][0] in W.undeletable:
                raise PermissionError(errno.EACCES, "simulated: directory not writable", p)


# ------------------------------------------------------------------ set-up

_installed = False


def install():
    global _installed
    if _installed:
        return
    _installed = True
    _dtmod.datetime = SimDateTime
    _time.sleep = _sleep
    _time.time = lambda: _now_us() / 1000000
    _time.time_ns = lambda: _now_us() * 1000
    _time.monotonic = lambda: _now_us() / 1000000 if W.active else real["monotonic"]()
    _time.monotonic_ns = lambda: _now_us() * 1000 if W.active else int(real["monotonic"]() * 1e9)
    _time.perf_counter = lambda: _now_us() / 1000000 if W.active else real["monotonic"]()
    _select_mod.select = _select
    os.waitid = _waitid
    os.fork = _fork
    os.wait4 = _wait4
    os.waitpid = _waitpid
    os.wait = _wait
    os.wait3 = _wait3
    os.kill = _kill
    os.killpg = _killpg
    _signal.signal = _signal_signal
    _signal.pthread_sigmask = _sigmask
    os.execvpe = _execvpe
    os.execve = _execvpe
    os.execvp = _execvp
    os.execv = _execvp
    sqlite3.connect = _connect
    sys.addaudithook(_audit)
    sys.path.insert(0, REPO)
    sys.dont_write_bytecode = True


EXTRA_FDS = (20, 45, 250, 1000)
_null = []


def _devnull():
    if not _null:
        _null.append(os.open("/dev/null", os.O_RDONLY))
    return _null[0]


def start_world(scn, scratch, out, life=None):
    W.scn = scn
    W.scratch = scratch
    W.data = os.path.join(scratch, "var")
    W.alt = os.path.join(scratch, "alt")
    W.etc = os.path.join(scratch, "etc")
    W.dbfile = os.path.join(W.data, "dsari.sqlite3")
    W.cfgfile = os.path.join(W.etc, "dsari.json")
    W.codeprefix = os.path.join(REPO, "dsari") + os.sep
    W.out = out
    W.in_child = False
    W.in_poll = False
    W.idle = False
    W.nopump = 0
    W.queue = []
    W.seq = 0
    W.procs = {}
    W.forked = set()
    W.nextpid = 5000
    W.pid_pool = bool(scn.get("pid_pool"))
    W.handlers = {}
    W.mask = set()
    W.sigpend = []
    W.probing = False
    W.nev = 0
    W.dirty = True
    W.obs = None
    W.dver = None
    W.server = None
    if scn.get("backend"):
        attach_server(scn["backend"], life and life["server"])
    W.db = {"running": {}, "runs": {}}
    W.trig = {}
    W.counters = {}
    W.nfork = 0
    W.armed = None
    W.armed_next = []
    W.count = 0
    W.fired = 0
    W.undeletable = set()
    W.booted = False
    W.deferred_exc = None
    W.logbuf = []
    W.quit_open = False
    W.now = BASE * 1000000 + scn["t0"] * 1000
    W.lastquiet = W.now
    os.makedirs(W.etc, exist_ok=True)
    os.makedirs(W.data, exist_ok=True)
    # open files the daemon was started with
    for n in EXTRA_FDS:
        try:
            os.close(n)
        except OSError:
            pass
    for n in scn.get("fds", []):
        os.dup2(_devnull(), n, inheritable=True)
    if life is None:
        write_config(0)
    else:
        W.now = life["now"]
        W.lastvalid = life["lastvalid"]
        W.counters = life["counters"]
        W.db = life["db"]
        W.nfork = life["nfork"]
        W.nextpid = life["nextpid"]
        W.trig = {fn: (j, fmt) for fn, j, fmt in life["trig"]}
        W.cfgno = life["cfgno"]
        W.undeletable = set(life["undeletable"])
        if not scn["cfgs"][W.cfgno]["desc"].get("valid", True):
            write_config(life["lastvalid"])  # nobody starts a daemon with an invalid configuration
        W.forked = set(W.db["running"]) | set(W.db["runs"])
    for op in scn["env"]:
        t = (BASE * 1000 + scn["t0"] + op["t"]) * 1000
        if life is not None and t <= W.now:
            if op["op"] != "end":
                continue
            t = W.now + 1000000
        if op["op"] == "inject" and t == (BASE * 1000 + scn["t0"]) * 1000 and op["t"] == 0:
            W.armed_next.append(op)
            continue
        schedule(t, op)
    W.active = True
    if life is not None:
        poll()  # what the killed daemon left behind
