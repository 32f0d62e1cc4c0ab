"""Run TLC on a module of /verif/spec and read what it prints."""
import json
import os
import re
import shutil
import subprocess
import tempfile

SPEC = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec")
JAR = "/opt/veriftools/tla/tla2tools.jar"


class TlcError(RuntimeError):
    pass


def scratch(prefix="dsv-"):
    return tempfile.mkdtemp(prefix=prefix, dir="/dev/shm" if os.path.isdir("/dev/shm") else None)


def run(module, cfg=None, env=None, workers="auto", extra=(), timeout=850, heap="4g", cwd=None):
    """Returns (returncode, stdout)."""
    meta = scratch("dsv-tlc-")
    try:
        e = dict(os.environ)
        e.update(env or {})
        e.pop("JAVA_TOOL_OPTIONS", None)
        d = cwd or SPEC
        cmd = ["tlc", "-noGenerateSpecTE", "-metadir", meta, "-workers", str(workers), "-config", cfg or (module + ".cfg")] + list(extra) + [module + ".tla"]
        e["JAVA_TOOL_OPTIONS"] = "-Xmx%s -Xss16m -XX:+UseParallelGC -Djava.io.tmpdir=%s" % (heap, meta)
        try:
            p = subprocess.run(cmd, cwd=d, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        except subprocess.TimeoutExpired as x:
            raise TlcError("TLC timed out on %s: %s" % (module, (x.stdout or b"")[-2000:].decode("utf-8", "replace")))
        return p.returncode, p.stdout.decode("utf-8", "replace")
    finally:
        shutil.rmtree(meta, ignore_errors=True)


_tup = re.compile(r'<<\s*"(BAD|DONE|HIT|GEN)",(.*?)>>\s*$', re.S)


def tuples(out):
    """The tuples printed with PrintT whose first element is an upper-case tag."""
    res = []
    buf = None
    for line in out.splitlines():
        if buf is None:
            if line.startswith("<<") and re.match(r'<<\s*"[A-Z]+"', line):
                buf = line
            else:
                continue
        else:
            buf += " " + line
        if buf.count("<<") <= buf.count(">>"):
            res.append(parse(buf))
            buf = None
    return res


def parse(t):
    """A TLA+ value as printed by TLC -> Python (tuples, sets as lists, records as dicts)."""
    pos = 0

    def ws():
        nonlocal pos
        while pos < len(t) and t[pos].isspace():
            pos += 1

    def val():
        nonlocal pos
        ws()
        if t.startswith("<<", pos):
            pos += 2
            return seq(">>")
        if t[pos] == "{":
            pos += 1
            return seq("}")
        if t[pos] == "[":
            pos += 1
            d = {}
            while True:
                ws()
                if t[pos] == "]":
                    pos += 1
                    return d
                m = re.compile(r"(\w+)\s*\|->").match(t, pos)
                pos = m.end()
                d[m.group(1)] = val()
                ws()
                if t[pos] == ",":
                    pos += 1
        if t[pos] == '"':
            m = re.compile(r'"((?:[^"\\]|\\.)*)"').match(t, pos)
            pos = m.end()
            return m.group(1).replace('\\"', '"').replace("\\\\", "\\")
        m = re.compile(r"-?\w+").match(t, pos)
        pos = m.end()
        w = m.group(0)
        if w in ("TRUE", "FALSE"):
            return w == "TRUE"
        return int(w) if re.match(r"-?\d+$", w) else w

    def seq(end):
        nonlocal pos
        r = []
        while True:
            ws()
            if t.startswith(end, pos):
                pos += len(end)
                return r
            r.append(val())
            ws()
            if t[pos] == ",":
                pos += 1
    return val()


def check_traces(module, traces, env=None, workers="auto", timeout=850, cfg=None):
    """traces: list of lists of records.  Returns (list of (k, line, clause, props), tlc statistics)."""
    d = scratch("dsv-tr-")
    try:
        fn = os.path.join(d, "traces.json")
        with open(fn, "w") as f:
            json.dump(traces, f)
        e = {"TRACES": fn}
        e.update(env or {})
        rc, out = run(module, cfg=cfg, env=e, workers=workers, timeout=timeout)
        tu = tuples(out)
        done = {t[1]: t[2] for t in tu if t[0] == "DONE"}
        if rc != 0 or len(done) != len(traces) or any(done[k + 1] != len(traces[k]) for k in range(len(traces))):
            raise TlcError("TLC did not follow all traces (rc %d, %d of %d)\n%s" % (rc, len(done), len(traces), error_part(out)))
        m = re.search(r"(\d+) states generated, (\d+) distinct states", out)
        stats = {"states": int(m.group(2)) if m else 0, "transitions": int(m.group(1)) if m else 0}
        bad = [(t[1] - 1, t[2] - 1, t[3], sorted(t[4])) for t in tu if t[0] == "BAD"]
        hits = {}
        for t in tu:
            if t[0] == "HIT":
                for c in t[2]:
                    hits[c] = hits.get(c, 0) + 1
        stats["hits"] = hits
        return sorted(bad), stats
    finally:
        shutil.rmtree(d, ignore_errors=True)


def model_check(module, cfg, workers="auto", timeout=800, heap="8g"):
    """Explore a model exhaustively; returns statistics, raises TlcError if TLC finds the model wrong.
    A large one (...Deep) counts for what has been explored when the time is over."""
    try:
        rc, out = run(module, cfg=cfg, workers=workers, timeout=timeout, heap=heap)
    except TlcError as e:
        m = re.findall(r"([\d,]+) states generated [^\n]* ([\d,]+) distinct states found", str(e))
        if not cfg.endswith("Deep.cfg") or "timed out" not in str(e) or not m or "Error:" in str(e):
            raise
        return {"model": cfg[:-4], "complete": False, "states": int(m[-1][1].replace(",", "")), "transitions": int(m[-1][0].replace(",", ""))}
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found, (\d+) states left", out)
    if rc != 0 or not m or m[-1][2] != "0":
        raise TlcError("model %s %s: rc %d\n%s" % (module, cfg, rc, out[-4000:]))
    return {"model": cfg[:-4], "states": int(m[-1][1]), "transitions": int(m[-1][0])}


def model_refuted(module, cfg, workers="auto", timeout=800, heap="8g"):
    """A model with a deliberate mistake: TLC has to find it."""
    rc, out = run(module, cfg=cfg, workers=workers, timeout=timeout, heap=heap)
    if "is violated" not in out:
        raise TlcError("model %s %s: the mistake was not found, rc %d\n%s" % (module, cfg, rc, out[-4000:]))
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
    return {"model": cfg[:-4], "refuted": True, "states": int(m[-1][1]), "transitions": int(m[-1][0])}


def error_part(out):
    i = out.find("Error:")
    return out[i:i + 3000] if i >= 0 else out[-3000:]
