"""C15: configuration files -> the real dsari-info -> effective configuration, judged by Config.tla."""
import io
import json
import math
import os
import random
import shlex
import shutil
import sys
import zlib

import yaml

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import forkpool  # noqa: E402
import tlc  # noqa: E402

REPO = os.environ.get("DSV_REPO", "/repo")

# ------------------------------------------------------------------ tagged values


def S(v, **kw):
    return dict(t="s", v=v, **kw)


def I(v):
    return {"t": "i", "v": v, "str": str(v), "ms": v * 1000}


def F(v):
    return {"t": "f", "str": str(v), "ms": int(round(v * 1000)), "raw": v}


def B(v):
    return {"t": "b", "v": v}


def N():
    return {"t": "n"}


def L(*v):
    return {"t": "l", "v": list(v)}


def D(d, **kw):
    return dict(t="d", v=d, **kw)


def X(v):
    return {"t": "x", "raw": v}


def plain(x):
    t = x["t"]
    if t == "d":
        r = {k: plain(v) for k, v in x["v"].items()}
        r.update({k: v for k, v in x.get("extra", {}).items()})
        return r
    if t == "l":
        return [plain(v) for v in x["v"]]
    if t == "n":
        return None
    if t in ("f", "x"):
        return x["raw"]
    return x["v"]


def strip(x):
    """What TLC gets: no Python-only facts."""
    t = x["t"]
    y = {k: v for k, v in x.items() if k not in ("raw", "extra")}
    if t == "d":
        y["v"] = {k: strip(v) for k, v in x["v"].items()}
    elif t == "l":
        y["v"] = [strip(v) for v in x["v"]]
    return y


# ------------------------------------------------------------------ generator

SCHED_OK = ["H * * * *", "*/5 * * * *", "H/3 H * * *", "@daily", "@hourly", "0 0 1 1 *", "R R * * *", "RRULE:FREQ=DAILY", "rrule:freq=hourly;byminute=5",
            "RRULE:FREQ=WEEKLY;BYDAY=MO,WE", "5,10 1-3 * * 1-5 30", "@monthly", "H(0-9) * * * *", "* * * * *"]
SCHED_BAD = ["", "x", "61 * * * *", "* * * *", "@nope", "RRULE:", "RRULE:FREQ=NEVER", "RRULE:FREQ=DAILY;BYHOUR=99x", 
             "* 24 * * *", "H/0 * * * *", "a b c d e"]
COMMANDS = [["true"], ["sh", "-c", "echo a b"], ["/bin/x", ""], ["it's", "q\"uote", "back\\slash"], ["\u00e9", "-n"], ["a"] * 5]
COMMAND_STR = [("true", ["true"]), ("a 'b c' \"d e\"", ["a", "b c", "d e"]), ("x\\ y z", ["x y", "z"]), ("  lead trail ", ["lead", "trail"]),
               ("a '' b", ["a", "", "b"]), ("a#b c", ["a#b", "c"]), ("n\tt\nl", ["n", "t", "l"])]
TZS = [("UTC", 0), ("Asia/Tokyo", 540), ("America/Phoenix", -420), ("Asia/Kolkata", 330), ("Etc/GMT+12", -720)]
GOODNAMES = ["alpha", "beta", "g-1", "A b.c:d@e+f_g", "0", "x" * 64, "..x", "-", " lead", "name.with.dots"]
BADNAMES = ["", ".", "..", "a/b", "x" * 65, "tab\tname", "nl\n", "\u00e9t\u00e9", "semi;colon", "a\0b", "star*", "q?", "/"]
KEYS = ["A", "PATH", "LONG_NAME", "lower", "WITH SPACE", "\u00c9", "0", "A.B"]


class Gen:
    def __init__(self, seed):
        self.r = random.Random("cfg%s" % seed)

    def p(self, x):
        return self.r.random() < x

    def c(self, s):
        return self.r.choice(s)

    def env(self):
        d = {}
        for _ in range(self.r.randrange(0, 4)):
            d[self.c(KEYS)] = self.c([S("v"), S(""), S("a=b c"), S("\u4e16"), I(self.r.randrange(-5, 5000)), F(self.c([0.5, 2.25, -1.0, 1e20])), S("1")])
        return D(d)

    def command(self):
        if self.p(0.4):
            s, sh = self.c(COMMAND_STR)
            return S(s, sh=list(sh))
        return L(*[S(a) for a in self.c(COMMANDS)])

    def num(self):
        return self.c([I(self.r.randrange(0, 100000)), F(self.c([0.5, 2.25, 90.0, 0.001, 3600.125]))])

    def sched(self):
        return self.c([N()] + [S(self.c(SCHED_OK), ok=True)] * 5)

    def tz(self):
        n, o = self.c(TZS)
        return S(n, off=o)

    JOBKEYS = ["schedule", "schedule_timezone", "max_execution", "max_execution_grace", "environment", "render_reports",
               "command_append_run", "jenkins_environment", "concurrent_runs", "job_group", "concurrency_groups", "unknown_key"]

    def jobval(self, k):
        if k == "command":
            return self.command()
        if k == "schedule":
            return self.sched()
        if k == "schedule_timezone":
            return self.tz()
        if k in ("max_execution", "max_execution_grace"):
            return self.num()
        if k == "environment":
            return self.env()
        if k == "job_group":
            return S(self.c(["jg", "", "whatever text"]))
        if k == "concurrency_groups":
            return L(*[S(g) for g in self.r.sample(GOODNAMES[:6], self.r.randrange(0, 4))])
        if k == "unknown_key":
            return self.anything()
        return B(self.p(0.5))

    def anything(self):
        return self.c([N(), B(True), I(3), F(1.5), S("text"), L(), L(I(1), S("x")), D({}), D({"k": S("v")})])

    def job(self, full=True, dens=0.35):
        d = {}
        if full or self.p(0.4):
            d["command"] = self.command()
        for k in self.JOBKEYS:
            if self.p(dens):
                d[k] = self.jobval(k)
        return D(d)

    def jobgroup(self, names):
        j = self.job()
        j["v"]["job_names"] = L(*[S(n) for n in names])
        j["v"].pop("job_group", None) if self.p(0.5) else None
        return j

    def top(self, k):
        if k in ("report_html_gz", "shutdown_kill_runs"):
            return B(self.p(0.5))
        if k in ("report_run_output_start", "report_run_output_end"):
            return I(self.r.randrange(-3, 5000))
        if k == "shutdown_kill_grace":
            return self.num()
        if k == "environment":
            return self.env()
        if k == "data_dir":
            return S("$W/data%d" % self.r.randrange(3))
        if k == "template_dir":
            return S("$W/tmpl%d" % self.r.randrange(3))
        if k == "database":
            return D({})
        return self.anything()

    TOP = ["report_html_gz", "shutdown_kill_runs", "report_run_output_start", "report_run_output_end", "shutdown_kill_grace",
           "environment", "data_dir", "template_dir", "database", "unknown_key"]

    def doc(self, first):
        """One file: the first one is complete, later ones are mostly partial."""
        d = {}
        for k in self.TOP:
            if self.p(0.3):
                d[k] = self.top(k)
        if first or self.p(0.6):
            d["jobs"] = D({n: self.job(full=first or n in self.used or self.p(0.2), dens=0.35 if first else 0.2)
                           for n in self.r.sample(self.names, self.r.randrange(0, len(self.names) + 1))})
            if first:
                self.used = set()
            for n in d["jobs"]["v"]:
                if not first and n not in self.known:
                    d["jobs"]["v"][n]["v"].setdefault("command", self.command())
                self.known.add(n)
        if self.p(0.4):
            g = self.c(["jgA", "jgB"])
            if g not in self.jg:
                self.jg[g] = self.r.sample({"jgA": ["m1", "m2", "m3"], "jgB": ["n1", "n2", self.names[0]]}[g], self.r.randrange(1, 4))
                d["job_groups"] = D({g: self.jobgroup(self.jg[g])})
            elif self.p(0.5):
                d["job_groups"] = D({g: D({"environment": self.env(), "max_execution": self.num()})})
            else:
                d["job_groups"] = D({g: D({"job_names": L(S(self.jg[g][0]))})})
        if self.p(0.4):
            d["concurrency_groups"] = D({n: D({"max": I(self.r.randrange(0, 6))} if self.p(0.7) else {}) for n in self.r.sample(GOODNAMES[:6], self.r.randrange(0, 3))})
        return D(d)

    def mutate(self, d):
        """One thing that is wrong (or looks wrong) somewhere in a document."""
        v = d["v"]
        k = self.c(["top", "top", "env", "job", "job", "job", "jobname", "groupname", "max", "command", "command", "schedule", "part", "entry", "jobnames",
                    "members", "jgname", "cgname", "jenv"])
        wrong = [B(True), I(3), F(1.5), S("text"), L(), L(I(1), S("x")), D({}), D({"k": S("v")})]

        def badtype(good):
            return self.c([w for w in wrong if w["t"] not in good])

        def badenv():
            return self.c([D({"A": B(True)}), D({"A": L()}), D({"A": D({})}), D({"A": N()}), D({"A=B": S("x")}), D({"": S("x")}),
                           D({"A": S("x\0y", enc=False)}), D({"OK": S("x"), "NO": L(S("x"))}), D({"OK": S("1"), "Z": N()})])
        jobs = v.setdefault("jobs", D({"alpha": D({"command": self.command()})}))
        if not jobs["v"]:
            jobs["v"]["beta"] = D({"command": self.command()})
        n = self.c(sorted(jobs["v"]))
        if jobs["v"][n]["t"] != "d":
            return
        j = jobs["v"][n]["v"]
        if k == "top":
            o = self.c(self.TOP[:-1])
            good = {"report_html_gz": "b", "shutdown_kill_runs": "b", "report_run_output_start": "i", "report_run_output_end": "i",
                    "shutdown_kill_grace": "if", "environment": "d", "data_dir": "s", "template_dir": "s", "database": "d"}[o]
            v[o] = badtype(good)
        elif k == "env":
            v["environment"] = badenv()
        elif k == "jenv":
            j["environment"] = badenv()
        elif k == "job":
            o = self.c(self.JOBKEYS[:-1])
            good = {"schedule": "sn", "schedule_timezone": "s", "max_execution": "if", "max_execution_grace": "if", "environment": "d",
                    "job_group": "s", "concurrency_groups": "l"}.get(o, "b")
            j[o] = badtype(good)
            if o in ("max_execution", "max_execution_grace") and self.p(0.3):
                j[o] = X(self.c([float("nan"), float("inf"), 1e300]))
        elif k == "jobname":
            jobs["v"][self.c(BADNAMES)] = self.job()
        elif k == "groupname":
            j["concurrency_groups"] = L(S(self.c(BADNAMES)))
        elif k == "cgname":
            v.setdefault("concurrency_groups", D({}))["v"][self.c(BADNAMES)] = D({})
        elif k == "max":
            v.setdefault("concurrency_groups", D({}))["v"]["alpha"] = D({"max": badtype("i")})
        elif k == "command":
            j["command"] = self.c([L(), L(I(1)), L(S("a"), N()), L(S("a"), L()), S("", sh=[]), S("   ", sh=[]), S("'open", shbad=True), S("a\\", shbad=True),
                                   I(5), B(True), D({}), F(1.5), L(S("a\0b", enc=False)), N()])
        elif k == "schedule":
            j["schedule"] = S(self.c(SCHED_BAD), ok=False)
        elif k == "part":
            v[self.c(["jobs", "job_groups", "concurrency_groups"])] = self.c([I(3), S("text"), B(True), L(S("x"))])
        elif k == "entry":
            jobs["v"][n] = self.c([I(3), B(True), N(), L()])
        elif k == "jobnames":
            v.setdefault("job_groups", D({}))["v"]["jgX"] = D({"command": self.command(), **({} if self.p(0.3) else {"job_names": self.c([S("ab"), D({"p": N()}), I(3), N(), L(I(3))])})})
        elif k == "members":
            v.setdefault("job_groups", D({}))["v"]["jgX"] = D({"command": self.command(), "job_names": L(S("okname"), S(self.c(BADNAMES)))})
        elif k == "jgname":
            v.setdefault("job_groups", D({}))["v"][self.c(BADNAMES)] = D({"command": self.command(), "job_names": L(S("okname"))})

    def file(self, doc, fmt):
        r = self.r.random()
        if r < 0.03:
            return {"ok": False, "doc": D({}), "text": "{broken" if fmt == "json" else "a: [b"}
        if r < 0.05:
            x = self.c([L(), I(3), S("text"), B(False), L(S("jobs"))])
            return {"ok": True, "doc": x, "text": None}
        if r < 0.08 and fmt == "yaml":
            return {"ok": True, "doc": N(), "text": self.c(["", "# nothing\n", "---\n", "~\n"])}
        return {"ok": True, "doc": doc, "text": None}

    def load(self):
        self.names = self.r.sample(GOODNAMES, self.r.randrange(1, 4))
        self.known, self.jg, self.used = set(), {}, set()
        mains = self.c([["yaml"], ["json"], ["yaml", "json"], ["yaml", "json"], []])
        ev = {"e": "load", "main": [], "d": [], "d2": [], "d2dir": "$W/alt", "dd": "$W/home/var"}
        first = True
        for fmt in mains:
            d = self.doc(first)
            if self.p(0.12):
                d["v"]["config_d"] = self.c([S("$W/alt"), S("$W/alt"), S("$W/absent"), S(""), N()])
            f = self.file(d, fmt)
            f["fmt"] = fmt
            ev["main"].append(f)
            first = False
        for key, n in (("d", self.c([0, 0, 1, 2, 4])), ("d2", self.c([0, 1, 2]))):
            seen = set()
            for _ in range(n):
                fmt = self.c(["yaml", "json"])
                stem = self.c(["10-a", "20-b", "9", "a", "b", "a.b", "z_z", "m-1", "B", "Z-1", "A", "10"])
                if stem + fmt in seen:
                    continue
                seen.add(stem + fmt)
                f = self.file(self.doc(first), fmt)
                f.update(name=stem + "." + fmt, fmt=fmt)
                ev[key].append(f)
                first = False
        if self.p(0.35):
            # a defect (or what looks like one), in one of the documents
            fs = [f for f in ev["main"] + ev["d"] + ev["d2"] if f["ok"] and f["doc"]["t"] == "d"]
            if fs:
                self.mutate(self.c(fs)["doc"])
        return ev


def scenario(seed):
    g = Gen(seed)
    loads = [g.load() for _ in range(3)]
    return {"name": "cfg-%s" % seed, "loads": loads + [loads[0]]}


# ------------------------------------------------------------------ execution

def sub(x, w):
    if isinstance(x, str):
        return x.replace("$W", w)
    if isinstance(x, list):
        return [sub(v, w) for v in x]
    if isinstance(x, dict):
        return {k: sub(v, w) for k, v in x.items()}
    return x


def write_files(ev, w):
    for d in ("etc", "alt"):
        shutil.rmtree(os.path.join(w, d), ignore_errors=True)
    os.makedirs(os.path.join(w, "etc"))

    def put(fn, f):
        os.makedirs(os.path.dirname(fn), exist_ok=True)
        t = f["text"]
        if t is None:
            p = sub(plain(f["doc"]), w)
            t = json.dumps(p) if f["fmt"] == "json" else yaml.safe_dump(p, default_flow_style=None, allow_unicode=True)
        with open(fn, "w") as h:
            h.write(t)
    for f in ev["main"]:
        put(os.path.join(w, "etc", "dsari." + f["fmt"]), f)
    if ev["d"]:
        os.makedirs(os.path.join(w, "etc", "config.d"))
        # created in an order which is not that of their names; something that is no configuration file
        for f in sorted(ev["d"], key=lambda f: f["name"][::-1]):
            put(os.path.join(w, "etc", "config.d", f["name"]), f)
        with open(os.path.join(w, "etc", "config.d", "README"), "w") as h:
            h.write("{not a configuration")
        os.makedirs(os.path.join(w, "etc", "config.d", "sub.json"))
        with open(os.path.join(w, "etc", "config.d", "x.json.bak"), "w") as h:
            h.write("{")
        with open(os.path.join(w, "etc", "config.d", "c.yml"), "w") as h:
            h.write("jobs: {command: nowhere}")
    if ev["d2"]:
        for f in ev["d2"]:
            put(os.path.join(w, "alt", f["name"]), f)


def info(argv):
    """Run dsari-info in this process; returns (output or None if it failed)."""
    import dsari.info
    old = sys.stdout, sys.stderr, sys.argv
    sys.stdout, sys.stderr = io.StringIO(), io.StringIO()
    sys.argv = ["dsari-info"] + argv
    try:
        rc = dsari.info.main()
        return sys.stdout.getvalue() if not rc else None
    except SystemExit as e:
        return sys.stdout.getvalue() if not e.code else None
    except Exception:
        return None
    finally:
        sys.stdout, sys.stderr, sys.argv = old


def ms(x):
    return -1 if x is None else int(round(x * 1000))


EMPTY_OUT = {"accepted": False, "odd": [], "jobs": {}, "groups": {}, "top": {}}
UNSEEN = {"views": False, "check": False, "raw": {"t": "n"}, "forms": True}


def tagged(x, w):
    """a value read from the output, as the values of the files are written"""
    if isinstance(x, dict):
        return D({k.replace(w, "$W") if isinstance(k, str) else repr(k): tagged(v, w) for k, v in x.items()})
    if isinstance(x, list):
        return L(*[tagged(v, w) for v in x])
    if isinstance(x, str):
        return S(x.replace(w, "$W"))
    if isinstance(x, bool):
        return B(x)
    if isinstance(x, int):
        return {"t": "i", "str": str(x)}
    if isinstance(x, float):
        return {"t": "f", "str": str(x)}
    return N() if x is None else {"t": "x"}


def views(w, k):
    """the other ways to look at a configuration: config check, config dump --raw, and the formats of config dump"""
    a = ["-c", os.path.join(w, "etc"), "config"]
    out = {"views": True, "check": info(a + ["check"]) is not None}
    fmt = ["json", "yaml"][k % 2]
    raw = info(a + ["dump", "--raw", "--format", fmt])
    out["raw"] = {"t": "n"} if raw is None else tagged(json.loads(raw) if fmt == "json" else yaml.safe_load(raw), w)
    y, j = info(a + ["dump", "--format", "yaml"]), info(a + ["dump", "--format", "json"])

    def still(c):
        for job in c["jobs"].values():
            job["next_scheduled_run"] = bool(job["next_scheduled_run"])
        return c
    out["forms"] = y is None and j is None or y is not None and j is not None and still(yaml.safe_load(y)) == still(json.loads(j))
    return out


def observe(w):
    raw = info(["-c", os.path.join(w, "etc"), "config", "dump"])
    if raw is None:
        return None, EMPTY_OUT
    try:
        c = json.loads(raw)
    except ValueError:
        return raw, {**EMPTY_OUT, "accepted": True, "odd": ["not json"]}
    odd = []

    def typ(x, t, what, default):
        if type(x) not in t:
            odd.append(what)
            return default
        return x.replace(w, "$W") if isinstance(x, str) else x

    def envd(e, what):
        e = typ(e, (dict,), what, {})
        return {k: typ(v, (str,), what + "." + k, "") for k, v in e.items()}
    jobs = {}
    for n, j in c["jobs"].items():
        nx = j.get("next_scheduled_run")
        jobs[n] = {
            "command": [typ(a, (str,), "command", "") for a in typ(j["command"], (list,), "command", [])],
            "schedule": "" if j["schedule"] is None else typ(j["schedule"], (str,), "schedule", ""),
            "environment": envd(j["environment"], "environment"),
            "max_execution": ms(typ(j["max_execution"], (int, float, type(None)), "max_execution", 0)),
            "max_execution_grace": ms(typ(j["max_execution_grace"], (int, float), "max_execution_grace", 0)),
            "concurrency_groups": [typ(a, (str,), "concurrency_groups", "") for a in j["concurrency_groups"]],
            "job_group": "" if j["job_group"] is None else typ(j["job_group"], (str,), "job_group", ""),
            "tzoff": -9999 if not nx else offset(nx)}
        for k in ("render_reports", "command_append_run", "jenkins_environment", "concurrent_runs"):
            jobs[n][k] = typ(j[k], (bool,), k, False)
    top = {"data_dir": typ(c["data_dir"], (str,), "data_dir", ""),
           "template_dir": "" if c["template_dir"] is None else typ(c["template_dir"], (str,), "template_dir", ""),
           "shutdown_kill_grace": ms(typ(c["shutdown_kill_grace"], (int, float, type(None)), "shutdown_kill_grace", 0)),
           "environment": envd(c["environment"], "environment")}
    for k in ("report_html_gz", "shutdown_kill_runs"):
        top[k] = typ(c[k], (bool,), k, False)
    for k in ("report_run_output_start", "report_run_output_end"):
        top[k] = typ(c[k], (int,), k, 0)
    groups = {g: typ(d.get("max"), (int,), "max", 0) for g, d in c["concurrency_groups"].items()}
    canon = json.dumps([jobs, groups, top, c.get("database"), c.get("config_d")], sort_keys=True)
    return canon, {"accepted": True, "odd": odd, "jobs": jobs, "groups": groups, "top": top}


def offset(iso):
    import datetime
    return int(datetime.datetime.fromisoformat(iso).utcoffset().total_seconds() // 60)


def run_scenario(scn):
    """In a fresh process."""
    w = tlc.scratch("dsv-cfg-")
    try:
        os.environ["DSARI_HOME"] = os.path.join(w, "home")
        os.makedirs(os.path.join(w, "home", "var"))
        sys.path.insert(0, REPO)
        tr = [{"e": "header", "name": scn["name"]}]
        seen = {}
        for k in range(3):
            os.makedirs(os.path.join(w, "data%d" % k))
        import dsari.config
        dsari.config.DEFAULT_DATA_DIR = os.path.join(w, "home", "var")
        for ev in scn["loads"]:
            write_files(ev, w)
            c1, out = observe(w)
            c2 = observe(w)[0] if "once" not in scn else c1
            key = json.dumps(ev, sort_keys=True)
            same = c1 == c2 and seen.setdefault(key, c1) == c1
            e = {k: v for k, v in ev.items() if k not in ("main", "d", "d2")}
            for part in ("main", "d", "d2"):
                e[part] = [{**{k: v for k, v in f.items() if k != "text"}, "doc": strip(f["doc"])} for f in ev[part]]
            v = views(w, len(tr)) if "once" not in scn and zlib.crc32(key.encode()) % 3 == 0 else UNSEEN
            tr.append({**e, "same": same, "out": {**out, **v}})
        return tr
    finally:
        shutil.rmtree(w, ignore_errors=True)


def preload():
    sys.path.insert(0, REPO)
    os.environ["DSARI_HOME"] = "/dev/null/dsari"
    try:
        import dsari.info  # noqa: F401
    except Exception:
        pass


def explore(scns):
    traces = forkpool.map(run_scenario, scns, preload)
    bad, stats = tlc.check_traces("ConfigTrace", traces)
    return traces, bad, stats


def model_cases():
    """The file sets which MCConfig.tla enumerates, as scenarios."""
    d = tlc.scratch("dsv-mcc-")
    try:
        fn = os.path.join(d, "cases.json")
        rc, out = tlc.run("MCConfig", env={"CASES": fn}, workers=1)
        if rc != 0:
            raise tlc.TlcError("MCConfig: " + out[-3000:])
        cases = json.load(open(fn))
    finally:
        shutil.rmtree(d, ignore_errors=True)

    def fix(x):
        if x["t"] == "d":
            x["v"] = {k: fix(v) for k, v in x["v"].items()} if isinstance(x["v"], dict) else {}
        elif x["t"] == "l":
            x["v"] = [fix(v) for v in x["v"]]
        return x
    scns, loads = [], []
    for i, docs in enumerate(cases):
        fs = [{"ok": True, "doc": fix(x), "text": None} for x in docs]
        ev = {"e": "load", "main": [dict(fs[0], fmt="yaml"), dict(fs[1], fmt="json")],
              "d": [dict(fs[2], name="b.yaml", fmt="yaml"), dict(fs[3], name="a.json", fmt="json")],
              "d2": [], "d2dir": "$W/alt", "dd": "$W/home/var"}
        loads.append(ev)
        if len(loads) == 20 or i == len(cases) - 1:
            scns.append({"name": "case-%d" % i, "loads": loads, "once": True})
            loads = []
    return scns


def check(res, tier, seed):
    n = 600 if tier == "quick" else 12000
    gen = model_cases()
    scns = gen + [scenario("%d.%d" % (seed, i)) for i in range(n)]
    st = tr = nt = acc = rej = 0
    for a in range(0, len(scns), 2000):
        part = scns[a:a + 2000]
        traces, bad, stats = explore(part)
        st += stats["states"]
        tr += stats["transitions"]
        nt += len(traces)
        acc += stats["hits"].get("accepted", 0)
        rej += stats["hits"].get("rejected", 0)
        for k, l, c, ps in bad:
            res.violation(c, "scenario %s, load %d: %s" % (part[k]["name"], l, json.dumps(traces[k][l])[:600]),
                          {"kind": "config", "property": "C15", "clause": c, "event": l, "scenario": part[k], "trace": traces[k]})
        if res.violations:
            break
    res.coverage = {"states": st, "transitions": tr, "traces_validated_against_impl": nt, "loads_accepted": acc, "loads_rejected": rej,
                    "enumerated_by_the_specification": sum(len(x["loads"]) for x in gen), "samples": [scns[0]["loads"][0], scns[-1]["loads"][0]]}
    res.assumptions = ["documents are JSON values with the listed schedules, commands and time zones; YAML and JSON parsing is the libraries' business"]


def replay(p):
    traces, bad, _ = explore([p["scenario"]])
    for e in traces[0]:
        print(json.dumps(e)[:3000])
    for k, l, c, ps in bad:
        print("violated at load %d: %s" % (l, c))
    return 1 if bad else 0


if __name__ == "__main__":
    if not sys.argv[1:]:
        scns = model_cases()
    else:
        scns = [scenario(i) for i in range(int(sys.argv[1]), int(sys.argv[2]))]
    traces, bad, stats = explore(scns)
    print(stats)
    for k, l, c, ps in bad[:20]:
        print(scns[k]["name"], k, l, c)
        fn = "/tmp/w/cfg-%d-%d.json" % (k, l)
        json.dump(traces[k][l], open(fn, "w"))
