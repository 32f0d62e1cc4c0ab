"""C20, C21: what dsari-info and dsari-prometheus-exporter show while the daemon writes, judged by Views.tla"""
import datetime as _dt
import gzip
import io
import json
import lzma
import os
import random
import re
import shlex
import shutil
import signal
import sqlite3
import sys
import time
import types
import zlib

import forkpool
import schedule_check
import simclock
import tlc
from store_check import NOTIME, TEXT, canon, gen_data, uid

REPO = os.environ.get("DSV_REPO", "/repo")
UTC = _dt.timezone.utc
real_dt = _dt.datetime
BACKENDS = ["sqlite3"] * 5 + ["postgresql", "mysql", "mongodb"]


# ------------------------------------------------------------------ scenarios

class Gen:
    """A history of the daemon's writes"""

    def __init__(self, r, jobs):
        self.r, self.jobs, self.now = r, jobs, 0
        self.running, self.done, self.ops, self.ids = [], [], [], []

    def start(self):
        r = self.r
        lat = r.choice([0, 0, 5, 999, r.randint(0, 100000)])
        run = {"id": uid(r), "job": r.choice(self.jobs), "sched": self.now - lat, "start": self.now, "ttype": r.choice(["schedule", "schedule", "file"]),
               "tdata": gen_data(r) if r.random() < 0.3 else {}, "rdata": gen_data(r) if r.random() < 0.1 else {}}
        self.running.append(run)
        self.ids.append(run["id"])
        return {"op": "start", "run": run}

    def finish(self):
        run = dict(self.running.pop(self.r.randrange(len(self.running))))
        run["stop"] = self.now
        run["code"] = self.r.choice([0, 0, 0, 1, 2, 127, 137, 255])
        self.done.append(run)
        return {"op": "finish", "run": run}

    def write(self, p_start=0.5):
        x = self.r.random()
        if x < 0.02 and self.running:
            self.running = []
            return {"op": "clear"}
        if x < p_start or not self.running:
            return self.start()
        return self.finish()

    def output(self):
        r = self.r
        if not self.running + self.done:
            return self.tick()
        run = r.choice(self.running + self.done)
        raw = r.choice([b"", b"hello\n", b"\xff\xfe\x00x", "ünïcode €\n".encode(), "\U0001f600\r\nline\n".encode(), b"\n\nlead", b"a" * 100, b"\xe2\x82", b"<b>\n"])
        return {"op": "output", "id": run["id"], "job": run["job"], "raw": raw.hex(), "form": r.choice(["", "", "none"] if run in self.running else ["", "", ".gz", ".xz", "none"])}

    def tick(self):
        r = self.r
        self.now += r.choice([0, 1, 1000, 1500, 59999, 60000, 60001, r.randint(0, 400000)])
        return {"op": "tick", "now": self.now}


def scenario(prop, seed):
    r = random.Random("%s/%s" % (prop, seed))
    base = schedule_check.scenario("C17", "views%s" % seed) if prop == "C20" else None
    names = r.choice([["a", "b-1", "Job c", "d.e"], ["a", "A", "a_1", "a-1"], ["a_1", "ab1", "a", "a_1 x"]])[:r.randint(1, 4)]
    scn = {"name": "%s-%s" % (prop, seed), "prop": prop, "backend": r.choice(BACKENDS), "local": base["local"] if base else r.choice(schedule_check.LOCAL),
           "base": base["times"][0] // 1000000 if base else 1700000000 + r.randint(0, 10 ** 7)}
    if prop == "C20":
        scn["jobs"] = {}
        sj = list(base["jobs"].values())
        for n in names:
            c = {"command": r.choice([["true"], ["echo", "a b", "it's"], ["sh", "-c", "x | y > z"], ["/bin/x", "", "ü", "\\"]])}
            if r.random() < 0.4:
                c["max_execution"] = r.choice([5, 0.5, 3600])
            if r.random() < 0.3:
                c["environment"] = {"K": r.choice(["v", "", "a=b"])}
            if r.random() < 0.3:
                c["concurrency_groups"] = r.choice([["g"], ["h", "g"]])
            for k in ("render_reports", "command_append_run", "jenkins_environment", "concurrent_runs"):
                if r.random() < 0.2:
                    c[k] = r.random() < 0.5
            if r.random() < 0.2:
                c["job_group"] = r.choice(["grp", "g 2"])
            sch = r.choice(sj) if r.random() < 0.7 and not any(s["s"]["kind"] == "cron" and "R" in s["text"] for s in sj) else None
            scn["jobs"][n] = {"conf": c, "sched": sch}
        # a schedule which is refused would refuse the whole configuration
        scn["fallback"] = True
    else:
        scn["jobs"] = {n: {"conf": {"command": ["true"]}, "sched": None} for n in names}
        scn["quantiles"] = r.choice([[10, 100, 500, 900, 990], [500], [0, 1000], [250, 750], [999, 333]])
        scn["cache"] = r.choice([120000, 120000, 0, 1000, 60000])
        scn["norunning"] = r.random() < 0.1
    g = Gen(r, names + ["gone"])
    steps = []
    for _ in range(r.choice([0, 2, 6, 14])):
        if r.random() < 0.4:
            steps.append(g.tick())
        steps.append(g.write())
        if r.random() < 0.4:
            steps.append(g.output())
    for _ in range(r.choice([2, 4, 7])):
        for _ in range(r.choice([0, 1, 2])):
            steps.append(g.tick() if r.random() < 0.5 else g.write())
            if r.random() < 0.3 and g.running + g.done:
                steps.append(g.output())
        if prop == "C21" and r.random() < 0.25:
            steps.append(gen_config(r, names))
        busy = r.random() < 0.6
        ids = list(g.ids)
        live = [x["id"] for x in g.running]
        c = gen_cmd(r, names, ids, live) if prop == "C20" else {"op": "scrape", "how": r.choice(["wsgi", "wsgi", "wsgi", "dump", "404"])}
        inter = []
        if busy:
            k = 0
            for _ in range(r.choice([1, 1, 2, 3, 4])):
                k += r.choice([0, 1, 1, 1, 2, 3])
                if r.random() < 0.1 and g.running + g.done:
                    inter.append([k, g.output()])
                elif prop == "C21" and r.random() < 0.1:
                    inter.append([k, gen_config(r, names)])
                else:
                    inter.append([k, g.write(0.4)])
                    if r.random() < 0.3:
                        c["run"] = inter[-1][1].get("run", {}).get("id", c.get("run"))
        c["inter"] = inter
        if prop == "C20" and c["cmd"] in ("runs", "jobs", "output") and r.random() < 0.25:
            c["tty"] = {"pager": r.choice(["cat", "cat -u", "/no/such/pager --x"]), "color": r.random() < 0.7}
        steps.append(c)
    scn["steps"] = steps
    return scn


IPY = ["IPython", "IPython.terminal", "IPython.terminal.embed"]


def gen_config(r, names):
    ok = r.random() < 0.75
    return {"op": "config", "valid": ok, "jobs": r.sample(names + ["new", "gone"], r.randint(1, len(names))) if ok else [], "how": r.choice(["json", "cmd"])}


def gen_cmd(r, names, ids, live):
    x = r.random()
    if x < 0.55:
        c = {"op": "cmd", "cmd": "runs", "format": r.choice(["json", "yaml", "tabular", "pretty"]), "names": None, "ids": None}
        if r.random() < 0.4:
            c["names"] = r.sample(names + ["gone", "nosuch"], r.choice([1, 1, 2]))
        if r.random() < 0.4 and ids:
            c["ids"] = r.sample(ids, min(len(ids), r.choice([1, 2, 4])))
        return c
    if x < 0.72:
        return {"op": "cmd", "cmd": "output", "run": r.choice(ids) if ids and r.random() < 0.85 else uid(r)}
    if x < 0.85:
        c = {"op": "cmd", "cmd": "tail", "ids": None, "loops": r.choice([0, 1, 2])}
        if r.random() < 0.4 and ids:
            c["ids"] = r.sample(live or ids, 1)
        return c
    if x < 0.88:
        return {"op": "cmd", "cmd": "shell", "ipython": r.random() < 0.4}
    c = {"op": "cmd", "cmd": "jobs", "format": r.choice(["json", "yaml", "tabular", "pretty"]), "names": None}
    if r.random() < 0.4:
        c["names"] = r.sample(names + ["nosuch"], r.choice([1, 2]) if len(names) > 1 else 1)
    return c


# ------------------------------------------------------------------ what is printed

def us(ms):
    return {"s": ms // 1000, "us": ms % 1000 * 1000}


def rec(run):
    return {"id": run["id"], "job": run["job"], "sched": us(run["sched"]), "start": us(run["start"]), "stop": us(run["stop"]) if "stop" in run else NOTIME,
            "code": run.get("code", 9999), "ttype": run["ttype"], "tdata": canon(run["tdata"]), "rdata": canon(run["rdata"])}


BAD = {"s": -3, "us": 0}


def pair(td):
    return {"s": td.days * 86400 + td.seconds, "us": td.microseconds}


def parse_time(s, base):
    try:
        d = real_dt.fromisoformat(s)
    except (ValueError, TypeError):
        return BAD
    if d.tzinfo is None:
        return {"s": -2, "us": 0}
    return pair(d - real_dt.fromtimestamp(base, UTC))


def parse_td(s):
    m = re.fullmatch(r"(?:(-?\d+) days?, )?(\d+):(\d\d):(\d\d)(?:\.(\d{6}))?", s)
    if not m:
        raise ValueError(s)
    return _dt.timedelta(days=int(m.group(1) or 0), hours=int(m.group(2)), minutes=int(m.group(3)), seconds=int(m.group(4)), microseconds=int(m.group(5) or 0))


def table(text):
    """Rows of a table printed for people: {header: value}"""
    lines = text.split("\n")
    if lines[-1] == "":
        lines.pop()
    cols = []
    pos = 0
    for d in re.split(r"(   )", lines[1]):
        if d == "   ":
            pos += 3
            continue
        assert set(d) <= {"-", "\u2500"} and d, repr(lines[1])
        cols.append((pos, pos + len(d)))
        pos += len(d)
    heads = [lines[0][a:b].strip() for a, b in cols]
    rows = []
    for ln in lines[2:]:
        v = [ln[a:b] for a, b in cols[:-1]] + [ln[cols[-1][0]:]]
        for i, (a, b) in enumerate(cols[:-1]):
            assert ln[b:b + 3].strip() == "", repr(ln)
        rows.append({h: x.rstrip() for h, x in zip(heads, v)})
    return rows


def parse_runs(text, fmt, base, now):
    rows = []
    if fmt in ("json", "yaml"):
        import yaml
        d = json.loads(text, object_pairs_hook=lambda p: p if len({k for k, _ in p}) == len(p) else 1 / 0) if fmt == "json" else yaml.safe_load(text)
        if fmt == "json":
            d = json.loads(text)
        for i, x in (d or {}).items():
            rows.append({"id": i, "job": x["job_name"], "sched": parse_time(x["schedule_time"], base), "start": parse_time(x["start_time"], base),
                         "stop": NOTIME if x["stop_time"] is None else parse_time(x["stop_time"], base), "code": 9999 if x["exit_code"] is None else x["exit_code"],
                         "ttype": x["trigger_type"], "tdata": canon(x["trigger_data"]), "rdata": canon(x["run_data"])})
    elif fmt == "tabular":
        for ln in text.split("\n")[:-1]:
            i, job, code, ttype, a, b, c = ln.split("\t")
            rows.append({"id": i, "job": job, "sched": parse_time(a, base), "start": parse_time(b, base), "stop": parse_time(c, base) if c else NOTIME,
                         "code": int(code) if code else 9999, "ttype": ttype, "tdata": "", "rdata": ""})
    else:
        zero = real_dt.fromtimestamp(base, UTC)
        for x in table(text):
            start = real_dt.fromisoformat(x["Start Time"])
            stop = start + parse_td(x["Duration"])
            if x["Exit"] == "...":
                # still running: the time since its start
                stop, code = (NOTIME if stop == now else BAD), 9999
            else:
                stop, code = pair(stop - zero), int(x["Exit"])
            rows.append({"id": x["Run ID"], "job": x["Job"], "sched": pair(start - parse_td(x["Schedule Delay"]) - zero), "start": pair(start - zero), "stop": stop,
                         "code": code, "ttype": x["Type"], "tdata": "", "rdata": ""})
    return rows


def nums(x):
    """numbers of one kind"""
    if isinstance(x, dict):
        return {k: nums(v) for k, v in x.items()}
    if isinstance(x, list):
        return [nums(v) for v in x]
    if isinstance(x, float) and x == int(x):
        return int(x)
    return x


def next_run(s):
    if not s:
        return {"k": "none", "s": 0, "us": 0}
    t = parse_time(s, 0)
    return {"k": "time", "s": t["s"], "us": t["us"]}


def parse_jobs(text, fmt):
    rows = []
    if fmt in ("json", "yaml"):
        import yaml
        d = json.loads(text) if fmt == "json" else yaml.safe_load(text)
        for n, x in (d or {}).items():
            x = dict(x)
            rows.append({"name": n, "next": next_run(x.pop("next_scheduled_run")), "settings": canon(nums(x))})
    elif fmt == "tabular":
        for ln in text.split("\n")[:-1]:
            n, sch, cmd, nxt = ln.split("\t")
            rows.append({"name": n, "next": next_run(nxt), "settings": canon([sch, shlex.split(cmd)])})
    else:
        for x in table(text):
            rows.append({"name": x["Job Name"], "next": next_run(x["Next Scheduled Run"]), "settings": canon([x["Schedule"], shlex.split(x["Command"])])})
    return rows


def settings(n, j):
    """as each format shows them"""
    c = j["conf"]
    sch = j["sched"]["text"] if j["sched"] else None
    full = {"command": c["command"], "command_append_run": c.get("command_append_run", False), "schedule": sch, "environment": c.get("environment", {}),
            "max_execution": c.get("max_execution"), "max_execution_grace": 60, "concurrency_groups": sorted(c.get("concurrency_groups", [])),
            "render_reports": c.get("render_reports", True), "jenkins_environment": c.get("jenkins_environment", False), "job_group": c.get("job_group"),
            "concurrent_runs": c.get("concurrent_runs", False)}
    short = canon([sch or "", c["command"]])
    return {"json": canon(nums(full)), "yaml": canon(nums(full)), "tabular": short, "pretty": canon([(sch or "").rstrip(), c["command"]])}


METRIC = re.compile(r'^([a-z_]+)(?:\{(.*)\})? (\S+)$')


def parse_metrics(text, base, quantiles):
    bad = not text.endswith("\n")
    vals = {}
    types = {}
    help_ = set()
    for ln in text.split("\n")[:-1]:
        if ln.startswith("# HELP "):
            n = ln.split(" ")[2]
            bad |= n in help_ or len(ln.split(" ")) < 4
            help_.add(n)
        elif ln.startswith("# TYPE "):
            _, _, n, t = ln.split(" ")
            bad |= n in types
            types[n] = t
        else:
            m = METRIC.match(ln)
            if not m:
                bad = True
                continue
            labels = tuple(sorted(re.findall(r'([a-z_]+)="((?:[^"\\]|\\.)*)"', m.group(2) or "")))
            key = (m.group(1), labels)
            bad |= key in vals
            vals[key] = m.group(3)
    want = {"dsari_run_count": "counter", "dsari_run_success_count": "counter", "dsari_run_failure_count": "counter", "dsari_run_duration_seconds": "summary",
            "dsari_run_latency_seconds": "summary"}
    for n, _ in vals:
        if n not in want and not re.match(r"dsari_run_(duration|latency)_seconds_(sum|count)$", n):
            bad |= types.get(n) != "gauge"
        elif n in want:
            bad |= types.get(n) != want[n]

    def get(n, **lab):
        return vals.pop((n, tuple(sorted(lab.items()))), None)

    def num(v):
        return float(v)

    def ms(v):
        return int(round(num(v) * 1000))

    def epoch(v):
        from decimal import Decimal
        u = int(round((Decimal(v) - base) * 1000000))
        return {"s": u // 1000000, "us": u % 1000000}
    jobs = {}
    for n in sorted({dict(lb)["job_name"] for nm, lb in vals if "job_name" in dict(lb) and not nm.startswith("dsari_running")}):
        def cnt(k):
            v = get(k, job_name=n)
            return -1 if v is None else int(num(v))
        m = {"count": cnt("dsari_run_count"), "good": cnt("dsari_run_success_count"), "bad": cnt("dsari_run_failure_count"), "last": []}
        lr = {"code": get("dsari_last_run_exit_code", job_name=n)}
        for k in ("schedule", "start", "stop"):
            lr[k] = get("dsari_last_run_%s_time" % k, job_name=n)
        if any(v is not None for v in lr.values()):
            m["last"] = [{"code": -1 if lr["code"] is None else int(num(lr["code"])), "sched": BAD if lr["schedule"] is None else epoch(lr["schedule"]),
                          "start": BAD if lr["start"] is None else epoch(lr["start"]), "stop": BAD if lr["stop"] is None else epoch(lr["stop"])}]
        for k in ("duration", "latency"):
            s = get("dsari_run_%s_seconds_sum" % k, job_name=n)
            q = []
            for p in quantiles:
                v = None
                for (nm, lb) in list(vals):
                    d = dict(lb)
                    if nm == "dsari_run_%s_seconds" % k and d.get("job_name") == n and abs(float(d["quantile"]) * 1000 - p) < 1e-6:
                        v = vals.pop((nm, lb))
                        break
                if v is not None:
                    q.append(int(round(num(v) * 1000000)))
            m[k] = {"n": cnt("dsari_run_%s_seconds_count" % k), "sum": 0 if s is None else ms(s), "q": q}
        jobs[n] = m
    running = []
    for (nm, lb) in [k for k in vals if k[0] == "dsari_running_run_start_time"]:
        d = dict(lb)
        b = vals.pop((nm, lb))
        a = get("dsari_running_run_schedule_time", **d)
        running.append({"id": d["run_id"], "job": d["job_name"], "sched": BAD if a is None else epoch(a), "start": epoch(b)})
    t = get("dsari_time")
    now = -1 if t is None else int(round((float(t) - base) * 1000))
    bad |= get("dsari_exporter_collect_seconds") is None
    bad |= not any(k[0] == "dsari_version_info" and v == "1" for k, v in vals.items())
    vals = {k: v for k, v in vals.items() if k[0] != "dsari_version_info"}
    return {"malformed": bool(bad or vals), "metrics": jobs, "running": running, "time": now}


# ------------------------------------------------------------------ running it

class Exec(BaseException):
    pass


class Stuck(BaseException):
    pass


SGR = re.compile(r"\x1b\[[0-9;]*m")


class Terminal(io.TextIOWrapper):
    def isatty(self):
        return True


def run_scenario(scn):
    import fakedb
    os.environ["TZ"] = scn["local"]
    time.tzset()
    fakedb.install()
    sqlite3.connect = fakedb.sqlite_connect(sqlite3.connect, timeout=0.02)
    nul = os.open(os.devnull, os.O_RDWR)
    if not os.environ.get("DSV_TB"):
        os.dup2(nul, 2)
    w = tlc.scratch("dsv-views-")
    try:
        os.environ["DSARI_HOME"] = w
        base = scn["base"]
        zero = real_dt.fromtimestamp(base, UTC)
        database = {"sqlite3": {}, "postgresql": {"type": "postgresql", "dsn": "dbname=dsari"}, "mysql": {"type": "mysql", "connection": {"db": "dsari"}},
                    "mongodb": {"type": "mongodb", "uri": "mongodb://localhost/"}}[scn["backend"]]
        data = os.path.join(w, "var")

        def conf(jobs):
            c = {"jobs": jobs, "data_dir": data}
            if database:
                c["database"] = database
            with open(os.path.join(w, "new"), "w") as f:
                json.dump(c, f)
            os.rename(os.path.join(w, "new"), os.path.join(w, "dsari.json"))

        def job_conf(j):
            c = dict(j["conf"])
            if j["sched"]:
                c["schedule"] = j["sched"]["text"]
                if j["sched"]["tz"]:
                    c["schedule_timezone"] = j["sched"]["tz"]
            return c
        import dsari
        import dsari.config
        import dsari.database
        sj = {n: dict(j) for n, j in scn["jobs"].items()}
        # schedules which are refused, or have no next run, make a configuration invalid
        for n, j in sj.items():
            if j["sched"]:
                conf({n: job_conf(j)})
                simclock.Clock.us = base * 1000000
                try:
                    dsari.config.get_config(w)
                except Exception:
                    j["sched"] = None
        conf({n: job_conf(j) for n, j in sj.items()})
        os.environ["WSGI_ARGS"] = "[]"

        def inst(ms):
            return (zero + _dt.timedelta(milliseconds=ms)).astimezone()

        writer = dsari.database.get_database(dsari.config.get_config(w))

        def obj(run):
            o = dsari.Run(dsari.Job(run["job"]), id=run["id"])
            o.schedule_time, o.start_time = inst(run["sched"]), inst(run["start"])
            o.trigger_type, o.trigger_data, o.run_data = run["ttype"], run["tdata"], run["rdata"]
            if "stop" in run:
                o.stop_time, o.exit_code = inst(run["stop"]), run["code"]
            return o

        def seen(x):
            return {"id": str(x.id), "job": x.job.name, "sched": pair(x.schedule_time - zero), "start": pair(x.start_time - zero),
                    "stop": pair(x.stop_time - zero) if x.stop_time else NOTIME, "code": 9999 if x.exit_code is None else x.exit_code, "ttype": x.trigger_type,
                    "tdata": canon(x.trigger_data), "rdata": canon(x.run_data)}

        def dump():
            return {"runs": [seen(x) for x in writer.get_runs()], "running": [seen(x) for x in writer.get_runs(runs_running=True)]}
        zones, jobs = {}, {}
        for n, j in sj.items():
            crc = zlib.crc32(n.encode())
            z = (j["sched"] and j["sched"]["tz"]) or scn["local"]
            if j["sched"]:
                zones[z] = schedule_check.zone_table(z)
            jobs[n] = dict(settings(n, j), crc=[crc >> 16, crc & 0xFFFF], sub=int(round(crc / 0xFFFFFFFF * 1000000)), s=j["sched"]["s"] if j["sched"] else {"kind": "none"},
                           z=z, scheduled=bool(j["sched"]))
        tr = [{"e": "header", "name": scn["name"], "prop": scn["prop"], "jobs": jobs, "now": 0, "quantiles": scn.get("quantiles", []), "cache": scn.get("cache", 0),
               "norunning": scn.get("norunning", False)}]
        now = [0]
        simclock.Clock.us = base * 1000000
        late = []
        fresh = [False]

        def write_output(o):
            d = os.path.join(data, "runs", o["job"], o["id"])
            os.makedirs(d, exist_ok=True)
            for f in ("", ".gz", ".xz"):
                if os.path.exists(os.path.join(d, "output.txt" + f)):
                    os.unlink(os.path.join(d, "output.txt" + f))
            raw = bytes.fromhex(o["raw"])
            if o["form"] != "none":
                with open(os.path.join(d, "output.txt" + o["form"]), "wb") as f:
                    f.write({"": lambda x: x, ".gz": gzip.compress, ".xz": lzma.compress}[o["form"]](raw))
            return {"e": "output", "id": o["id"], "have": o["form"] != "none", "text": [ord(c) for c in raw.decode("utf-8", "replace")] if o["form"] != "none" else []}

        def op(o, inside):
            """Do an operation of the outside; False if the database does not let the daemon in"""
            hook, fakedb.steps.hook = fakedb.steps.hook, None
            try:
                if o["op"] == "tick":
                    now[0] = o["now"]
                    simclock.Clock.us = base * 1000000 + o["now"] * 1000
                    tr.append({"e": "tick", "now": o["now"]})
                elif o["op"] == "output":
                    tr.append(write_output(o))
                elif o["op"] == "config" and fresh[0]:
                    return True   # which one of two takes effect depends on the time of loading them
                elif o["op"] == "config":
                    fresh[0] = True
                    if o["valid"]:
                        conf({n: {"command": ["true"]} for n in o["jobs"]})
                    else:
                        if o["how"] == "json":
                            with open(os.path.join(w, "dsari.json"), "w") as f:
                                f.write('{"jobs": {')
                        else:
                            conf({"a": {"command": ["true"], "max_execution": "x"}})
                    os.kill(os.getpid(), signal.SIGHUP)
                    ev = {"e": "config", "valid": o["valid"], "jobs": {n: 0 for n in o["jobs"]}}
                    # takes effect at the next scrape
                    (late if inside else tr).append(ev)
                else:
                    try:
                        if o["op"] == "start":
                            writer.insert_running_run(obj(o["run"]))
                        elif o["op"] == "finish":
                            writer.insert_run(obj(o["run"]))
                        else:
                            writer.clear_runs_running()
                    except sqlite3.OperationalError:
                        writer.db_conn.rollback()
                        return False
                    except Exception:
                        # what cannot be stored is a matter of the store (C22): nothing to be seen here
                        if hasattr(writer, "db_conn"):
                            writer.db_conn.rollback()
                        return True
                    ev = {"e": o["op"]}
                    if "run" in o:
                        ev["run"] = rec(o["run"])
                    tr.append(ev)
                return True
            finally:
                fakedb.steps.hook = hook

        def during(inter, fn):
            """Run fn; the operations of inter take place before its steps of that number"""
            todo = [list(x) for x in inter]
            count = [0]

            def hook():
                count[0] += 1
                while todo and todo[0][0] < count[0]:
                    if not op(todo[0][1], True):
                        break
                    todo.pop(0)
            fakedb.steps.hook = hook
            try:
                return fn(), todo
            finally:
                fakedb.steps.hook = None

        def capture(fn, tty=None):
            old = sys.stdout, sys.stderr
            keep = {k: os.environ.get(k) for k in ("PAGER", "FORCE_COLOR", "COLUMNS", "LESS")}
            sys.stdout, sys.stderr = io.StringIO(), io.StringIO()
            if tty:
                # a terminal: the output goes through a pager into a file
                sys.stdout = Terminal(open(os.path.join(w, "tty"), "wb+", buffering=0), encoding="utf-8", newline="", write_through=True)
                os.environ.update(PAGER=tty["pager"], COLUMNS="1000")
                if tty["color"]:
                    os.environ["FORCE_COLOR"] = "1"
            try:
                try:
                    rc = fn() or 0
                except SystemExit as e:
                    rc = e.code if isinstance(e.code, int) else 0 if e.code is None else 1
                except Exception:
                    if os.environ.get("DSV_TB"):
                        import traceback
                        traceback.print_exc(file=old[1])
                    rc = 1
                if not tty:
                    return rc, sys.stdout.getvalue()
                sys.stdout.flush()
                with open(os.path.join(w, "tty"), "rb") as f:
                    return rc, f.read().decode("utf-8")
            finally:
                if tty:
                    sys.stdout.close()
                    for k, v in keep.items():
                        os.environ.pop(k, None)
                        if v is not None:
                            os.environ[k] = v
                sys.stdout, sys.stderr = old

        def info(argv, tty=None):
            import dsari.info
            sys.argv = ["dsari-info", "-c", w] + argv
            rc, text = capture(dsari.info.main, tty)
            return rc, SGR.sub("", text) if tty and "output" not in argv else text

        def shell(ipython):
            """an interactive session of one line"""
            line = ("import json; print('@@' + json.dumps({'jobs': sorted(jobs), 'config': sorted(config.jobs), "
                    "'runs': sorted(r.id for r in db.get_runs()), 'version': dsari.__version__ != ''}))\n")
            old = sys.stdin, {n: sys.modules.get(n) for n in IPY}

            class Embed:
                def __init__(self, user_ns=None, **k):
                    self.ns = user_ns

                def __call__(self):
                    exec(line, self.ns)
            sys.stdin = io.StringIO(line)
            for n in IPY:
                sys.modules[n] = None
                if ipython:
                    sys.modules[n] = types.ModuleType(n)
            if ipython:
                sys.modules[IPY[-1]].InteractiveShellEmbed = Embed
            try:
                return info(["shell"])
            finally:
                sys.stdin = old[0]
                for n in IPY:
                    sys.modules.pop(n)
                    if old[1][n] is not None:
                        sys.modules[n] = old[1][n]

        def filt(v):
            return {"given": v is not None, "v": v or []}

        exporter = [None]

        def get_exporter():
            if exporter[0] is None:
                argv = ["-c", w, "--quantiles", ",".join("%g" % (q / 1000) for q in scn["quantiles"])]
                if scn["cache"] != 120000:
                    argv += ["--job-cache-time", "%g" % (scn["cache"] / 1000)]
                if scn["norunning"]:
                    argv.append("--no-running")
                os.environ["WSGI_ARGS"] = json.dumps(argv)
                import dsari.prometheus_exporter as pe
                exporter[0] = (pe, argv)
            return exporter[0]
        if scn["prop"] == "C21":
            get_exporter()

        def scrape(how):
            pe, argv = get_exporter()
            if how == "dump":
                sys.argv = ["dsari-prometheus-exporter"] + argv + ["--dump"]
                rc, text = capture(pe.main)
                return (200 if rc == 0 else 500), text
            got = []
            try:
                body = b"".join(pe.wsgi_application({"PATH_INFO": "/metrics" if how == "wsgi" else "/x", "REQUEST_METHOD": "GET", "QUERY_STRING": ""},
                                                    lambda st, hd, exc_info=None: got.append((st, dict(hd)))))
                rc = int(got[0][0].split()[0])
                if int(got[0][1]["Content-Length"]) != len(body) or not got[0][1]["Content-Type"].startswith("text/plain"):
                    rc = 502
                return rc, body.decode()
            except Exception:
                if os.environ.get("DSV_TB"):
                    import traceback
                    traceback.print_exc()
                return 500, ""
        real_sleep, real_execvp = time.sleep, os.execvp
        for o in scn["steps"]:
            todo = []
            if o["op"] == "scrape":
                if o["how"] == "dump" and not all(e.get("valid", True) for e in tr if e["e"] == "config"):
                    # a new process does not start with an invalid configuration
                    o = dict(o, how="wsgi")
                tr.append({"e": "begin"})
                if o["how"] == "wsgi":
                    fresh[0] = False
                (rc, text), todo = during(o["inter"], lambda: scrape(o["how"]))
                if o["how"] == "404":
                    tr.append({"e": "http", "rc": rc})
                else:
                    ev = {"e": "scrape", "rc": rc}
                    try:
                        ev.update(parse_metrics(text, base, scn["quantiles"]))
                    except Exception:
                        ev.update({"malformed": True, "metrics": {}, "running": [], "time": -1})
                    ev["db"] = dump()
                    tr.append(ev)
            elif o["op"] == "cmd":
                tr.append({"e": "begin"})
                ev = {"e": "end", "cmd": o["cmd"]}
                if o["cmd"] == "runs":
                    argv = ["run", "list"] + ([] if o["format"] == "pretty" and len(o["inter"]) % 2 else ["--format", o["format"]])
                    argv += [x for n in o["names"] or [] for x in ("--job", n)] + [x for n in o["ids"] or [] for x in ("--run", n)]
                    (rc, text), todo = during(o["inter"], lambda: info(argv, o.get("tty")))
                    ev.update({"format": o["format"], "names": filt(o["names"]), "ids": filt(o["ids"]), "rows": []})
                    try:
                        if rc == 0:
                            ev["rows"] = parse_runs(text, o["format"], base, zero + _dt.timedelta(milliseconds=now[0]))
                    except Exception:
                        if os.environ.get("DSV_TB"):
                            raise
                        rc = 3
                elif o["cmd"] == "output":
                    (rc, text), todo = during(o["inter"], lambda: info(["run", "output", o["run"]], o.get("tty")))
                    ev.update({"id": o["run"], "text": [ord(c) for c in text]})
                elif o["cmd"] == "tail":
                    left = [o["loops"]]
                    files = []
                    rest = [x[1] for x in o["inter"]]

                    def sleep(x):
                        # judge what has been read, then the world goes on
                        tr.append({"e": "mark", "ids": filt(o["ids"])})
                        if left[0] <= 0:
                            raise Stuck()
                        left[0] -= 1
                        while rest and op(rest[0], True):
                            rest.pop(0)
                            if left[0] > 0:
                                break
                        tr.append({"e": "begin"})

                    def execvp(f, argv):
                        files.extend(argv[argv.index("-f") + 1:] if f == "tail" and "-f" in argv else [f])
                        raise Exec()
                    time.sleep, os.execvp = sleep, execvp

                    def tail():
                        try:
                            return info(["run", "tail"] + (o["ids"] or []))
                        except Exec:
                            return 0, "exec"
                        except Stuck:
                            return -1, ""
                    try:
                        (rc, text), _ = during([], tail)
                    finally:
                        time.sleep, os.execvp = real_sleep, real_execvp
                    todo = [[0, x] for x in rest]
                    if rc == -1:
                        ev = None   # nothing to tail until the end
                    else:
                        ids = []
                        for fn in files:
                            m = re.fullmatch(re.escape(data) + r"/runs/([^/]+)/([^/]+)/output\.txt", fn)
                            ids.append(m.group(2) if m and os.path.isfile(fn) else "?" + fn)
                        ev.update({"ids": filt(o["ids"]), "files": ids})
                elif o["cmd"] == "jobs":
                    argv = ["job", "list", "--format", o["format"]] + [x for n in o["names"] or [] for x in ("--job", n)]
                    (rc, text), todo = during(o["inter"], lambda: info(argv, o.get("tty")))
                    ev.update({"format": o["format"], "names": filt(o["names"]), "rows": [], "zones": zones, "now": us(base * 1000 + now[0])})
                    try:
                        if rc == 0:
                            ev["rows"] = parse_jobs(text, o["format"])
                    except Exception:
                        if os.environ.get("DSV_TB"):
                            raise
                        rc = 3
                elif o["cmd"] == "shell":
                    (rc, text), todo = during(o["inter"], lambda: shell(o["ipython"]))
                    ev.update({"seen": [json.loads(l.split("@@", 1)[1]) for l in text.splitlines() if "@@" in l]})
                if ev is not None:
                    ev["rc"] = rc
                    ev["db"] = dump()
                    tr.append(ev)
            else:
                todo = [[0, o]]
            tr.extend(late)
            late.clear()
            for _, x in todo:
                if not op(x, False):
                    tr.append({"e": "blocked"})
                    return tr
        return tr
    finally:
        shutil.rmtree(w, ignore_errors=True)


def preload():
    sys.path.insert(0, REPO)
    os.environ["DSARI_HOME"] = "/dev/null/dsari"
    simclock.install()
    try:
        import dsari.info  # noqa: F401
    except Exception:
        pass


def explore(scns):
    traces = forkpool.map(run_scenario, scns, preload)
    bad, stats = tlc.check_traces("ViewsTrace", traces)
    return traces, bad, stats


def check(prop):
    def run(res, tier, seed):
        n, rounds = (800 if prop == "C20" else 700, 1) if tier == "quick" else (3000, 6)
        m = tlc.model_check("MCStore", "MCStore.cfg" if tier == "quick" else "MCStoreDeep.cfg")
        st = tr = nt = 0
        hits, samples = {}, []
        for k in range(rounds):
            scns = [scenario(prop, "%d.%d.%d" % (seed, k, i)) for i in range(n)]
            traces, bad, stats = explore(scns)
            st += stats["states"]
            tr += stats["transitions"]
            nt += len(traces)
            for h, c in stats["hits"].items():
                hits[h] = hits.get(h, 0) + c
            samples = samples or [{"scenario": t[0]["name"], "events": [e["e"] for e in t[1:]], "last": t[-1]} for t in traces[:2]]
            for k2, l, c, ps in bad:
                res.violation(c, "scenario %s (%s), event %d: %s" % (scns[k2]["name"], scns[k2]["backend"], l, json.dumps(traces[k2][l])[:300]),
                              {"kind": "views", "property": prop, "clause": c, "event": l, "scenario": scns[k2]})
            if res.violations:
                break
        res.coverage = {"states": st + m["states"], "transitions": tr + m["transitions"], "specification_model": m, "traces_validated_against_impl": nt, "kinds": hits, "samples": samples}
        res.assumptions = ["the daemon's commits take place between the statements of the reader, not within one"]
    return run


def replay(p):
    traces, bad, _ = explore([p["scenario"]])
    for k, l, c, ps in bad:
        print("violated: event %d %s %s" % (l, c, json.dumps(traces[k][l])[:1000]))
    return 1 if bad else 0


if __name__ == "__main__":
    scns = [scenario(sys.argv[1], i) for i in range(int(sys.argv[2]), int(sys.argv[3]))]
    t0 = time.time()
    traces = forkpool.map(run_scenario, scns, preload)
    t1 = time.time()
    bad, stats = tlc.check_traces("ViewsTrace", traces)
    print(stats, "%.1f s driver, %.1f s TLC" % (t1 - t0, time.time() - t1))
    for k, l, c, ps in bad[:20]:
        print(scns[k]["name"], scns[k]["backend"], l, c, json.dumps(traces[k][l])[:700])
