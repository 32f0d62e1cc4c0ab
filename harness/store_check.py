"""C22: the run store on each back end, judged by Store.tla"""
import datetime as _dt
import hashlib
import json
import os
import random
import shutil
import sqlite3
import sys
import time

import forkpool
import tlc

REPO = os.environ.get("DSV_REPO", "/repo")
UTC = _dt.timezone.utc
BASE = 1700000000
NOTIME = {"s": -1, "us": 0}
BACKENDS = ["sqlite3", "postgresql", "mysql", "mongodb"]
ZONES = ["UTC", "America/New_York", "Europe/Berlin", "Australia/Lord_Howe", "Asia/Kolkata"]
# changes of DST in those zones (UTC seconds after BASE), around which times are taken
SPECIAL = [1710054000 - BASE, 1730613600 - BASE, 1711846800 - BASE, 1729990800 - BASE, 1712415600 - BASE, 1728142200 - BASE]
TEXT = ["", "x", "it's", 'say "hi"', "a\nb", "%s %d %%", "{} {0}", "?", "ümlaut €", "日本", "\U0001f600", "; drop table runs; --", "\\", "\t", "null", "</pre>"]


# data which JSON or YAML files can hold, but not every database
ODD = [float("nan"), float("inf"), {"x": float("-inf")}, 2 ** 63, -2 ** 63, 2 ** 64 + 1, 10 ** 30, "\ud800", {"\udfff": 1}, {"$int": 1},
       {"a": {"$int": "x"}}, {"$long": 70000}, {"$long": 17000}, {"$deep": 150}, {"a.b": 1, "$set": {"": 0}}, {"k\0": "v\0"}]


def real(x):
    """the odd values as they are, as which they cannot be written into a replay file"""
    if isinstance(x, list):
        return [real(y) for y in x]
    if not isinstance(x, dict):
        return x
    if "$int" in x:
        return {1: x["$int"]}
    if "$long" in x:
        return "x" * x["$long"]
    if "$deep" in x:
        v = 0
        for _ in range(x["$deep"]):
            v = [v]
        return v
    return {k: real(y) for k, y in x.items()}


def gen_data(r, depth=0):
    d = {}
    if depth == 0 and r.random() < 0.08:
        d["odd"] = r.choice(ODD)
    for _ in range(r.choice([0, 0, 1, 2, 3])):
        k = r.choice(["schedule_time", "description", "type", "environment", "a b", "x'y", "%s", "{}", "ä", "valid", "0"])
        x = r.random()
        d[k] = (r.choice(TEXT) if x < 0.4 else r.choice([0, 1, -5, 2 ** 31, 1.5, 0.1, 1e300, True, False, None]) if x < 0.7
                else [r.choice(TEXT), r.randint(0, 9)] if x < 0.8 or depth > 1 else gen_data(r, depth + 1))
    return d


def gen_time(r, special):
    s = r.choice(SPECIAL) + r.randint(-7200, 7200) if special and r.random() < 0.7 else r.randint(0, 100000000)
    return s * 1000000 + r.choice([0, 1, 999999, 500000, r.randint(0, 999999), r.randint(0, 999) * 1000])


def uid(r):
    h = "%032x" % r.getrandbits(128)
    return "-".join([h[:8], h[8:12], "4" + h[13:16], "a" + h[17:20], h[20:]])


def scenario(seed):
    r = random.Random("C22/%s" % seed)
    backend = BACKENDS[seed % 4] if isinstance(seed, int) else BACKENDS[int(str(seed).rsplit(".", 1)[1]) % 4]
    jobs = r.choice([["a", "Job b", "c.d-e:f+g_0"], ["a_b", "axb", "a_b "], ["a", "A", "a.b"]])
    special = r.random() < 0.4
    ops, running, done, ids = [], [], [], []
    for _ in range(r.choice([6, 12, 25, 25, 60])):
        x = r.random()
        if x < 0.35:
            t = gen_time(r, special)
            run = {"id": uid(r), "job": r.choice(jobs + ["gone"]), "sched": t, "start": t + r.choice([0, 1, 1500, 250000, 3000000, 3700000000]),
                   "ttype": r.choice(["schedule", "file"]), "tdata": gen_data(r), "rdata": gen_data(r)}
            running.append(run)
            ids.append(run["id"])
            ops.append({"op": "start", "run": run})
        elif x < 0.55 and running:
            run = dict(running.pop(r.randrange(len(running))))
            same = [d["stop"] for d in done if d["stop"] >= run["start"]]
            run["stop"] = r.choice(same) if same and r.random() < 0.1 else run["start"] + r.choice([0, 1, 999, 1001, 60000000, 7200000000, r.randint(0, 10 ** 10)])
            run["code"] = r.choice([0, 0, 0, 1, 2, 127, 128, 143, 255])
            if r.random() < 0.5:
                run["rdata"] = dict(run["rdata"], **gen_data(r))
            done.append(run)
            ops.append({"op": "finish", "run": run})
        elif x < 0.58:
            ops.append({"op": "clear"})
            running = []
        elif x < 0.65:
            ops.append({"op": "reopen"})
        elif x < 0.75:
            ops.append({"op": "previous", "job": r.choice(jobs + ["gone", "new"]), "conn": r.choice([0, 1])})
        else:
            o = {"op": "list", "running": r.random() < 0.4, "conn": r.choice([0, 1, 1]), "names": None, "ids": None}
            y = r.random()
            if y < 0.35:
                o["names"] = r.sample(jobs + ["gone", "new", "A"], r.choice([0, 1, 1, 2, 3]))
            elif y < 0.75:
                o["ids"] = r.sample(ids, min(len(ids), r.choice([0, 1, 1, 2, 5, 60]))) + ([uid(r)] if r.random() < 0.3 else [])
                if r.random() < 0.2:
                    o["names"] = r.sample(jobs, 1)
            ops.append(o)
        if ops and ops[-1]["op"] in ("start", "finish", "clear") and r.random() < 0.25:
            # the process dies while doing it
            ops[-1]["die"] = r.choice([1, 2, 3, 4])
            if ops[-1]["op"] == "finish":
                pass
        ops_after = ops[-1].get("die")
        if ops_after and ops[-1]["op"] == "start":
            # whether it has been recorded is known only later
            running.pop()
        if ops_after and ops[-1]["op"] == "clear":
            pass
    ops += [{"op": "list", "running": x, "conn": c, "names": None, "ids": None} for x in (False, True) for c in (0, 1)]
    return {"name": "C22-%s" % seed, "backend": backend, "jobs": jobs, "ops": ops, "tz": r.choice(ZONES), "argzone": r.choice([None, "local", "utc", "named"])}


# ------------------------------------------------------------------ running it

def us(t):
    """{s, us} of microseconds"""
    return {"s": t // 1000000, "us": t % 1000000}


def canon(d):
    s = json.dumps(d, sort_keys=True)
    return s if len(s) < 3000 else "%d %s" % (len(s), hashlib.sha256(s.encode()).hexdigest())


def rec(run):
    return {"id": run["id"], "job": run["job"], "sched": us(run["sched"]), "start": us(run["start"]), "stop": us(run["stop"]) if "stop" in run else NOTIME,
            "code": run.get("code", 9999), "ttype": run["ttype"], "tdata": canon(real(run["tdata"])), "rdata": canon(real(run["rdata"]))}


def back(t):
    if t is None:
        return NOTIME
    if t.tzinfo is None:
        return {"s": -2, "us": 0}   # an instant is not known
    d = t - _dt.datetime(1970, 1, 1, tzinfo=UTC)
    return {"s": d.days * 86400 + d.seconds - BASE, "us": d.microseconds}


def seen(run):
    """A Run returned by the code under test"""
    return {"id": str(run.id), "job": run.job.name, "sched": back(run.schedule_time), "start": back(run.start_time), "stop": back(run.stop_time),
            "code": 9999 if run.exit_code is None else int(run.exit_code), "ttype": run.trigger_type, "tdata": canon(run.trigger_data), "rdata": canon(run.run_data)}


def run_scenario(scn):
    import fakedb
    import zoneinfo
    os.environ["TZ"] = scn["tz"]
    time.tzset()
    fakedb.install()
    sqlite3.connect = fakedb.sqlite_connect(sqlite3.connect)
    import dsari
    import dsari.config
    import dsari.database
    w = tlc.scratch("dsv-store-")
    try:
        database = {"sqlite3": {}, "postgresql": {"type": "postgresql", "dsn": "dbname=dsari"}, "mysql": {"type": "mysql", "connection": {"db": "dsari"}},
                    "mongodb": {"type": "mongodb", "uri": "mongodb://localhost/"}}[scn["backend"]]
        conf = {"jobs": {n: {"command": ["true"]} for n in scn["jobs"]}, "data_dir": os.path.join(w, "var")}
        if database:
            conf["database"] = database
        with open(os.path.join(w, "dsari.json"), "w") as f:
            json.dump(conf, f)

        def connect():
            return dsari.database.get_database(dsari.config.get_config(w))

        def inst(t):
            d = _dt.datetime.fromtimestamp(BASE + t // 1000000, UTC).replace(microsecond=t % 1000000)
            z = scn["argzone"]
            return d if z == "utc" else d.astimezone(zoneinfo.ZoneInfo("America/St_Johns")) if z == "named" else d.astimezone()

        def obj(run):
            job = dsari.Job(run["job"])
            o = dsari.Run(job, id=run["id"])
            o.schedule_time, o.start_time = inst(run["sched"]), inst(run["start"])
            o.trigger_type, o.trigger_data, o.run_data = run["ttype"], real(run["tdata"]), real(run["rdata"])
            if "stop" in run:
                o.stop_time, o.exit_code = inst(run["stop"]), run["code"]
            return o
        conns = [connect(), connect()]
        tr = [{"e": "header", "name": scn["name"], "backend": scn["backend"], "grain": 1000 if scn["backend"] == "mongodb" else 1}]

        def dump(c):
            return {"runs": [seen(x) for x in c.get_runs()], "running": [seen(x) for x in c.get_runs(runs_running=True)]}

        def do(o):
            if o["op"] == "start":
                conns[0].insert_running_run(obj(o["run"]))
            elif o["op"] == "finish":
                conns[0].insert_run(obj(o["run"]))
            else:
                conns[0].clear_runs_running()
        for o in scn["ops"]:
            try:
                if o["op"] in ("start", "finish", "clear"):
                    ev = {"e": o["op"]}
                    if "run" in o:
                        ev["run"] = rec(o["run"])
                    if "die" in o:
                        fakedb.steps.at = o["die"]
                        died = False
                        try:
                            do(o)
                        except fakedb.Killed:
                            died = True
                        fakedb.steps.at = 0
                        if died:
                            raw = getattr(conns[0], "db_conn", None)
                            if raw is not None:
                                raw.close()
                            conns[0] = connect()
                            tr.append({"e": "fault", "op": ev, "seen": dump(conns[0])})
                            continue
                    else:
                        do(o)
                    tr.append(ev)
                elif o["op"] == "reopen":
                    conns[:] = [connect(), connect()]
                    tr.append({"e": "reopen"})
                elif o["op"] == "previous":
                    res = conns[o["conn"]].get_previous_runs(dsari.Job(o["job"]))
                    tr.append({"e": "previous", "job": o["job"], "out": [[] if x is None else [seen(x)] for x in res]})
                else:
                    kw = {}
                    for k, a in (("names", "job_names"), ("ids", "run_ids")):
                        if o[k] is not None:
                            kw[a] = o[k]
                    if o["running"]:
                        kw["runs_running"] = True
                    res = conns[o["conn"]].get_runs(**kw)
                    tr.append({"e": "list", "running": o["running"], "names": {"given": o["names"] is not None, "v": o["names"] or []},
                               "ids": {"given": o["ids"] is not None, "v": o["ids"] or []}, "out": [seen(x) for x in res]})
            except Exception as e:
                fakedb.steps.at = 0
                if os.environ.get("DSV_TB"):
                    import traceback
                    traceback.print_exc()
                tr.append({"e": "error", "op": o["op"], "what": "%s: %s" % (type(e).__name__, e)})
                conns[:] = [connect(), connect()]
                tr.append({"e": "fault", "op": {"e": "none"}, "seen": dump(conns[0])})
        return tr
    finally:
        shutil.rmtree(w, ignore_errors=True)


def preload():
    sys.path.insert(0, REPO)
    os.environ["DSARI_HOME"] = "/dev/null/dsari"
    try:
        import dsari.database  # noqa: F401
    except Exception:
        pass


def explore(scns):
    traces = forkpool.map(run_scenario, scns, preload)
    bad, stats = tlc.check_traces("StoreTrace", traces)
    return traces, bad, stats


def check(res, tier, seed):
    n, rounds = (800, 1) if tier == "quick" else (3000, 6)
    m = tlc.model_check("MCStore", "MCStore.cfg" if tier == "quick" else "MCStoreDeep.cfg")
    st = tr = nt = 0
    hits, samples = {}, []
    for k in range(rounds):
        scns = [scenario("%d.%d.%d" % (seed, k, i)) for i in range(n)]
        traces, bad, stats = explore(scns)
        st += stats["states"]
        tr += stats["transitions"]
        nt += len(traces)
        for h, c in stats["hits"].items():
            hits[h] = hits.get(h, 0) + c
        samples = samples or [{"scenario": t[0]["name"], "backend": t[0]["backend"], "events": [e["e"] for e in t[1:]], "last": t[-1]} for t in traces[:2]]
        for k2, l, c, _ in bad:
            e = traces[k2][l]
            res.violation(c, "scenario %s (%s), event %d: %s" % (scns[k2]["name"], scns[k2]["backend"], l, json.dumps(e)[:300]),
                          {"kind": "store", "property": "C22", "clause": c, "event": l, "scenario": scns[k2]})
        if res.violations:
            break
    res.coverage = {"states": st + m["states"], "transitions": tr + m["transitions"], "specification_model": m, "traces_validated_against_impl": nt, "kinds": hits, "samples": samples}
    res.assumptions = ["psycopg2, MySQLdb and pymongo with their servers are stand-ins (transactions, types, time zones, syntax errors); SQLite is the real one"]


def replay(p):
    traces, bad, _ = explore([p["scenario"]])
    for k, l, c, ps in bad:
        print("violated: event %d %s %s" % (l, c, json.dumps(traces[k][l])[:600]))
    return 1 if bad else 0


if __name__ == "__main__":
    scns = [scenario(i) for i in range(int(sys.argv[1]), int(sys.argv[2]))]
    t0 = time.time()
    traces = forkpool.map(run_scenario, scns, preload)
    t1 = time.time()
    bad, stats = tlc.check_traces("StoreTrace", traces)
    print(stats, "%.1f s driver, %.1f s TLC" % (t1 - t0, time.time() - t1))
    for k, l, c, ps in bad[:20]:
        print(scns[k]["name"], scns[k]["backend"], l, c, json.dumps(traces[k][l])[:400])
