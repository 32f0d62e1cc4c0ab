"""C16, C17: next scheduled runs reported by dsari-info, judged by Schedule.tla"""
import datetime as _dt
import functools
import io
import json
import os
import random
import shutil
import sys
import time
import zlib
import zoneinfo

import forkpool
import simclock
import tlc

REPO = os.environ.get("DSV_REPO", "/repo")
real_dt = _dt.datetime
UTC = _dt.timezone.utc
ZONES = ["America/New_York", "Europe/Berlin", "Australia/Lord_Howe", "America/St_Johns", "Asia/Kolkata", "Pacific/Apia", "Pacific/Chatham",
         "America/Sao_Paulo", "Europe/London", "Pacific/Auckland"]
# the zone of the machine; zones whose rules have been the same for all the years in question
LOCAL = ["UTC", "America/New_York", "Europe/Berlin", "Australia/Lord_Howe", "America/St_Johns", "Asia/Kolkata", "Europe/London"]


# ------------------------------------------------------------------ zones

@functools.lru_cache(maxsize=None)
def transitions(zone):
    """[(utc second, offset)] between 2023 and 2037"""
    z = zoneinfo.ZoneInfo(zone)

    def off(t):
        return int(real_dt.fromtimestamp(t, z).utcoffset().total_seconds())
    a, end, step = 1672531200, 2114380800, 86400
    res = [(a, off(a))]
    t = a
    while t < end:
        if off(t) != off(t + step):
            lo, hi = t, t + step
            while hi - lo > 1:
                m = (lo + hi) // 2
                if off(m) == off(lo):
                    lo = m
                else:
                    hi = m
            res.append((hi, off(hi)))
        t += step
    return res


def zone_table(zone):
    return [{"from": f, "off": o} for f, o in transitions(zone)]


# ------------------------------------------------------------------ schedules

MONTHS = ["jan", "feb", "mar", "apr", "may", "jun", "jul", "aug", "sep", "oct", "nov", "dec"]
DAYS = ["sun", "mon", "tue", "wed", "thu", "fri", "sat"]
LO = (0, 0, 1, 1, 0, 0)
HI = (59, 23, 31, 12, 6, 59)
# lower bound of what a step or a range may be, so that a field stays useful
WORDS = ["@midnight", "@hourly", "@daily", "@weekly", "@monthly", "@annually", "@yearly"]


def gen_field(r, i, rnd, star_only=False):
    lo, hi = LO[i], HI[i]
    if i == 4 and not rnd and r.random() < 0.4:
        lo, hi = r.choice([(0, 7), (1, 7)])
    if star_only:
        return [{"k": "star", "n": 1}]
    x = r.random()
    c = "R" if rnd else "H"

    def rng():
        a = r.randint(lo, hi - 1)
        b = r.randint(a + 1, hi)
        if i in (2, 4) and b - a >= HI[i] - LO[i]:
            b = a + HI[i] - LO[i] - 1
        return a, b
    if rnd or x < 0.45:
        y = r.random()
        if y < 0.4:
            return [{"k": c}]
        if y < 0.6:
            a, b = r.choice([rng(), rng(), (lo, lo), (hi, hi)])
            return [{"k": c + "r", "a": a, "b": b}]
        if y < 0.8:
            return [{"k": c + "s", "n": r.choice([1, 2, 3, 5, 7, 10, 15, 20, 29, 30, 31]) if i not in (2, 4) else r.choice([2, 3, 4])}]
        a, b = rng()
        return [{"k": c + "rs", "a": a, "b": b, "n": r.choice([2, 3, 5, 10, 20, b - a + 1, b - a + 3]) if i not in (2, 4) else r.randint(2, 4)}]
    if x < 0.6 and i not in (2, 4):
        return [{"k": "star", "n": r.choice([2, 3, 5, 7, 15, 29])}]
    items = []
    n = r.choice([1, 1, 1, 2, 3])
    for _ in range(n):
        if r.random() < 0.5:
            v = r.randint(lo, hi)
            if i == 2 and r.random() < 0.3:
                v = r.choice([28, 29, 30, 31])
            items.append({"k": "val", "a": v})
        else:
            a, b = rng()
            items.append({"k": "range", "a": a, "b": b, "n": r.choice([1, 1, 2, 3])})
    if i in (2, 4):
        # all days would be the same as a star
        s = set()
        for it in items:
            s |= {it["a"] % 7 if i == 4 else it["a"]} if it["k"] == "val" else set(range(it["a"], it["b"] + 1, it["n"]))
        s = {x % 7 for x in s} if i == 4 else s
        if len(s) > HI[i] - LO[i]:
            items = [{"k": "val", "a": r.randint(lo, hi)}]
    return items


def gen_cron(r, rnd=False):
    if not rnd and r.random() < 0.2:
        return {"kind": "cron", "word": r.choice(WORDS), "fields": []}
    n = r.choice([5, 5, 6])
    dense = r.random()
    p_star = {0: 0.15, 1: 0.4, 2: 0.65, 3: 0.75, 4: 0.65, 5: 0.15}
    if dense < 0.25:
        p_star = {k: min(0.95, v + 0.3) for k, v in p_star.items()}
    rf = r.randrange(n) if rnd else -1
    f = [gen_field(r, i, i == rf or (rnd and r.random() < 0.2), star_only=(i != rf and r.random() < p_star[i])) for i in range(n)]
    return {"kind": "cron", "word": "", "fields": f}


def render_item(it, i, r):
    k = it["k"]

    def v(x):
        if i == 3 and r.random() < 0.3:
            return MONTHS[x - 1]
        if i == 4 and r.random() < 0.3:
            return DAYS[x % 7]
        return str(x)
    if k == "star":
        return "*" if it["n"] == 1 else "*/%d" % it["n"]
    if k == "val":
        return v(it["a"])
    if k == "range":
        return "%s-%s" % (v(it["a"]), v(it["b"])) + ("" if it["n"] == 1 else "/%d" % it["n"])
    c = k[0]
    if len(k) == 1:
        return c
    if k[1:] == "r":
        return "%s(%d-%d)" % (c, it["a"], it["b"])
    if k[1:] == "s":
        return "%s/%d" % (c, it["n"])
    return "%s(%d-%d)/%d" % (c, it["a"], it["b"], it["n"])


def gen_rule(r, t0):
    f = r.choice(["DAILY", "DAILY", "HOURLY", "MINUTELY", "WEEKLY", "MONTHLY", "MONTHLY", "YEARLY"])
    s = {"kind": "rrule", "freq": f, "interval": 1, "byday": [], "bymonthday": [], "bymonth": [], "byhour": [], "byminute": [], "bysecond": [],
         "bysetpos": [], "until": {"k": "", "s": 0}}

    def some(lo, hi, n=3):
        return sorted(r.sample(range(lo, hi + 1), r.randint(1, n)))
    if f == "HOURLY":
        s["interval"] = r.choice([1, 1, 2, 3, 4, 6, 8, 12])
    if f == "MINUTELY":
        s["interval"] = r.choice([1, 2, 5, 5, 9, 15, 16, 20, 30, 32, 45, 90, 120, 240])
    if s["interval"] == 1 and r.random() < 0.4:
        s["byhour"] = some(0, 23)
    if r.random() < 0.35 and f != "MINUTELY":
        s["byminute"] = some(0, 59)
    if r.random() < 0.25:
        s["bysecond"] = some(0, 59, 2)
    if f in ("DAILY", "HOURLY", "MINUTELY") and r.random() < 0.4:
        s["byday"] = [{"n": 0, "d": d} for d in some(0, 6, 4)]
    if f == "WEEKLY":
        s["byday"] = [{"n": 0, "d": d} for d in some(0, 6, 4)]
    if f in ("DAILY",) and r.random() < 0.2:
        s["bymonthday"] = r.choice([some(1, 31), [-1], [-3, 1]])
    if f == "MONTHLY":
        x = r.random()
        if x < 0.35:
            s["bymonthday"] = r.choice([some(1, 31), [-1], [31], [-2, 15]])
        elif x < 0.7:
            s["byday"] = [{"n": n, "d": r.randint(0, 6)} for n in r.sample([1, 2, 3, 4, 5, -1, -2], r.randint(1, 2))]
        else:
            s["byday"] = [{"n": 0, "d": d} for d in r.choice([[1, 2, 3, 4, 5], [0, 6], some(0, 6, 3)])]
            s["bysetpos"] = r.choice([[-1], [1], [2], [1, -1], [-2]])
            s["byhour"], s["byminute"], s["bysecond"] = s["byhour"][:1], s["byminute"][:1], s["bysecond"][:1]
    if f in ("MONTHLY", "DAILY") and r.random() < 0.2:
        s["bymonth"] = some(1, 12, 4)
    if f == "YEARLY":
        s["bymonth"] = some(1, 12, 2)
        if r.random() < 0.6:
            s["bymonthday"] = r.choice([some(1, 28, 2), [-1], [29], [31, 1]])
        else:
            s["byday"] = [{"n": r.choice([1, 2, 4, -1]), "d": r.randint(0, 6)}]
    if r.random() < 0.3:
        u = t0 + r.choice([-1, 1]) * int(86400 * r.choice([0.01, 0.3, 1, 3, 40, 400]) * r.random())
        k = r.choice(["utc", "local", "date"])
        if k == "date":
            u -= u % 86400
        s["until"] = {"k": k, "s": u}
    return s


def render_rule(s, r):
    p = ["FREQ=" + s["freq"]]
    o = []
    if s["interval"] != 1 or r.random() < 0.1:
        o.append("INTERVAL=%d" % s["interval"])
    if s["byday"]:
        nm = ["SU", "MO", "TU", "WE", "TH", "FR", "SA"]
        o.append("BYDAY=" + ",".join((str(e["n"]) if e["n"] < 0 else r.choice(["", "+"]) + str(e["n"]) if e["n"] else "") + nm[e["d"]] for e in s["byday"]))
    for k in ("bymonthday", "bymonth", "byhour", "byminute", "bysecond", "bysetpos"):
        if s[k]:
            o.append(k.upper() + "=" + ",".join(str(x) for x in s[k]))
    if s["until"]["k"]:
        d = real_dt.fromtimestamp(s["until"]["s"], UTC)
        o.append("UNTIL=" + d.strftime({"utc": "%Y%m%dT%H%M%SZ", "local": "%Y%m%dT%H%M%S", "date": "%Y%m%d"}[s["until"]["k"]]))
    r.shuffle(o)
    t = "RRULE:" + ";".join(p + o)
    return t.lower() if r.random() < 0.15 else t


def render(s, r):
    if s["kind"] == "rrule":
        return render_rule(s, r)
    if s["word"]:
        return s["word"]
    f = [",".join(render_item(it, i, r) for it in fl) for i, fl in enumerate(s["fields"])]
    sep = "  " if r.random() < 0.1 else " "
    return (" " if r.random() < 0.05 else "") + sep.join(f)


def gen_name(r):
    return "".join(r.choice("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789._-") for _ in range(r.choice([1, 3, 5, 8, 20]))).lstrip(".") or "a"


def scenario(prop, seed):
    r = random.Random("%s/%s" % (prop, seed))
    t0 = r.randint(1704067200, 1830297600)   # 2024 .. 2027
    zone_local = "UTC" if prop == "C16" else r.choice(LOCAL)
    jobs = {}
    sample = r.random() < (0.25 if prop == "C16" else 0.05)
    zone = None
    if prop == "C17":
        zone = r.choice(ZONES)
        if r.random() < 0.7:
            # close to a change of the clocks
            tr = [x for x, _ in transitions(r.choice([zone, zone_local]))][1:]
            tr = [x for x in tr if 1704067200 < x < 1830297600]
            if tr:
                t0 = r.choice(tr) + r.choice([-1, 1]) * int(86400 * r.choice([0.02, 0.1, 1, 3]) * r.random())
    for _ in range(r.randint(4, 8)):
        n = gen_name(r)
        if prop == "C16":
            s = gen_cron(r, rnd=sample and r.random() < 0.6 or r.random() < 0.05)
            tz = r.choice(["", "UTC"])
        else:
            s = gen_rule(r, t0) if r.random() < 0.5 else gen_cron(r, rnd=r.random() < 0.05)
            tz = r.choice(["", zone, r.choice(ZONES), "UTC"])
            if s["kind"] == "cron" and tz in ("", "UTC") and zone_local == "UTC":
                tz = zone
        jobs[n] = {"s": s, "tz": tz, "text": render(s, r)}
    times = [t0 * 1000000 + r.choice([0, 1, 500000, 999999, r.randrange(1000000)])]
    for _ in range(r.randint(1, 3)):
        times.append((t0 + int(86400 * r.choice([0.01, 1, 30]) * r.random())) * 1000000 + r.randrange(1000000))
    return {"name": "%s-%s" % (prop, seed), "local": zone_local, "jobs": jobs, "times": sorted(times), "chase": r.randint(2, 4), "sample": sample,
            "seed": r.randrange(1 << 30)}


def canon_s(s):
    return s


def info(argv):
    import dsari.info
    old = sys.stdout, sys.stderr, sys.argv
    sys.stdout, sys.stderr = io.StringIO(), io.StringIO()
    sys.argv = ["dsari-info"] + argv
    try:
        rc = dsari.info.main()
        return sys.stdout.getvalue() if not rc else None
    except SystemExit as e:
        return sys.stdout.getvalue() if not e.code else None
    except Exception:
        return None
    finally:
        sys.stdout, sys.stderr, sys.argv = old


def run_scenario(scn):
    w = tlc.scratch("dsv-sch-")
    try:
        r = random.Random(scn["seed"])
        random.seed(scn["seed"])
        os.environ["TZ"] = scn["local"]
        time.tzset()
        os.environ["DSARI_HOME"] = os.path.join(w, "home")
        os.makedirs(os.path.join(w, "home", "var"))
        sys.path.insert(0, REPO)

        def write(d, names):
            os.makedirs(d, exist_ok=True)
            c = {"data_dir": os.path.join(w, "var"), "jobs": {}}
            for n in names:
                j = scn["jobs"][n]
                c["jobs"][n] = {"command": ["true"], "schedule": j["text"]}
                if j["tz"]:
                    c["jobs"][n]["schedule_timezone"] = j["tz"]
            with open(os.path.join(d, "dsari.json"), "w") as f:
                json.dump(c, f)
        write(os.path.join(w, "all"), scn["jobs"])
        for i, n in enumerate(scn["jobs"]):
            write(os.path.join(w, str(i)), [n])

        def query(us):
            """{job: None | "error" | (s, us)}"""
            simclock.Clock.us = us
            out = info(["-c", os.path.join(w, "all"), "job", "list", "--format", "json"])
            res = {}
            js = json.loads(out) if out is not None else None
            for i, n in enumerate(scn["jobs"]):
                if js is None:
                    o1 = info(["-c", os.path.join(w, str(i)), "job", "list", "--format", "json"])
                    j = json.loads(o1)[n] if o1 is not None else None
                else:
                    j = js.get(n)
                if j is None:
                    res[n] = {"k": "error", "s": 0, "us": 0}
                elif j["next_scheduled_run"] is None:
                    res[n] = {"k": "none", "s": 0, "us": 0}
                else:
                    d = real_dt.fromisoformat(j["next_scheduled_run"]) - real_dt(1970, 1, 1, tzinfo=UTC)
                    res[n] = {"k": "time", "s": d.days * 86400 + d.seconds, "us": d.microseconds}
            return res
        jobs, zones = {}, {}
        for n, j in scn["jobs"].items():
            crc = zlib.crc32(n.encode())
            z = j["tz"] or scn["local"]
            zones[z] = zone_table(z)
            jobs[n] = {"crc": [crc >> 16, crc & 0xFFFF], "sub": int(round(crc / 0xFFFFFFFF * 1000000)), "s": j["s"], "text": j["text"], "z": z}
        tr = [{"e": "header", "name": scn["name"], "jobs": jobs, "zones": zones}]

        def record(us, res):
            for n in jobs:
                tr.append({"e": "next", "job": n, "start": {"s": us // 1000000, "us": us % 1000000}, "res": res[n]})
        seen = set()
        for us in scn["times"]:
            res = query(us)
            record(us, res)
            for _ in range(scn["chase"]):
                c = [x["s"] * 1000000 + x["us"] for x in res.values() if x["k"] == "time" and x["s"] < 1830297600]
                if not c:
                    break
                t = r.choice(c)
                for u in (t - 1, t, t + 1):
                    if u not in seen:
                        seen.add(u)
                        record(u, query(u))
        if scn["sample"]:
            us = scn["times"][0]
            rs = [query(us) for _ in range(25)]
            for n, j in scn["jobs"].items():
                wide = any(it["k"] == "R" and i in (0, 1, 5) for i, f in enumerate(j["s"].get("fields", [])) for it in f)
                isr = any(it["k"].startswith("R") for f in j["s"].get("fields", []) for it in f)
                if isr and not wide:
                    continue
                tr.append({"e": "sample", "job": n, "answers": len({json.dumps(x[n]) for x in rs}), "calls": 25})
                for x in rs[1:8]:
                    if isr:
                        tr.append({**[e for e in tr if e.get("job") == n and e["e"] == "next"][0], "res": x[n]})
        return tr
    finally:
        shutil.rmtree(w, ignore_errors=True)


# ------------------------------------------------------------------ the daemon's own chain of runs

BASE = 1700006400


def daemon_scenario(prop, seed):
    """A few hours of the daemon, with jobs whose schedules fire now and then; a reload in between."""
    r = random.Random("%s/daemon/%s" % (prop, seed))
    s = scenario(prop, "d%s" % seed)
    t0 = s["times"][0]
    jobs = {}
    for n in list(s["jobs"]):
        j = s["jobs"][n]
        if j["s"]["kind"] == "cron":
            f = [gen_field(r, i, False, star_only=i in (1, 2, 3, 4)) for i in range(r.choice([5, 6]))]
            if r.random() < 0.4:
                f[1] = [{"k": "star", "n": r.choice([2, 3])}]
            if r.random() < 0.4:
                # a few days only: depends on which day it is in the zone of the job
                f[4] = [{"k": "val", "a": d} for d in r.sample(range(7), 3)]
            sch = {"kind": "cron", "word": "", "fields": f}
            if len(FieldCount(f)) > 4:
                sch = {"kind": "cron", "word": "@hourly", "fields": []}
        else:
            sch = dict(j["s"], freq="HOURLY", interval=r.choice([1, 1, 2, 3]), byday=j["s"]["byday"] if j["s"]["freq"] in ("DAILY", "WEEKLY") else [],
                       bymonthday=[], bymonth=[], bysetpos=[], byhour=[], bysecond=j["s"]["bysecond"][:1], byminute=j["s"]["byminute"][:2])
        jobs[n] = {"s": sch, "tz": j["tz"], "text": render(sch, r)}
    return {"name": "%s-daemon-%s" % (prop, seed), "local": s["local"], "jobs": jobs, "t0": t0, "hours": r.choice([2, 3, 5]), "seed": r.randrange(1 << 30),
            "hup": [r.randint(1, 3600) for _ in range(r.choice([0, 1, 2]))],
            "puts": [(r.randint(1, 7000), r.choice(sorted(jobs)), r.choice([None, "Asia/Kathmandu", "America/New_York", "UTC"])) for _ in range(r.choice([0, 1, 3, 6]))]}


def FieldCount(f):
    """seconds of an hour at which the fields may fire (roughly)"""
    def size(fl, n):
        return sum(n // max(1, it.get("n", 1)) if it["k"] in ("star", "Hs") else 1 if it["k"] in ("val", "H", "Hr") else max(1, (it["b"] - it["a"]) // it.get("n", 1))
                   for it in fl)
    m = size(f[0], 60)
    sec = size(f[5], 60) if len(f) > 5 else 1
    return range(m * sec)


def run_daemons(scns):
    """Traces of the same form as those of dsari-info: the reference time is the start of the daemon or of the run before."""
    import simrun
    d = tlc.scratch("dsv-schd-")
    try:
        sims = []
        for scn in scns:
            cj = {}
            for n, j in scn["jobs"].items():
                cj[n] = {"command": ["true"], "schedule": j["text"]}
                if j["tz"]:
                    cj[n]["schedule_timezone"] = j["tz"]
            env = [{"t": 1000 * x, "op": "sig", "sig": "HUP"} for x in sorted(scn["hup"])]
            for x, n, z in scn["puts"]:
                raw = {"schedule_timezone": z} if z else {}
                env.append({"t": 1000 * x, "op": "put", "job": n, "fmt": "json", "raw": json.dumps(raw), "valid": True, "env": {}, "datas": [json.dumps(raw)]})
                env.append({"t": 1000 * x + 1, "op": "sig", "sig": "USR1"})
            sims.append({"name": scn["name"], "seed": scn["seed"], "t0": scn["t0"] // 1000 - BASE * 1000, "tz": scn["local"], "dump": True,
                         "cfgs": [{"file": {"jobs": cj}, "desc": {}}], "behave": {"*": [{"dur": 300, "status": 0}]},
                         "env": env + [{"t": 3600000 * scn["hours"], "op": "end"}]})
        names = simrun.run_all(sims, d)
        res = []
        for scn, fn in zip(scns, names):
            t0 = scn["t0"] // 1000 * 1000
            end = t0 + 3600000000 * scn["hours"]
            rows = json.load(open(fn + ".db")) if os.path.exists(fn + ".db") else []
            died = [e for e in map(json.loads, open(fn)) if e["e"] == "died"]
            jobs, zones = {}, {}
            tr = [{"e": "header", "name": scn["name"], "jobs": jobs, "zones": zones}]
            for n, j in scn["jobs"].items():
                crc = zlib.crc32(n.encode())
                z = j["tz"] or scn["local"]
                zones[z] = zone_table(z)
                jobs[n] = {"crc": [crc >> 16, crc & 0xFFFF], "sub": int(round(crc / 0xFFFFFFFF * 1000000)), "s": j["s"], "text": j["text"], "z": z}
                ref, first = t0, True
                for _, sched, start, ttype in sorted([x for x in rows if x[0] == n], key=lambda x: x[2]):
                    # a triggered run takes the place of the next one; the one after it is the first after its start
                    if ttype == "schedule" and not (first and sched < t0 + 2000000):
                        tr.append({"e": "next", "job": n, "start": {"s": ref // 1000000, "us": ref % 1000000},
                                   "res": {"k": "time", "s": sched // 1000000, "us": sched % 1000000}})
                    ref, first = start, False
                # nothing more until the end
                tr.append({"e": "quiet", "job": n, "start": {"s": ref // 1000000, "us": ref % 1000000}, "first": first, "died": bool(died),
                           "until": end // 1000000 - 10, "res": {"k": "none", "s": 0, "us": 0}})
            res.append(tr)
        return res
    finally:
        shutil.rmtree(d, ignore_errors=True)


def daemons_in_a_process(scns):
    """simrun patches this process, so let a child do it"""
    return forkpool.map(run_daemons, [scns], None, jobs=1, timeout=800)[0]


def preload():
    sys.path.insert(0, REPO)
    os.environ["DSARI_HOME"] = "/dev/null/dsari"
    simclock.install()
    try:
        import dsari.info  # noqa: F401
    except Exception:
        pass


def trace(scns):
    traces = forkpool.map(run_scenario, [s for s in scns if "times" in s], preload, timeout=300)
    ds = [s for s in scns if "times" not in s]
    dt = daemons_in_a_process(ds) if ds else []
    return [(dt if "times" not in s else traces).pop(0) for s in scns]


def explore(scns):
    traces = trace(scns)
    bad, stats = tlc.check_traces("ScheduleTrace", traces)
    return traces, bad, stats


def check(prop):
    def run(res, tier, seed):
        n, nd, rounds = (300, 60 if prop == "C16" else 100, 1) if tier == "quick" else (1200, 400, 8)
        m = tlc.model_check("MCSchedule", "MCSchedule.cfg" if tier == "quick" else "MCScheduleDeep.cfg", heap="4g")
        st = tr = nt = nq = 0
        hits, samples = {}, []
        for k in range(rounds):
            scns = [scenario(prop, "%d.%d.%d" % (seed, k, i)) for i in range(n)] + [daemon_scenario(prop, "%d.%d.%d" % (seed, k, i)) for i in range(nd)]
            traces, bad, stats = explore(scns)
            st += stats["states"]
            tr += stats["transitions"]
            nt += len(traces)
            nq += sum(len(t) - 1 for t in traces)
            for h, c in stats["hits"].items():
                hits[h] = hits.get(h, 0) + c
            samples = samples or [{"scenario": t[0]["name"], "jobs": {n: (j["text"], j["z"]) for n, j in t[0]["jobs"].items()}, "query": t[1]} for t in (traces[0], traces[-1])]
            for k2, l, c, ps in bad:
                if prop in ps:
                    e = traces[k2][l]
                    j = traces[k2][0]["jobs"][e["job"]]
                    res.violation(c, "scenario %s: schedule %r of job %r in %s, %s" % (scns[k2]["name"], j["text"], e["job"], j["z"], json.dumps(e)[:300]),
                                  {"kind": "schedule", "property": prop, "clause": c, "event": l, "scenario": scns[k2]})
            if res.violations:
                break
        res.coverage = {"states": st + m["states"], "transitions": tr + m["transitions"], "specification_model": m, "traces_validated_against_impl": nt,
                        "next_runs_judged": nq, "kinds": hits, "samples": samples}
        res.assumptions = ["the zone tables of Python's zoneinfo are right", "croniter and dateutil are part of what is checked, in the installed versions"]
    return run


def replay(p):
    traces, bad, _ = explore([p["scenario"]])
    rc = 0
    for k, l, c, ps in bad:
        print("violated: %s %s %s" % (c, ps, json.dumps(traces[k][l])))
        rc = 1 if p["property"] in ps else rc
    return rc


if __name__ == "__main__":
    gen = daemon_scenario if len(sys.argv) > 4 else scenario
    scns = [gen(sys.argv[1], i) for i in range(int(sys.argv[2]), int(sys.argv[3]))]
    t0 = time.time()
    traces = trace(scns)
    t1 = time.time()
    bad, stats = tlc.check_traces("ScheduleTrace", traces)
    print(stats, "%.1f s driver, %.1f s TLC" % (t1 - t0, time.time() - t1))
    for k, l, c, ps in bad[:30]:
        e = traces[k][l]
        j = traces[k][0]["jobs"][e["job"]]
        print(scns[k]["name"], l, c, ps, j["text"], j["z"], scns[k]["local"])
        if e["e"] in ("next", "quiet"):
            def f(x):
                return real_dt.fromtimestamp(x["s"], UTC).isoformat() + ".%06d" % x["us"]
            print("    start", f(e["start"]), "res", e["res"]["k"], f(e["res"]), "sub", j["sub"], e["job"])
