"""Schedules of the environment which TLC generates from the specification (MCGen.tla: random walks through the
model of the main loop) as scenarios for the real daemon."""
import json
import random
import re

import scen
import tlc

NAMES = ["alpha", "beta", "gamma", "delta", "eps-1", "zeta.z", "a", "b", "c", "Job_7", "JOB_7", "Job-7", "job_7"]


def walks(model, seed, num):
    """(configurations of the model, list of schedules)"""
    rc, out = tlc.run("MCGen", cfg="MCGen%s.cfg" % model, workers=1, timeout=300,
                      extra=["-simulate", "num=%d" % num, "-depth", "900", "-seed", str(seed)])
    cfgs, hs, seen = None, [], set()
    for l in out.splitlines():
        m = re.match(r'<<"(CFG|GEN)", (".*")>>$', l)
        if m:
            x = json.loads(m.group(2))  # a TLA+ string has the escapes of a JSON string
            if m.group(1) == "CFG":
                cfgs = json.loads(x)
            elif x not in seen:
                seen.add(x)
                hs.append(json.loads(x))
    if rc != 0 or cfgs is None or len(hs) < num // 4:
        raise tlc.TlcError("no schedules from MCGen%s (rc %d, %d)\n%s" % (model, rc, len(hs), tlc.error_part(out)))
    return cfgs, hs


def fields(f):
    return f if isinstance(f, dict) else {}  # an empty function is written as []


def ticks_ok(cfgs, tick):
    for c in cfgs:
        for j in fields(c["jobs"]).values():
            p = j["per"] * tick
            if p and not (60 % p == 0 or p % 60 == 0 and 3600 % p == 0):
                return False
    return True


def schedule(per, ph, until, rnd):
    """an expression with the occurrences k * per + ph (seconds)"""
    sec = sorted({(ph + k * per) % 60 for k in range(60)})
    mins = None if per <= 60 else sorted({(ph + k * per) // 60 % 60 for k in range(3600 // per)})
    if until is None and rnd.random() < 0.7:
        return "%s * * * * %s" % ("*" if mins is None else ",".join(map(str, mins)), ",".join(map(str, sec)))
    r = "RRULE:FREQ=%s;BYSECOND=%s" % ("MINUTELY" if mins is None else "HOURLY", ",".join(map(str, sec)))
    if mins is not None:
        r += ";BYMINUTE=" + ",".join(map(str, mins))
    if until is not None:
        r += ";UNTIL=" + scen.datetime.datetime.fromtimestamp(scen.BASE + until, scen.UTC).strftime("%Y%m%dT%H%M%SZ")
    return r


def configs(cfgs, tick, name, rnd):
    out = []
    for c in cfgs:
        if not c["valid"]:
            out.append({"file": rnd.choice(["{not json", {"jobs": {"x": {"schedule": "* * * * *"}}}, {"jobs": 5}]),
                        "desc": {"valid": False, "jobs": {}, "groups": {}, "env": {}, "killruns": False, "sgrace": 0}})
            continue
        fj, dj = {}, {}
        for k, j in sorted(fields(c["jobs"]).items()):
            n = name[k]
            cmd = ["run", n]
            f = {"command": cmd}
            d = {"per": 0, "off": 0, "until": -1, "conc": j["conc"], "groups": j["groups"], "max": j["max"] * tick * 1000,
                 "grace": j["grace"] * tick * 1000, "env": {}, "cmd": cmd, "append": False, "jenkins": False, "jobgroup": ""}
            if j["conc"]:
                f["concurrent_runs"] = True
            if j["groups"]:
                f["concurrency_groups"] = j["groups"]
            if j["max"]:
                f["max_execution"] = j["max"] * tick
            f["max_execution_grace"] = j["grace"] * tick
            if j["per"]:
                per = j["per"] * tick
                ph = (scen.T0 // 1000 + j["off"] * tick) % per
                until = None if j["until"] == -1 else scen.T0 // 1000 + j["until"] * tick
                f["schedule"] = schedule(per, ph, until, rnd)
                d["per"], d["off"] = per * 1000, ph * 1000 + scen.suboff(n)
                if until is not None:
                    d["until"] = until * 1000 + scen.suboff(n)
            fj[n], dj[n] = f, d
        groups = fields(c["groups"])
        file = {"jobs": fj, "concurrency_groups": {g: {"max": m} for g, m in groups.items()}}
        if c["killruns"]:
            file["shutdown_kill_runs"] = True
        if c["sgrace"]:
            file["shutdown_kill_grace"] = c["sgrace"] * tick
        out.append({"file": file, "desc": {"valid": True, "jobs": dj, "groups": groups, "env": {}, "killruns": c["killruns"],
                                           "sgrace": c["sgrace"] * tick * 1000}})
    return out


def scenario(model, seed, k, cfgs, hist):
    rnd = random.Random("gen/%s/%s/%d" % (model, seed, k))
    tick = rnd.choice([t for t in (5, 10, 15, 20, 30, 60) if ticks_ok(cfgs, t)])
    keys = sorted({j for c in cfgs for j in fields(c["jobs"])})
    name = dict(zip(keys, rnd.sample(NAMES, len(keys))))
    out = configs(cfgs, tick, name, rnd)
    g = scen.Gen("C05", "gen/%s/%s/%d" % (model, seed, k))
    g.tz = "UTC"
    # times within a tick: in the order of the schedule
    env, start, end, runs = [], {}, {}, {n: [] for n in name.values()}
    i = 0
    while i < len(hist):
        m = i
        while m < len(hist) and hist[m]["t"] == hist[i]["t"]:
            m += 1
        # a job which is due at a tick starts within its first second
        at = sorted(rnd.choice([rnd.randrange(tick * 1000), rnd.randrange(1000, 2000), rnd.randrange(1000)]) for _ in range(m - i))
        for x, o in zip(at, hist[i:m]):
            o["ms"] = o["t"] * tick * 1000 + x
        i = m
    last = hist[-1]["ms"] if hist else 0
    for o in hist:
        t = o["ms"]
        if o["op"] == "start":
            start[o["run"]] = o["t"] * tick * 1000 + 1000
            runs[name[o["job"]]].append(o["run"])
        elif o["op"] == "exit":
            end[o["run"]] = (max(1, t - start[o["run"]]), o["status"])
        elif o["op"] == "put":
            g.w.update(badtrig=0 if o["valid"] else 1, trigtime=0, trigenv=0.1, age=0.1)
            op = g.trigger(t, name[o["job"]], o["fmt"])
            if o["valid"] and o["at"] > o["t"]:
                ep = scen.T0 + o["at"] * tick * 1000
                j = json.loads(op["datas"][0])
                j["schedule_time"] = (scen.BASE * 1000 + ep) // 1000
                op["raw"] = json.dumps(j)
                op["datas"] = [json.dumps(j, sort_keys=True)]
                if "environment" in j:
                    op["datas"].append(json.dumps(dict(j, environment=op["env"]), sort_keys=True))
                op["sched"] = ep
            env.append(op)
        elif o["op"] == "writecfg":
            env.append({"t": t, "op": "writecfg", "cfg": o["cfg"]})
        elif o["op"] == "sig":
            if o["busy"]:
                env.append({"t": t, "op": "inject", "sig": o["sig"], "lines": rnd.randrange(1, 400), "unit": "line"})
            else:
                env.append({"t": t, "op": "sig", "sig": o["sig"]})
        elif o["op"] == "freeze":
            env.append({"t": t, "op": "stall", "ms": o["d"] * tick * 1000})
        elif o["op"] == "crash":
            if o["busy"]:
                u = rnd.choice(["line", "sql", "fs"])
                env.append({"t": t, "op": "inject", "crash": True, "unit": u, "lines": rnd.randrange(1, {"line": 400, "sql": 12, "fs": 5}[u])})
            else:
                env.append({"t": t, "op": "crash"})
    behave = {}
    for n, rs in runs.items():
        behave[n] = [dict(dur=end[r][0] if r in end else rnd.choice([None, tick * 20000]), status=end[r][1] if r in end else 0,
                          **({"term": {"delay": rnd.choice([0, 300, tick * 1000]), "status": 15}} if rnd.random() < 0.6 else {})) for r in rs]
        behave[n].append({"dur": rnd.choice([500, tick * 1500]), "status": 0})
    env.append({"t": last + 3 * tick * 1000 + 65000, "op": "end"})
    return {"name": "gen-%s-%s-%d" % (model, seed, k), "seed": seed * 1000 + k, "t0": scen.T0, "cfgs": out, "behave": behave, "env": env,
            "dirs": ["$D/d1", "$D/d2"], "files": ["$D/f1"], "restart": False, "pid_pool": rnd.random() < 0.5}


def make(model, seed, num):
    cfgs, hs = walks(model, seed, num)
    return [scenario(model, seed, k, cfgs, h) for k, h in enumerate(hs)]


if __name__ == "__main__":
    import sys
    import daemon_check
    scns = make(sys.argv[1], int(sys.argv[2]), int(sys.argv[3]))
    traces, bad, stats = daemon_check.explore(scns, keep=sys.argv[4] if len(sys.argv) > 4 else None)
    print(stats, "scenarios", len(scns), "events", sum(len(t) for t in traces))
    for k, l, c, props in bad:
        print(scns[k]["name"], "k", k, "line", l, c, props, json.dumps(traces[k][l])[:300])
