"""Scenarios for the simulated daemon: configurations with their abstract descriptors, an environment
schedule (triggers, signals, process behaviour, faults) and a profile per property.

Everything is a function of (profile, seed).
"""
import datetime
import json
import random
import zlib
import zoneinfo

import yaml

BASE = 1700006400
T0 = 1000000  # ms after BASE at which a scenario begins
UTC = datetime.timezone.utc


def suboff(name):
    """documented: a fixed sub-second offset per job name"""
    return int(round(zlib.crc32(name.encode()) / 0xFFFFFFFF * 1000000)) // 1000


def clamp(ms):
    return max(-2000000000, min(2000000000, ms))


# ------------------------------------------------------------------ schedules

ZONES = ["Asia/Kolkata", "Asia/Kathmandu", "Australia/Eucla", "America/New_York", "America/St_Johns", "UTC", "Pacific/Chatham"]


def offset(zone):
    """seconds east of UTC during the scenarios (no zone changes its offset then)"""
    return int(zoneinfo.ZoneInfo(zone).utcoffset(datetime.datetime.fromtimestamp(BASE)).total_seconds())


def sched_spec(rnd, kind=None, east=0):
    """(schedule string, period ms, phase ms within the period, until or -1) of a schedule in a zone that is
    east seconds ahead of UTC"""
    kind = kind or rnd.choice(["s10", "s20", "s30", "m1", "m1", "m2", "m5", "list", "rr"])
    s = rnd.randrange(60)
    if kind == "s10":
        return "* * * * * */10", 10000, 0, -1
    if kind == "s20":
        return "* * * * * */20", 20000, 0, -1
    if kind == "s30":
        return "* * * * * %d,%d" % (s % 30, s % 30 + 30), 30000, (s % 30) * 1000, -1
    if kind == "m1":
        return "* * * * * %d" % s, 60000, s * 1000, -1
    if kind in ("m2", "m4", "m5"):
        n = int(kind[1])
        return "*/%d * * * * %d" % (n, s), n * 60000, (s - east) % (n * 60) * 1000, -1
    if kind == "list":
        k = rnd.choice([15, 12])
        return "* * * * * " + ",".join(str(x + s % k) for x in range(0, 60, k)), k * 1000, (s % k) * 1000, -1
    if kind == "hour":
        m = rnd.randrange(60) if rnd.random() < 0.2 else T0 // 60000 + rnd.randrange(1, 6)
        return "%d * * * * %d" % ((m + east // 60) % 60, s), 3600000, (m % 60 * 60 + s) * 1000, -1
    if kind == "rr":
        return "RRULE:FREQ=MINUTELY;BYSECOND=%d" % s, 60000, s * 1000, -1
    if kind == "rrhour":
        m = T0 // 60000 + rnd.randrange(1, 6)
        return "RRULE:FREQ=HOURLY;BYMINUTE=%d;BYSECOND=%d" % ((m + east // 60) % 60, s), 3600000, (m % 60 * 60 + s) * 1000, -1
    if kind == "until":
        end = T0 + rnd.randrange(60, 400) * 1000
        end -= end % 1000
        u = datetime.datetime.fromtimestamp(BASE + end // 1000, UTC).strftime("%Y%m%dT%H%M%SZ")
        return "RRULE:FREQ=MINUTELY;BYSECOND=%d;UNTIL=%s" % (s, u), 60000, s * 1000, end
    raise ValueError(kind)


JOBS = ["alpha", "beta", "gamma", "delta", "eps-1", "zeta.z"]
# names which only differ in case, in what LIKE or a shell takes for a wildcard, or by a suffix
ODDJOBS = [["a_b", "axb", "a-b", "A_B", "a_b_c", "a"], ["Job 1", "job 1", "Job 10", "Job", "Job.1", "Job_1"], ["..x", "0", "00", "-", "a b:c@d+e", "x" * 64]]
GROUPS = ["g1", "g2", "g3", "g4", "g5"]


def w_ngroups(w, rnd):
    return max(max(w["ingroups"]), rnd.choice([3, 5]))


class Gen:
    def __init__(self, profile, seed):
        self.rnd = random.Random("%s/%s" % (profile, seed))
        self.w = dict(DEFAULTS)
        self.w.update(PROFILES[profile])
        self.profile = profile
        self.seed = seed
        self.tagno = 0
        self.jobs = random.Random("names/%s/%s" % (profile, seed)).choice([JOBS, JOBS] + ODDJOBS)
        self.tz = self.rnd.choice(ZONES) if self.p("tz") else "UTC"

    def p(self, key):
        return self.rnd.random() < self.w[key]

    # -------------------------------------------------------------- configurations

    def job(self, name, old=None):
        rnd = self.rnd
        f, d = {}, {"per": 0, "off": 0, "until": -1, "conc": False, "groups": [], "max": 0, "grace": 60000,
                    "env": {}, "cmd": [], "append": False, "jenkins": False, "jobgroup": ""}
        if self.p("scheduled"):
            kind = rnd.choice(self.w["kinds"])
            zone = self.tz
            if self.p("jobtz"):
                zone = f["schedule_timezone"] = rnd.choice(ZONES)
            s, per, ph, until = sched_spec(rnd, kind, offset(zone))
            f["schedule"] = s
            d["per"], d["off"] = per, ph + suboff(name)
            if until != -1:
                d["until"] = until + suboff(name)
        elif self.p("jobtz"):
            f["schedule_timezone"] = rnd.choice(ZONES)
        cmd = rnd.choice([["/bin/true"], ["/bin/sh", "-c", "echo hello"], ["run-me", "a b", "--x=%s" % name],
                          ["/opt/tool", "", "tab\there"]])
        cmd = cmd + ["c%d" % rnd.randrange(1000)]
        if rnd.random() < 0.3 and not any(c in x for x in cmd for c in " \t") and "" not in cmd:
            f["command"] = " ".join(cmd)
        else:
            f["command"] = cmd
        d["cmd"] = cmd
        if self.p("conc"):
            f["concurrent_runs"] = d["conc"] = True
        elif rnd.random() < 0.2:
            f["concurrent_runs"] = False
        if self.p("groups"):
            gs = rnd.sample(GROUPS[:w_ngroups(self.w, rnd)], rnd.choice(self.w["ingroups"]))
            f["concurrency_groups"] = gs
            d["groups"] = gs
        if self.p("max"):
            m = rnd.choice([3, 5, 8, 12.5, 20, 45, 90])
            f["max_execution"] = m
            d["max"] = int(m * 1000)
            if rnd.random() < 0.8:
                g = rnd.choice([1, 2.5, 5, 10, 30, 10, 30, 0, 130])
                f["max_execution_grace"] = g
                d["grace"] = int(g * 1000)
        if self.p("append"):
            f["command_append_run"] = d["append"] = True
        if self.p("jenkins"):
            f["jenkins_environment"] = d["jenkins"] = True
        if self.p("env"):
            f["environment"], d["env"] = self.environment("job")
        if self.p("render"):
            f["render_reports"] = rnd.random() < 0.5
        return f, d

    def environment(self, layer):
        rnd = self.rnd
        keys = ["FOO", "BAR", "L_" + layer.upper(), "PATH", "HOME", "CI", "LANG", "JOB_NAME", "RUN_ID", "DATA_DIR", "Z z", "EMPTY"]
        if self.w["pwd"]:
            keys += ["PWD", "PWD"]
        e, x = {}, {}
        for k in rnd.sample(keys, rnd.randrange(0, 5)):
            if k == "PWD":
                v = rnd.choice(["$D/d1", "$D/d2", "$D/d1", "$D/nodir", "$D/f1", ""])
            elif k == "EMPTY":
                v = ""
            else:
                v = rnd.choice(["v-%s-%d" % (layer, rnd.randrange(100)), rnd.randrange(-50, 1000), 2.5, "a=b c\n", "0"])
                if layer == "trigger" and not isinstance(v, str) and rnd.random() < 0.5:
                    v = "s"
            e[k] = v
            x[k] = v if isinstance(v, str) else str(v)
        return e, x

    def config(self, prev=None):
        """One configuration: (file content, descriptor)."""
        rnd = self.rnd
        n = rnd.randrange(1, self.w["njobs"] + 1)
        names = rnd.sample(self.jobs[:self.w["njobs"] + 1], n)
        fj, dj = {}, {}
        for name in names:
            if prev and name in prev[1]["jobs"] and rnd.random() < 0.4:
                fj[name] = json.loads(json.dumps(prev[2][name]))
                dj[name] = json.loads(json.dumps(prev[1]["jobs"][name]))
                if dj[name]["jobgroup"]:
                    dj[name]["jobgroup"] = ""
            else:
                fj[name], dj[name] = self.job(name)
        file = {"jobs": dict(fj)}
        jg = rnd.random() < self.w["jobgroup"] and n >= 2
        if jg:
            a, b = names[0], names[1]
            tmpl = {k: v for k, v in fj[a].items()}
            del file["jobs"][a], file["jobs"][b]
            tmpl["job_names"] = [a, b]
            file["job_groups"] = {"jgrp": tmpl}
            dj[a] = dict(dj[a], jobgroup="jgrp")
            dj[b] = dict(json.loads(json.dumps(dj[a])))
            if dj[a]["per"]:
                dj[b]["off"] = dj[a]["off"] - suboff(a) + suboff(b)
                if dj[a]["until"] != -1:
                    dj[b]["until"] = dj[a]["until"] - suboff(a) + suboff(b)
            fj[a] = fj[b] = {k: v for k, v in tmpl.items() if k != "job_names"}
            if rnd.random() < 0.4 and not dj[a]["groups"]:
                pass
        groups = {}
        cg = {}
        for g in GROUPS:
            r = rnd.random()
            if r < 0.6:
                m = rnd.choice(self.w["gmax"])
                cg[g] = {"max": m}
                groups[g] = m
            elif r < 0.7:
                cg[g] = {}
                groups[g] = 1
        if cg:
            file["concurrency_groups"] = cg
        d = {"valid": True, "jobs": dj, "groups": groups, "env": {}, "killruns": False, "sgrace": 0}
        if self.p("genv"):
            file["environment"], d["env"] = self.environment("global")
        if self.p("killruns"):
            file["shutdown_kill_runs"] = d["killruns"] = True
        if self.p("sgrace"):
            g = rnd.choice([2, 4.5, 10, 25])
            file["shutdown_kill_grace"] = g
            d["sgrace"] = int(g * 1000)
        return file, d, fj

    def bad_config(self, cur):
        rnd = self.rnd
        f = json.loads(json.dumps(cur[0]))
        k = rnd.choice(["json", "type", "nocmd", "sched", "root", "name", "env", "trunc", "group"])
        if k == "json":
            return "{not json"
        if k == "trunc":
            return json.dumps(f)[:-3]
        if k == "root":
            return "[1, 2]"
        if k == "type":
            f["shutdown_kill_runs"] = "yes"
        elif k == "nocmd":
            f.setdefault("jobs", {})["new"] = {"schedule": "* * * * *"}
        elif k == "sched":
            f.setdefault("jobs", {})["new"] = {"command": "x", "schedule": rnd.choice(["61 * * * *", "nonsense", "RRULE:FREQ=OFTEN"])}
        elif k == "name":
            f.setdefault("jobs", {})["a/b"] = {"command": "x"}
        elif k == "env":
            f["environment"] = {"A": ["x"]}
        elif k == "group":
            f["concurrency_groups"] = {"g1": {"max": "many"}}
        return f

    # -------------------------------------------------------------- triggers

    def trigger(self, t, job, fmt=None):
        rnd = self.rnd
        op = {"t": t, "op": "put", "job": job, "fmt": fmt or rnd.choice(["json", "json", "yaml"])}
        if rnd.random() < self.w["age"]:
            op["age"] = rnd.choice([1000, 60000, 3600000])
        if rnd.random() < self.w["badtrig"]:
            raw = bad_trigger(rnd, op["fmt"])
            op["raw_hex"] = raw.hex()
            op["valid"] = False
            return op
        self.tagno += 1
        j = {"tag": "t%d" % self.tagno}
        x = {}
        ints = False
        if rnd.random() < self.w["trigenv"]:
            e, x = self.environment("trigger")
            j["environment"] = e
            ints = e != x
        if rnd.random() < 0.3:
            j["extra"] = rnd.choice([[1, 2, {"a": None}], {"x": "\u00e9\u4e16", "y": 1.5}, True, "s", 12345678901234567890])
        r2 = random.Random("odd/%s/%s/%d" % (self.profile, self.seed, self.tagno))
        if r2.random() < 0.06:   # not every database can hold it
            j["odd"] = r2.choice([2 ** 70, nested(150)] + ([float("nan"), {"i": float("-inf")}] if op["fmt"] == "json" else []))
        if rnd.random() < self.w["trigtime"]:
            at = rnd.choice([-3600000, -5000, 0, 3000, 15000, 40000, 100000, 250000, 90000000]) + t + T0
            if rnd.random() < 0.05:
                at = -BASE * 1000
            kind = rnd.choice(["int", "float", "iso", "isoz", "tz", "isotz", "isotz2", "inttz"])
            ep = BASE * 1000 + at
            if kind in ("int", "iso", "isoz", "tz", "inttz"):
                ep -= ep % 1000
            tz = rnd.choice(["America/New_York", "Asia/Kolkata", "Australia/Lord_Howe", "UTC", "Europe/Berlin"])
            z = zoneinfo.ZoneInfo(tz)
            if kind == "int":
                j["schedule_time"] = ep // 1000
            elif kind == "inttz":
                j["schedule_time"] = ep // 1000
                j["schedule_timezone"] = tz
            elif kind == "float":
                j["schedule_time"] = ep / 1000
            elif kind == "iso":   # naive: the daemon's local zone
                j["schedule_time"] = datetime.datetime.fromtimestamp(ep // 1000, zoneinfo.ZoneInfo(self.tz)).strftime("%Y-%m-%dT%H:%M:%S")
            elif kind == "isoz":
                j["schedule_time"] = datetime.datetime.fromtimestamp(ep // 1000, UTC).strftime("%Y-%m-%d %H:%M:%SZ")
            elif kind in ("isotz", "isotz2"):
                if kind == "isotz2":  # the time has its own offset
                    j["schedule_timezone"] = rnd.choice(["America/New_York", "Asia/Kolkata", "Europe/Berlin"])
                j["schedule_time"] = datetime.datetime.fromtimestamp(ep // 1000, z).replace(microsecond=ep % 1000 * 1000).isoformat()
            else:
                j["schedule_time"] = datetime.datetime.fromtimestamp(ep // 1000, z).strftime("%Y-%m-%dT%H:%M:%S")
                j["schedule_timezone"] = tz
            op["sched"] = clamp(ep - BASE * 1000)
        if op["fmt"] == "json":
            op["raw"] = json.dumps(j)
            if rnd.random() < 0.2:
                op["raw"] = json.dumps(j, ensure_ascii=False, indent=2) + "\n"
        else:
            op["raw"] = yaml.safe_dump(j) if rnd.random() < 0.6 else json.dumps(j)
        op["valid"] = True
        op["env"] = x
        op["datas"] = [json.dumps(json.loads(json.dumps(j)), sort_keys=True)]
        if ints:
            op["datas"].append(json.dumps(dict(j, environment=x), sort_keys=True))
        op["tag"] = j["tag"]
        return op

    # -------------------------------------------------------------- behaviour of the runs

    def behave(self):
        rnd = self.rnd
        out = []
        for _ in range(rnd.randrange(1, 5)):
            b = {"dur": rnd.choice(self.w["durs"]), "status": rnd.choice(self.w["statuses"])}
            if isinstance(b["dur"], int) and rnd.random() < 0.7:
                b["dur"] += rnd.randrange(0, 2000)
            if rnd.random() < 0.7:
                b["term"] = {"delay": rnd.choice([0, 20, 300, 2000, 9000]), "status": rnd.choice([15, 0, 256, 15])}
            if rnd.random() < self.w["rdata"]:
                b["files"], b["rdata"] = return_data(rnd)
            out.append(b)
        return out

    # -------------------------------------------------------------- the scenario

    def scenario(self):
        rnd, w = self.rnd, self.w
        slow = self.p("slow")
        if slow:
            w["kinds"], w["horizon"], w["durs"] = ["m4", "m5", "hour", "rrhour"], [4000, 9000], [20000, 400000, 1500000, 4300000, 6000000]
        horizon = rnd.choice(w["horizon"]) * 1000
        cfgs = [self.config()]
        valid = [0]
        files = [cfgs[0]]
        env = []
        names = list(self.jobs[:w["njobs"] + 1])
        # reloads
        out = [{"file": cfgs[0][0], "desc": cfgs[0][1]}]
        reloads = []
        nre = rnd.choice(w["reloads"])
        cur = 0
        for t in sorted(rnd.randrange(5000, horizon) for _ in range(nre)):
            r = rnd.random()
            if r < w["badcfg"]:
                f = self.bad_config(files[cur])
                out.append({"file": f, "desc": {"valid": False, "jobs": {}, "groups": {}, "env": {}, "killruns": False, "sgrace": 0}})
                files.append(None)
                n = len(out) - 1
            elif r < w["badcfg"] + w["sameback"] and len(valid) > 0:
                n = cur = rnd.choice(valid)
            else:
                c = self.config(files[cur])
                out.append({"file": c[0], "desc": c[1]})
                files.append(c)
                n = cur = len(out) - 1
                valid.append(n)
            if rnd.random() < w["busyreload"]:
                env.append({"t": t, "op": "inject", "cfg": n, "lines": rnd.randrange(1, w["maxlines"]), "sig": "HUP", "unit": "line"})
            else:
                env.append({"t": t, "op": "reload", "cfg": n})
            reloads.append(t)
        # triggers
        for _ in range(rnd.choice(w["triggers"])):
            t = rnd.randrange(0, horizon)
            job = rnd.choice(names)
            env.append(self.trigger(t, job))
            if rnd.random() < 0.15:
                env.append(self.trigger(t + rnd.choice([0, 0, 100, 5000]), job))
            if rnd.random() < w["usr1"]:
                env.append({"t": t + rnd.choice([0, 1, 500, 3000]), "op": "sig", "sig": "USR1"})
            if rnd.random() < w["lock"]:
                env.append({"t": max(0, t - 1), "op": "chmod", "job": job, "lock": True})
                env.append({"t": t + rnd.choice([2000, 70000, 130000]), "op": "chmod", "job": job, "lock": False})
                env.append({"t": t + 500, "op": "sig", "sig": "USR1"})
        for _ in range(rnd.choice(w["quits"])):
            env.append({"t": rnd.randrange(1000, horizon), "op": "sig", "sig": rnd.choice(["QUIT", "QUIT", "USR1"])})
        for _ in range(rnd.choice(w["injects"])):
            sig = rnd.choice(w["injsigs"])
            t = rnd.randrange(0, horizon)
            if rnd.random() < 0.6:  # close to a start
                c = out[0]["desc"]["jobs"]
                ps = [d for d in c.values() if d["per"]]
                if ps:
                    d = rnd.choice(ps)
                    t = max(0, d["off"] + d["per"] * ((T0 + t - d["off"]) // d["per"]) - T0 - rnd.choice([1, 30, 200, 900]))
            op = {"t": t, "op": "inject", "lines": 1 + int(rnd.random() ** 1.5 * w["maxlines"]), "unit": rnd.choice(["line", "line", "line", "fs"])}
            if op["unit"] == "fs":
                op["lines"] = rnd.randrange(1, 5)
            if sig == "CRASH":
                op["crash"] = True
                op["unit"] = rnd.choice(["line", "sql", "sql", "fs"])
                if op["unit"] == "sql":
                    op["lines"] = rnd.randrange(1, 12)
            else:
                op["sig"] = sig
            if sig in ("TERM", "INT") and any(abs(t - r) < 70000 for r in reloads):
                op["sig"] = "QUIT"
            env.append(op)
        for _ in range(rnd.choice(w["crashes"])):
            env.append({"t": rnd.randrange(0, horizon), "op": "crash"})
        for _ in range(rnd.choice(w["strangers"])):
            env.append({"t": rnd.randrange(0, horizon), "op": "stranger", "status": rnd.choice([0, 256, 9])})
        for _ in range(rnd.choice(w["stalls"])):
            env.append({"t": rnd.randrange(0, horizon), "op": "stall", "ms": rnd.choice([900, 4000, 20000, 90000])})
        restart = False
        if self.p("shutdown"):
            t = rnd.randrange(int(horizon * 0.3), horizon)
            for r in reloads:
                if 0 <= t - r < 5000:
                    t = r + 5000
            env.append({"t": t, "op": "sig", "sig": rnd.choice(["TERM", "TERM", "INT"])})
            for _ in range(rnd.choice(w["more_terms"])):
                env.append({"t": t + rnd.choice([0, 10, 400, 1900, 3000, 8000, 20000]), "op": "sig", "sig": rnd.choice(["TERM", "INT"])})
            if rnd.random() < 0.3:
                env.append({"t": t + rnd.choice([100, 3000]), "op": "sig", "sig": rnd.choice(["USR1", "HUP", "QUIT"])})
            if rnd.random() < 0.4:
                env.append(self.trigger(t + rnd.choice([-100, 50, 1500]), rnd.choice(names)))
            restart = rnd.random() < w["restart"]
        env.append({"t": horizon + 65000, "op": "end"})
        env = [o for o in env if o["t"] >= 0]
        # the data directory moves at a reload; the database stays where it is
        r2 = random.Random("data/%s/%s" % (self.profile, self.seed))
        if len(out) > 1 and r2.random() < 0.35:
            for c in out:
                if isinstance(c["file"], dict):
                    c["file"]["database"] = {"file": "$D/dsari.sqlite3"}
                    if r2.random() < 0.5:
                        c["file"]["data_dir"] = c["desc"]["data"] = "$E"
        scn = {"name": "%s-%s" % (self.profile, self.seed), "seed": self.seed if isinstance(self.seed, int) else zlib.crc32(str(self.seed).encode()),
               "t0": T0, "cfgs": out,
               "behave": {n: self.behave() for n in names}, "env": env, "dirs": ["$D/d1", "$D/d2"], "files": ["$D/f1"],
               "restart": restart, "pid_pool": rnd.random() < w["pidpool"],
               "fds": random.Random("fds/%s/%s" % (self.profile, self.seed)).choice([[], [], [20, 45], [250, 1000], [20, 250, 1000]])}
        if rnd.random() < 0.3:
            scn["reap"] = "last"
        # the other kinds of databases
        r2 = random.Random("backend/%s/%s" % (self.profile, self.seed))
        if r2.random() < 0.2:
            kind = r2.choice(["postgresql", "mysql", "mongodb"])
            scn["backend"] = kind
            for c in out:
                if isinstance(c["file"], dict):
                    c["file"]["database"] = {"postgresql": {"type": kind, "dsn": "dbname=dsari"}, "mysql": {"type": kind, "connection": {"db": "dsari"}}, "mongodb": {"type": kind}}[kind]
        if self.tz != "UTC":
            scn["tz"] = self.tz
        return scn


BAD_JSON = [
    b"", b"{", b"nonsense", b"[]", b"[1]", b"\"str\"", b"5", b"null", b"true", b"\x00\x01\x02", b"\xff\xfe{}", b"{\"a\": \"\xc3\"}",
    b"{\"environment\": []}", b"{\"environment\": null}", b"{\"environment\": {\"A\": [1]}}", b"{\"environment\": {\"A\": null}}",
    b"{\"environment\": {\"A\": true}}", b"{\"environment\": {\"\": \"x\"}}", b"{\"environment\": {\"A=B\": \"x\"}}",
    b"{\"environment\": {\"A\": \"x\\u0000y\"}}", b"{\"environment\": {\"A\\u0000\": \"y\"}}", b"{\"environment\": {\"A\": \"\\ud800\"}}",
    b"{\"environment\": \"A=B\"}", b"{\"environment\": {\"A\": {\"B\": \"C\"}}}",
    b"{\"schedule_time\": \"garbage\"}", b"{\"schedule_time\": null}", b"{\"schedule_time\": []}", b"{\"schedule_time\": {}}",
    b"{\"schedule_time\": true}", b"{\"schedule_time\": 1e400}", b"{\"schedule_time\": NaN}", b"{\"schedule_time\": -1e300}",
    b"{\"schedule_time\": 100000000000000000000000000000}", b"{\"schedule_time\": \"9999-99-99\"}", b"{\"schedule_time\": \"\"}",
    b"{\"schedule_time\": \"2023-11-15T00:00:00+99:99\"}", b"{\"schedule_time\": \"99999999999999999999999999\"}",
    b"{\"schedule_time\": 1700007000, \"schedule_timezone\": \"No/Such_Zone\"}",
    b"{\"schedule_time\": \"2023-11-15T00:30:00\", \"schedule_timezone\": \"No/Such_Zone\"}",
    b"{\"schedule_time\": 1700007000, \"schedule_timezone\": 5}", b"{\"schedule_time\": 1700007000, \"schedule_timezone\": [\"UTC\"]}",
    b"{\"schedule_time\": \"2023-11-15T00:30:00\", \"schedule_timezone\": {\"a\": 1}}",
    b"[" * 100000, b"{\"a\":" * 50000, b"\xef\xbb\xbf{}", b"{} {}", b"{'a': 1}", b"{\"a\": 1,}",
]
BAD_YAML = [
    b"", b"a: b: c", b"\t- x", b"- a\n- b", b"just text", b"5", b"~", b"2023-11-15", b"\xff\xfe\x00", b"a: \xc3", b"{a: [}", b"a: &x [*x]",
    b"!!python/object/apply:os.system ['true']", b"a: !!binary aGVsbG8=", b"schedule_time: 2023-11-15 00:30:00",
    b"schedule_time: 2023-11-15", b"environment: {A: 2023-11-15}", b"environment: [x]", b"environment: {1: x}", b"environment: {A: yes}",
    b"environment: {? [a, b] : c}", b"? [a, b]\n: c", b"environment:", b"schedule_time:", b"schedule_time: .inf", b"schedule_time: .nan",
    b"schedule_time: !!set {a}", b"a: !!set {x, y}", b"\x00", b"a: \"\\x00", b"%YAML 9.9\n---\na: 1", b"---\na: 1\n---\nb: 2",
    b"schedule_time: garbage", b"schedule_timezone: Nowhere/Land\nschedule_time: 1700007000", b"a: *nope", b"[" * 1200,
    b"? {a: 1}\n: 2", b"a: !unknown x", b"environment: {A: 'x\x01y'}",
]


def bad_trigger(rnd, fmt):
    r = rnd.choice(BAD_JSON if fmt == "json" else BAD_YAML)
    if rnd.random() < 0.1:
        r = bytes(rnd.randrange(256) for _ in range(rnd.randrange(1, 40)))
        if fmt == "yaml":
            r = b"\x00" + r
        else:
            r = b"\x01" + r
    return r


def nested(n):
    v = 0
    for _ in range(n):
        v = [v]
    return v


def return_data(rnd):
    """(files: name -> hex, expected stored run data or "")"""
    def ok(x):
        return json.dumps({"return_data": json.loads(json.dumps(x))}, sort_keys=True)
    good = rnd.choice([{"a": 1}, {"result": "ok", "n": [1, 2.5, None, True]}, [1, 2], "text", 5, None, {}, [], False,
                       {"u": "\u00e9\u4e16\U0001f600"}, {"deep": {"er": {"est": [[[]]]}}}, 1e300, -0.5, {"": ""}])
    k = rnd.random()
    if k < 0.06:
        good = {"odd": rnd.choice([float("nan"), [float("inf")], 2 ** 70, nested(150), "\ud800"])}
        return {"return_data.json": json.dumps(good).encode().hex()}, ok(good)
    if k < 0.3:
        return {"return_data.json": json.dumps(good, ensure_ascii=rnd.random() < 0.5).encode().hex()}, ok(good)
    if k < 0.5:
        return {"return_data.yaml": yaml.safe_dump(good, allow_unicode=rnd.random() < 0.5).encode().hex()}, ok(good)
    if k < 0.55:
        return {"return_data.yaml": b"1: x\nb: {2: y}\n".hex()}, ok({"1": "x", "b": {"2": "y"}})
    if k < 0.65:
        return {"return_data.json": json.dumps(good).encode().hex(), "return_data.yaml": b"other: 1\n".hex()}, ok(good)
    if k < 0.85:
        return {"return_data.json": rnd.choice([
            b"", b"{", b"nope", b"\xff\xff", b"[" * 100000, b"{\"a\": \xc3\x28}", b"{'x': 1}", b"\xef\xbb\xbf{}", b"{} x", b"\x00"]).hex()}, ""
    return {"return_data.yaml": rnd.choice([
        b"a: b: c", b"a: 2023-11-15", b"2023-11-15 10:00:00", b"a: &x [*x]", b"a: !!set {x}", b"a: !!binary aGVsbG8=", b"\xff\xfe\x00",
        b"? [a, b]\n: c", b"!!python/object/apply:os.system ['true']", b"{a: [}", b"a: !unknown x", b"\t", b"[" * 1200,
        b"---\na: 1\n---\nb: 2\n", b"a: *nope"]).hex()}, ""


DEFAULTS = {
    "njobs": 3, "scheduled": 0.8, "kinds": ["s10", "s20", "s30", "m1", "m1", "m2", "m4", "list", "rr", "hour"], "tz": 0.2, "jobtz": 0.2, "conc": 0.25, "groups": 0.3,
    "gmax": [1, 1, 2, 3], "ingroups": [1, 1, 1, 2, 2, 3], "max": 0.1, "append": 0.1, "jenkins": 0.1, "env": 0.15, "genv": 0.15, "render": 0.05, "pwd": False,
    "jobgroup": 0.15, "killruns": 0.3, "sgrace": 0.3, "slow": 0, "reloads": [0, 0, 0, 1], "badcfg": 0.2, "sameback": 0.3, "busyreload": 0.2,
    "triggers": [0, 1, 2], "badtrig": 0.1, "trigenv": 0.2, "trigtime": 0.5, "age": 0.2, "usr1": 0.5, "lock": 0.03,
    "quits": [0, 0, 1], "injects": [0], "injsigs": ["QUIT", "USR1"], "maxlines": 400, "crashes": [0], "strangers": [0, 0, 1],
    "stalls": [0, 0, 0, 1], "shutdown": 0.3, "more_terms": [0, 0, 1, 2], "restart": 0.3, "horizon": [120, 200, 300],
    "durs": [500, 2000, 8000, 25000, 70000], "statuses": [0, 0, 0, 256, 512, 9, 15, 11 + 128], "rdata": 0.05, "pidpool": 0.5,
}
LONG = [500, 5000, 20000, 45000, 100000, 240000]
PROFILES = {
    "C01": {"groups": 0.9, "conc": 0.5, "gmax": [1, 1, 1, 2, 2, 3, 4, 5], "ingroups": [1, 1, 1, 2, 2, 3, 4, 5], "durs": LONG, "reloads": [0, 0, 1, 2, 3], "triggers": [1, 3, 6],
            "njobs": 4, "kinds": ["s10", "s20", "s30", "m1", "list"], "badtrig": 0.02, "sameback": 0.5, "horizon": [150, 300, 500]},
    "C02": {"groups": 0.2, "conc": 0.4, "durs": LONG, "reloads": [0, 1, 2, 3], "triggers": [2, 4, 7], "sameback": 0.4,
            "scheduled": 0.65, "kinds": ["s10", "s20", "s30", "m1", "until"], "badtrig": 0.02, "horizon": [150, 300]},
    "C03": {"groups": 0.6, "conc": 0.3, "durs": [500, 5000, 20000, 100000, 300000, 500000], "triggers": [0, 2, 4], "stalls": [0, 0, 1, 2],
            "reloads": [0, 0, 0, 1], "horizon": [200, 400, 900], "njobs": 4, "slow": 0.06, "shutdown": 0.1, "badtrig": 0.02},
    "C04": {"scheduled": 0.9, "kinds": ["s10", "s20", "s30", "m1", "m2", "m4", "m5", "list", "rr", "until", "until", "hour", "rrhour"], "jobtz": 0.4, "tz": 0.4, "triggers": [0, 2, 4],
            "quits": [1, 3, 6], "reloads": [0, 1, 2], "crashes": [0, 0, 1], "shutdown": 0.3, "restart": 0.8, "badtrig": 0.05, "horizon": [300, 500],
            "stalls": [0, 1]},
    "C05": {"jobtz": 0.4, "tz": 0.4, "triggers": [3, 6, 10], "trigenv": 0.4, "trigtime": 0.6, "badtrig": 0.1, "lock": 0.1, "usr1": 0.5, "conc": 0.4, "quits": [0, 2],
            "age": 0.3, "horizon": [200, 400], "reloads": [0, 0, 1]},
    "C06": {"triggers": [6, 12, 20], "badtrig": 0.85, "usr1": 0.8, "quits": [0, 1, 3], "horizon": [150, 300], "conc": 0.4},
    "C07": {"injects": [1, 1, 2, 3], "injsigs": ["CRASH"], "crashes": [0, 0, 1], "maxlines": 500, "durs": [300, 2000, 8000, 30000],
            "kinds": ["s10", "s20", "list"], "restart": 0.9, "groups": 0.3, "horizon": [90, 150], "rdata": 0.2},
    "C08": {"durs": [0, 1, 40, 300, 1000, 5000, 30000], "statuses": [0, 256, 512, 255 * 256, 137 * 256, 1, 2, 6 + 128, 9, 11 + 128, 15, 64, 128 * 256],
            "strangers": [0, 2, 5], "kinds": ["s10", "s20", "list"], "stalls": [0, 1], "conc": 0.5, "max": 0.3, "horizon": [120, 200]},
    "C09": {"kinds": ["s10", "s20", "list"], "durs": [200, 3000, 9000, 15000, 35000], "statuses": [0, 0, 256, 9], "conc": 0.5, "njobs": 3,
            "crashes": [0, 0, 1], "restart": 0.9, "horizon": [120, 200], "triggers": [0, 2]},
    "C10": {"env": 0.7, "genv": 0.7, "pwd": True, "trigenv": 0.8, "triggers": [2, 5], "append": 0.4, "jenkins": 0.4, "jobgroup": 0.4,
            "badtrig": 0.02, "conc": 0.5, "kinds": ["s10", "s20", "s30"], "reloads": [0, 1], "horizon": [90, 150], "max": 0.05},
    "C11": {"shutdown": 1.0, "killruns": 0.75, "sgrace": 0.7, "durs": [2000, 20000, 60000, None, None], "more_terms": [0, 1, 2, 3], "max": 0.3,
            "kinds": ["s10", "s20", "s30"], "conc": 0.6, "injects": [0, 0, 1], "injsigs": ["TERM", "INT"], "horizon": [60, 120, 180], "restart": 0.2},
    "C12": {"max": 0.9, "durs": [1000, 2990, 10000, 60000, None, None], "kinds": ["s20", "s30", "m1", "m2"], "reloads": [0, 1, 2], "shutdown": 0.3,
            "killruns": 0.6, "conc": 0.5, "horizon": [120, 200, 300], "stalls": [0, 0, 1], "strangers": [0, 1]},
    "C13": {"reloads": [1, 2, 4, 6], "badcfg": 0.25, "busyreload": 0.35, "sameback": 0.25, "durs": LONG, "groups": 0.5, "triggers": [0, 2, 4],
            "quits": [0, 2], "max": 0.2, "horizon": [150, 300], "shutdown": 0.2},
    "C14": {"injects": [2, 4, 8], "injsigs": ["QUIT", "USR1", "HUP", "QUIT", "TERM", "INT", "HUP"], "maxlines": 900, "triggers": [0, 2, 5],
            "kinds": ["s10", "s20", "list", "s30"], "groups": 0.4, "durs": [300, 3000, 12000, 40000], "reloads": [0, 1, 2], "busyreload": 0.8,
            "shutdown": 0.4, "horizon": [90, 150, 240], "quits": [0, 2, 4], "killruns": 0.5},
    "C18": {"rdata": 0.85, "kinds": ["s10", "s20", "list"], "durs": [300, 2000, 9000], "horizon": [120, 200], "conc": 0.5, "reloads": [0, 1]},
}


def make(profile, seed):
    return Gen(profile, seed).scenario()
