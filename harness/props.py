"""property id -> check function(res, tier, seed)"""
import json
import os
import sys

import daemon_check
import genscen
import scen
import tlc

QUICK_N = {"C03": 350, "C13": 700, "C14": 700, "C07": 700, "C11": 900, "C12": 700}
CHECKS = {}
# the model of the specification which is explored along with the traces
MODEL = {"C01": "groups", "C02": "groups", "C03": "trigger", "C04": "trigger", "C05": "trigger", "C06": "trigger", "C07": "crash",
         "C08": "kill", "C09": "crash", "C10": "groups", "C11": "kill", "C12": "kill", "C13": "reload", "C14": "reload", "C18": "crash"}

# the model of the main loop (MCLoop), and the deliberate mistakes in it which TLC has to find in the thorough tier
LOOP = {"C01": "groups", "C02": "groups", "C03": "retry", "C04": "trigger", "C05": "trigger", "C06": "trigger", "C07": "crash",
        "C08": "kill", "C09": "crash", "C10": "groups", "C11": "kill", "C12": "wake", "C13": "reload", "C14": "reload", "C18": "crash"}
# the model from which schedules of the environment are generated
GEN = {"C01": "mix", "C02": "mix", "C03": "retry", "C04": "trigger", "C05": "trigger", "C06": "trigger", "C07": "crash",
       "C08": "kill", "C09": "crash", "C10": "mix", "C11": "kill", "C12": "wake", "C13": "reload", "C14": "reload", "C18": "crash"}
NGEN = 120
LOOPBUGS = {"C01": ["leak", "regroup"], "C03": ["nobackoff"], "C04": ["norespawn", "respawn"], "C11": ["unmarked"], "C12": ["regrace", "killwake", "killtime"],
            "C13": ["oldruns"], "C14": ["latesignal"]}


def models(prop, tier):
    """explores the models of the property; fails (no verdict) if TLC finds a correct model wrong or a wrong one correct"""
    deep = "" if tier == "quick" else "Deep"
    m = [tlc.model_check("MCDsari", "MC%s%s.cfg" % (MODEL[prop], deep))]
    loop = LOOP[prop]
    m.append(tlc.model_check("MCLoop", "MCLoop%s.cfg" % loop))
    if deep:
        m.append(tlc.model_check("MCLoop", "MCLoop%sDeep.cfg" % {"retry": "groups", "wake": "kill"}.get(loop, loop)))
        m.append(tlc.model_check("MCLoop", "MCLoopfz%s.cfg" % loop))
        if prop in ("C08", "C14", "C18"):
            m.append(tlc.model_check("MCLoop", "MCLoopmixDeep.cfg"))
        for b in LOOPBUGS.get(prop, []):
            m.append(tlc.model_refuted("MCLoop", "MCLoopBug_%s.cfg" % b))
    return m


def sample_of(scn, trace):
    return {"scenario": scn["name"], "configs": len(scn["cfgs"]), "environment": [
        {k: v for k, v in o.items() if k in ("t", "op", "sig", "job", "cfg", "lines", "unit", "crash", "fmt")} for o in scn["env"][:8]],
        "events": len(trace), "excerpt": [{"e": e["e"], "t": e["t"]} for e in trace[1:12]]}


def daemon_prop(prop):
    def check(res, tier, seed):
        n = QUICK_N.get(prop, 500)
        rounds = 1 if tier == "quick" else 10
        st = tr = nt = ng = 0
        kinds = {}
        samples = []
        m = models(prop, tier)
        for r in range(rounds):
            scns = [scen.make(prop, "%d.%d.%d" % (seed, r, i)) for i in range(n)]
            scns += genscen.make(GEN[prop], seed * 100 + r, NGEN)
            if rounds > 1:
                scns += genscen.make(sorted(set(GEN.values()))[r % len(set(GEN.values()))], seed * 100 + 50 + r, NGEN)
            traces, bad, stats = daemon_check.explore(scns)
            st += stats["states"]
            tr += stats["transitions"]
            nt += len(traces)
            ng += len(scns) - n
            for t in traces:
                for e in t[1:]:
                    kinds[e["e"]] = kinds.get(e["e"], 0) + 1
            if not samples:
                samples = [sample_of(scns[i], traces[i]) for i in (0, n)]
            for k, l, c, ps in bad:
                if prop in ps:
                    res.violation(c, "scenario %s, event %d: %s" % (scns[k]["name"], l, json.dumps(traces[k][l])[:300]),
                                  {"kind": "daemon", "property": prop, "clause": c, "event": l, "scenario": scns[k], "trace": traces[k]})
            if res.violations:
                break
        res.coverage = {"states": st + sum(x["states"] for x in m), "transitions": tr + sum(x["transitions"] for x in m), "specification_models": m, "traces_validated_against_impl": nt, "of_these_generated_by_tlc": ng, "samples": samples,
                        "events_by_kind": kinds}
        res.assumptions = ["the simulated clock, fork/exec/wait/kill and signal delivery behave as the kernel's",
                           "runs of the simulated processes only interact with the daemon by exiting, files and signals"]
    return check


for _p in ("C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C18"):
    CHECKS[_p] = daemon_prop(_p)


def _later(module, *args):
    """the harness is imported by the check which needs it"""
    def check(res, tier, seed):
        f = __import__(module).check
        (f(*args) if args else f)(res, tier, seed)
    return check


CHECKS["C15"] = _later("config_check")
CHECKS["C16"] = _later("schedule_check", "C16")
CHECKS["C17"] = _later("schedule_check", "C17")
CHECKS["C19"] = _later("render_check")
CHECKS["C20"] = _later("views_check", "C20")
CHECKS["C21"] = _later("views_check", "C21")
CHECKS["C22"] = _later("store_check")


def replay(p):
    if p["kind"] in ("schedule", "config", "render", "views", "store"):
        return __import__(p["kind"] + "_check").replay(p)
    if p["kind"] == "daemon":
        traces, bad, _ = daemon_check.explore([p["scenario"]])
        for e in traces[0]:
            print(json.dumps(e)[:400])
        rc = 0
        for k, l, c, ps in bad:
            print("violated at event %d: %s %s" % (l, c, ps))
            if p["property"] in ps:
                rc = 1
        return rc
    raise SystemExit("unknown kind")
