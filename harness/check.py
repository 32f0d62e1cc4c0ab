#!/usr/bin/env python3
"""check.py <property>   run the check of one property (VERIF_TIER, VERIF_SEED)
check.py replay <file>  run one recorded scenario again and judge it"""
import json
import os
import shutil
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
PY = "/opt/venv/bin/python"
sys.path.insert(0, HERE)

# the environment of the code under test
if os.environ.get("DSV_ENV") != "1":
    e = {k: v for k, v in os.environ.items() if not k.startswith(("DSARI", "PYTHON"))}
    e.update({"DSV_ENV": "1", "TZ": "UTC", "LC_ALL": "C.UTF-8", "PYTHONDONTWRITEBYTECODE": "1", "PYTHONHASHSEED": "0",
              "HOME": os.environ.get("HOME", "/root")})
    os.execve(PY, [PY] + sys.argv, e)

if os.environ.get("DSV_COV"):
    sys.path.insert(0, os.path.join(VERIF, "tools"))
    __import__("cov").start(os.environ["DSV_COV"])


def known_findings():
    """[(property, key)] of the findings which are recorded instead of repaired"""
    res = []
    fn = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(fn):
        for line in open(fn):
            if line.startswith("finding: "):
                w = line.split(None, 3)
                res.append((w[1].split("=", 1)[1], w[2].split("=", 1)[1], w[3].strip() if len(w) > 3 else ""))
    return res


class Result:
    def __init__(self, prop):
        self.prop = prop
        self.violations = []   # (key, text, replay payload)
        self.coverage = {}
        self.assumptions = []
        self.level = "model_checking"

    def violation(self, key, text, payload):
        self.violations.append((key, text, payload))


def finish(res, tier, seed, t0):
    prop = res.prop
    known = [(k, w) for p, k, w in known_findings() if p == prop]
    new, old = [], []
    for v in res.violations:
        (old if v[0] in [k for k, _ in known] else new).append(v)
    for k, w in known:
        print("KNOWN-FINDING: property=%s %s %s" % (prop, k, w))
    rdir = os.path.join(VERIF, "replays")
    os.makedirs(rdir, exist_ok=True)
    for fn in os.listdir(rdir):
        if fn.startswith(prop + "-"):
            os.unlink(os.path.join(rdir, fn))
    for i, (key, text, payload) in enumerate(new[:5]):
        fn = os.path.join(rdir, "%s-%d.json" % (prop, i))
        with open(fn, "w") as f:
            json.dump(payload, f, indent=1)
        print("VIOLATION property=%s replay=%s" % (prop, fn))
        print("    %s: %s" % (key, text))
    ev = {"property": prop, "tier": tier, "seed": seed, "level": res.level, "coverage": res.coverage,
          "assumptions": res.assumptions, "wall_s": round(time.time() - t0, 1), "violations": len(new)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, sort_keys=True)
    print("%s: %d violations, %s, %.1f s" % (prop, len(new), {k: v for k, v in res.coverage.items() if isinstance(v, int)}, time.time() - t0))
    return 1 if new else 0


def main():
    if sys.argv[1] == "replay":
        import props
        return props.replay(json.load(open(sys.argv[2])))
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    import props
    t0 = time.time()
    res = Result(prop)
    try:
        props.CHECKS[prop](res, tier, seed)
    except BaseException:
        traceback.print_exc()
        print("check of %s could not be completed" % prop)
        return 2
    return finish(res, tier, seed, t0)


if __name__ == "__main__":
    sys.exit(main())
