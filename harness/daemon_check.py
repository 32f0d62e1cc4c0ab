"""Checks of the daemon properties: scenarios -> real daemon in the simulated world -> traces -> TLC."""
import json
import os
import shutil
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import tlc  # noqa: E402

CONST = {"slack": 1300, "backmin": 5000, "backmax": 300000, "trigpoll": 60000}


def read_trace(fn):
    t = []
    with open(fn) as f:
        for line in f:
            t.append(json.loads(line))
    t[0].update(CONST)
    return t


def for_tlc(tr):
    return tr


def run_scenarios(scns, outdir, jobs=8):
    """In a child process (the boundary is patched there for good)."""
    pid = os.fork()
    if pid == 0:
        rc = 1
        try:
            import simrun
            simrun.run_all(scns, outdir, jobs)
            rc = 0
        except BaseException:
            import traceback
            traceback.print_exc()
        finally:
            sys.stdout.flush()
            os._exit(rc)
    _, st = os.waitpid(pid, 0)
    if st:
        raise RuntimeError("simulation failed")
    return [os.path.join(outdir, "t%04d.ndjson" % i) for i in range(len(scns))]


def explore(scns, keep=None):
    """Returns (traces, violations, stats); violations: (k, line, clause, props)."""
    d = tlc.scratch("dsv-run-")
    try:
        t0 = time.time()
        fns = run_scenarios(scns, d)
        t1 = time.time()
        traces = [read_trace(f) for f in fns]
        bad, stats = tlc.check_traces("DsariTrace", [for_tlc(t) for t in traces])
        stats["sim_s"] = round(t1 - t0, 1)
        stats["tlc_s"] = round(time.time() - t1, 1)
        if keep:
            shutil.copytree(d, keep, dirs_exist_ok=True)
        return traces, bad, stats
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == "__main__":
    import scen
    prof, a, b = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
    scns = [scen.make(prof, i) for i in range(a, b)]
    traces, bad, stats = explore(scns, keep=sys.argv[4] if len(sys.argv) > 4 else None)
    if len(sys.argv) > 4:
        for i, s in enumerate(scns):
            json.dump(s, open(os.path.join(sys.argv[4], "s%04d.json" % i), "w"))
    print(stats, "events", sum(len(t) for t in traces))
    for k, l, c, props in bad:
        ev = traces[k][l]
        print(scns[k]["name"], "k", k, "line", l, c, props, json.dumps(ev)[:300])
