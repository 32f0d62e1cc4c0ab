"""C19: the pages written by dsari-render, judged by Render.tla"""
import datetime as _dt
import gzip
import html.parser
import io
import json
import lzma
import os
import random
import re
import resource
import shutil
import signal
import sqlite3
import sys
import time
import urllib.parse

import forkpool
import schedule_check
import simclock
import tlc
from store_check import NOTIME, canon, uid
from views_check import BAD, Gen, pair, parse_td

REPO = os.environ.get("DSV_REPO", "/repo")
UTC = _dt.timezone.utc
real_dt = _dt.datetime
DESCR = ["", "x", "<b>bold</b>", "a & b", "\"q\" 'q'", "</td></tr></table>", "{{ 7*7 }}", "ümlaut €", "&lt;", "\U0001f600", "a\nb", "<!-- c -->", "<script>alert(1)</script>"]
OUTPUTS = [b"", b"hello\n", b"\xff\xfe\x80bin\x00ary\n", "ünïcode €\n".encode(), b"<b>bold</b> & </pre></body>", b"&amp;&lt;", b"{% raw %}{{ x }}", b"\n\nlead", b"line\r\nline",
           b"<script>x</script>", b"]]>", b"<!--", "\U0001f600".encode() * 5]


# ------------------------------------------------------------------ scenarios

def scenario(seed):
    r = random.Random("C19/%s" % seed)
    many = r.random() < 0.12
    names = ["a", "b-1", "Job c", "d.e:f@g+h_0", "zz"][:r.randint(1, 5)]
    r.shuffle(names)
    g = Gen(r, names + ["gone"])
    scn = {"name": "C19-%s" % seed, "local": r.choice(schedule_check.LOCAL), "base": 1700000000 + r.randint(0, 3 * 10 ** 7), "names": names, "backend": r.choice(["sqlite3"] * 6 + ["postgresql", "mysql"])}
    if r.random() < 0.3:
        # around a change of DST
        z = schedule_check.transitions(scn["local"])
        if len(z) > 1:
            scn["base"] = r.choice(z[1:])[0] - r.randint(0, 7200)
    cfg = {"off": [], "first": 0, "last": 0, "gz": False, "custom": [], "dir": False}

    def gen_cfg():
        c = dict(cfg)
        c["off"] = [n for n in names if r.random() < 0.2]
        c["first"], c["last"] = r.choice([(0, 0), (0, 0), (5, 0), (0, 5), (3, 4), (50, 50), (1, 1), (9, 3)])
        c["gz"] = r.random() < 0.25
        c["custom"] = [k for k in ("run", "job", "index") if r.random() < 0.5] if r.random() < 0.3 else []
        c["dir"] = bool(c["custom"]) or r.random() < 0.1
        return c
    cfg = gen_cfg()
    cfg["off"] = [] if r.random() < 0.6 else cfg["off"]
    steps = [dict(cfg, op="config")]

    def finish_some(n):
        for _ in range(n):
            if r.random() < 0.6:
                g.now += r.choice([0, 1, 1000, 1500, 59999, r.randint(0, 400000), r.randint(0, 4000000)])
            o = g.write(0.4)
            if o["op"] == "start" and r.random() < 0.3:
                o["run"]["tdata"] = {k: r.choice(DESCR) for k in ("type", "description") if r.random() < 0.7}
            if "run" in o:
                if o["op"] == "start":
                    o["run"]["frac"] = sorted(r.randint(0, 999) for _ in range(3))
            steps.append(o)
            if o["op"] == "finish" and r.random() < 0.8:
                raw = r.choice(OUTPUTS) if r.random() < 0.7 else b"".join(r.choice(OUTPUTS) for _ in range(r.randint(1, 6)))
                steps.append({"op": "output", "id": o["run"]["id"], "job": o["run"]["job"], "raw": raw.hex(), "form": r.choice(["", "", "", ".gz", ".xz", "none"])})
    for _ in range(r.choice([1, 2, 3, 5])):
        finish_some(r.choice([70, 90]) if many else r.choice([0, 1, 3, 8, 14]))
        many = False
        if r.random() < 0.25:
            cfg = gen_cfg()
            steps.append(dict(cfg, op="config"))
        for _ in range(r.choice([1, 1, 2])):
            o = {"op": "render", "regenerate": r.random() < 0.15, "kill": None}
            x = r.random()
            if x < 0.25:
                o["kill"] = ["event", r.choice([1, 2, 3, 4, 5, 6, 8, 10, 14, 20, 30])]
            elif x < 0.5:
                o["kill"] = ["size", r.choice([1, 2, 3, 4, 5, 6, 8, 12]), r.choice([0, 1, 10, 100, 400, 700, 1000, 1300])]
            steps.append(o)
    steps.append({"op": "render", "regenerate": False, "kill": None})
    if r.random() < 0.3:
        steps.append({"op": "render", "regenerate": False, "kill": None})
    scn["steps"] = steps
    return scn


# ------------------------------------------------------------------ reading pages

class Malformed(Exception):
    pass


VOID = {"meta", "link", "br", "hr", "img", "input"}


class Tree(html.parser.HTMLParser):
    def __init__(self):
        html.parser.HTMLParser.__init__(self, convert_charrefs=True)
        self.root = ["", {}, []]
        self.stack = [self.root]
        self.comments = []

    def handle_starttag(self, tag, attrs):
        n = [tag, dict(attrs), []]
        self.stack[-1][2].append(n)
        if tag not in VOID:
            self.stack.append(n)

    def handle_endtag(self, tag):
        if self.stack[-1][0] != tag:
            raise Malformed("</%s> in <%s>" % (tag, self.stack[-1][0]))
        self.stack.pop()

    def handle_data(self, d):
        c = self.stack[-1][2]
        if c and isinstance(c[-1], str):
            c[-1] += d
        else:
            c.append(d)

    def handle_comment(self, d):
        self.comments.append(d.strip())


def parse(text):
    p = Tree()
    p.feed(text)
    p.close()
    if len(p.stack) != 1 or not text.rstrip().endswith("</html>"):
        raise Malformed("not complete")
    return p


def find(n, tag):
    for c in n[2]:
        if isinstance(c, list):
            if c[0] == tag:
                yield c
            yield from find(c, tag)


def text(n):
    """The text of an element which has nothing but text"""
    if any(isinstance(c, list) for c in n[2]):
        raise Malformed("elements in <%s>" % n[0])
    return "".join(n[2])


def link(n):
    """(target, text) of an element with a link and nothing else"""
    a = [c for c in n[2] if isinstance(c, list)]
    if len(a) != 1 or a[0][0] != "a" or "".join(c for c in n[2] if isinstance(c, str)).strip():
        raise Malformed("no link")
    return a[0][1]["href"], text(a[0])


class Reader:
    def __init__(self, base):
        self.zero = real_dt.fromtimestamp(base, UTC)

    def time(self, s):
        if s == "":
            return NOTIME
        try:
            d = real_dt.fromisoformat(s)
        except ValueError:
            return BAD
        return pair(d - self.zero) if d.tzinfo else {"s": -2, "us": 0}

    def whole(self, s):
        """without fractions of seconds, and as on a clock on the wall, as no offset is shown if there are fractions"""
        if s == "":
            return NOTIME
        try:
            return self.civil(real_dt.fromisoformat(s))
        except ValueError:
            return BAD

    def civil(self, d):
        """which of two equal readings of the clock is meant is dropped"""
        return pair(d.astimezone().replace(tzinfo=None, microsecond=0, fold=0).astimezone() - self.zero)

    def target(self, path, href):
        """where a link leads, as a path below html/"""
        u = urllib.parse.urljoin("http://h/" + urllib.parse.quote(os.path.dirname(path) + "/" if os.path.dirname(path) else ""), href.replace(" ", "%20"))
        if not u.startswith("http://h/"):
            return "elsewhere: " + href
        p = urllib.parse.unquote(u[len("http://h/"):])
        return p + "index.html" if p == "" or p.endswith("/") else p

    def row(self, path, tr, short):
        td = [c for c in tr[2] if isinstance(c, list)]
        href, stop = link(td[0])
        i = 1
        m = re.fullmatch(r"(.*)/([^/]*)/index\.html", self.target(path, href))
        job = m.group(1) if m else ""
        if short:
            if text(td[1]) != job:
                raise Malformed("job of a row")
            i = 2
        return {"id": m.group(2) if m else "", "job": job, "stop": (self.whole if short else self.time)(stop), "duration": pair(parse_td(text(td[i]))), "code": int(text(td[i + 1])),
                "danger": tr[1].get("class") == "danger", "link": self.target(path, href)}

    def read(self, path, raw):
        if path.endswith(".gz"):
            raw = gzip.decompress(raw)
        p = parse(raw.decode("utf-8"))
        n = path.count("/")
        title = text(next(find(p.root, "title")))
        custom = "custom" in p.comments
        css = [self.target(path, x[1]["href"]) for x in find(p.root, "link") if x[1].get("rel") == "stylesheet"]
        c = {"title": title, "custom": custom}
        if n == 2:
            c["kind"] = "run"
            href, c["job"] = link(next(find(p.root, "h1")))
            c["up"] = self.target(path, href)
            rows = {}
            for tr in find(p.root, "tr"):
                (th,), (td,) = list(find(tr, "th")), list(find(tr, "td"))
                if text(th) in rows:
                    raise Malformed("twice: " + text(th))
                rows[text(th)] = (text(td), tr[1].get("class") == "danger")
            c["id"] = rows.pop("Run ID")[0]
            m = re.fullmatch(r"(.*) \(([^()]*)\)", rows.pop("Trigger")[0], re.S)
            c["trigger"], c["at"] = [ord(x) for x in m.group(1)], self.time(m.group(2))
            d = rows.pop("Description", None)
            c["description"] = {"have": d is not None, "text": [ord(x) for x in d[0]] if d else []}
            c["start"], c["stop"] = self.time(rows.pop("Start time")[0]), self.time(rows.pop("Stop time")[0])
            c["duration"] = pair(parse_td(rows.pop("Duration")[0]))
            x = rows.pop("Exit code")
            c["code"], c["danger"] = int(x[0]), x[1]
            if rows:
                raise Malformed("rows")
            (pre,) = list(find(p.root, "pre"))
            c["output"] = [ord(x) for x in text(pre)]
        elif n == 1:
            c["kind"] = "job"
            href, c["job"] = link(next(find(p.root, "h1")))
            c["up"] = self.target(path, href)
            c["css"] = css[0] if css else ""
            trs = list(find(p.root, "tr"))
            c["rows"] = [self.row(path, tr, False) for tr in trs[1:]]
            for x in c["rows"]:
                # links of the page of a job
                pass
        else:
            c["kind"] = "index"
            c["css"] = css[0] if css else ""
            failed, latest, jobs = list(find(p.root, "table"))
            c["failed"] = [self.row(path, tr, True) for tr in list(find(failed, "tr"))[1:]]
            c["latest"] = [self.row(path, tr, True) for tr in list(find(latest, "tr"))[1:]]
            c["jobs"] = []
            for tr in list(find(jobs, "tr"))[1:]:
                td = [x for x in tr[2] if isinstance(x, list)]
                href, name = link(td[0])
                d = text(td[2])
                c["jobs"].append({"job": name, "link": self.target(path, href), "last": self.whole(text(td[1])), "duration": pair(parse_td(d)) if d else NOTIME,
                                  "good": self.whole(text(td[3])), "danger": tr[1].get("class") == "danger"})
        return c


# ------------------------------------------------------------------ running it

def usec(ms, frac):
    t = ms * 1000 + frac
    return {"s": t // 1000000, "us": t % 1000000}


def run_scenario(scn):
    os.environ["TZ"] = scn["local"]
    time.tzset()
    import fakedb
    fakedb.install()
    nul = os.open(os.devnull, os.O_RDWR)
    if not os.environ.get("DSV_TB"):
        os.dup2(nul, 2)
    w = tlc.scratch("dsv-render-")
    try:
        import dsari
        import dsari.config
        import dsari.database
        import dsari.render
        base = scn["base"]
        zero = real_dt.fromtimestamp(base, UTC)
        data = os.path.join(w, "var")
        htm = os.path.join(data, "html")
        reader = Reader(base)
        tdir = os.path.join(REPO, "dsari", "templates")
        with open(os.path.join(tdir, "darkly.min.css"), "rb") as f:
            sheet = f.read().rstrip(b"\n")

        def times(run):
            f = run.get("frac", [0, 0, 0])
            t = {"sched": usec(run["sched"], f[0]), "start": usec(run["start"], f[1])}
            if "stop" in run:
                t["stop"] = usec(run["stop"], f[2])
            return t

        def inst(t):
            return (zero + _dt.timedelta(seconds=t["s"], microseconds=t["us"])).astimezone()

        def obj(run):
            o = dsari.Run(dsari.Job(run["job"]), id=run["id"])
            t = times(run)
            o.schedule_time, o.start_time = inst(t["sched"]), inst(t["start"])
            o.trigger_type, o.trigger_data, o.run_data = run["ttype"], run["tdata"], run["rdata"]
            if "stop" in run:
                o.stop_time, o.exit_code = inst(t["stop"]), run["code"]
            return o

        def show(run):
            td = run["tdata"]
            label = ("Schedule" if run["ttype"] == "schedule" else str(td.get("type") or "File"))
            d = td.get("description")
            return {"trigger": [ord(c) for c in label], "description": {"have": bool(d), "text": [ord(c) for c in str(d)] if d else []}}

        def rec(run):
            t = times(run)
            return {"id": run["id"], "job": run["job"], "sched": t["sched"], "start": t["start"], "stop": t.get("stop", NOTIME), "code": run.get("code", 9999),
                    "ttype": run["ttype"], "tdata": canon(run["tdata"]), "rdata": canon(run["rdata"]), "show": show(run)} | civil(t)

        def civil(t):
            return {"wall": {"start": reader.civil(inst(t["start"])), "stop": reader.civil(inst(t["stop"])) if "stop" in t else NOTIME}}

        def seen(x):
            return {"id": str(x.id), "job": x.job.name, "sched": pair(x.schedule_time - zero), "start": pair(x.start_time - zero),
                    "stop": pair(x.stop_time - zero) if x.stop_time else NOTIME, "code": 9999 if x.exit_code is None else x.exit_code, "ttype": x.trigger_type,
                    "tdata": canon(x.trigger_data), "rdata": canon(x.run_data), "show": show({"ttype": x.trigger_type, "tdata": x.trigger_data})} | civil({"start": pair(x.start_time - zero), **({"stop": pair(x.stop_time - zero)} if x.stop_time else {})})
        tr = [{"e": "header", "name": scn["name"]}]
        writer = None
        state = {}

        def scan():
            """{path: (identity, bytes)} of the pages"""
            res = {}
            for d, _, fs in os.walk(htm):
                for f in fs:
                    if f in ("index.html", "index.html.gz"):
                        fn = os.path.join(d, f)
                        st = os.stat(fn)
                        with open(fn, "rb") as h:
                            res[os.path.relpath(fn, htm)] = ((st.st_ino, st.st_mtime_ns), h.read())
            return res

        def content(path, raw):
            try:
                return {"ok": True, "c": reader.read(path, raw)}
            except Exception as e:
                return {"ok": False, "c": {"kind": "bad"}, "why": "%s: %s" % (type(e).__name__, e)}

        def child(o):
            """dsari-render, killed at the given point"""
            if o["kill"]:
                count = [0]

                def hook(ev, args):
                    if ev not in ("open", "os.rename", "os.mkdir", "os.remove", "os.link", "os.symlink", "os.truncate", "os.rmdir", "shutil.move"):
                        return
                    if not any(isinstance(a, str) and a.startswith(htm) or isinstance(a, bytes) and a.startswith(htm.encode()) for a in args):
                        return
                    if ev == "open" and not (args[2] or 0) & (os.O_WRONLY | os.O_RDWR):
                        return
                    if o["kill"][0] == "size" and ev != "open":
                        return
                    count[0] += 1
                    if count[0] == o["kill"][1]:
                        if o["kill"][0] == "event":
                            os.kill(os.getpid(), signal.SIGKILL)
                        signal.signal(signal.SIGXFSZ, signal.SIG_DFL)
                        resource.setrlimit(resource.RLIMIT_FSIZE, (o["kill"][2], o["kill"][2]))
                        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
                sys.addaudithook(hook)
            sys.argv = ["dsari-render", "-c", w] + (["--regenerate"] if o["regenerate"] else [])
            return dsari.render.main() or 0
        for o in scn["steps"]:
            if o["op"] == "config":
                c = {"jobs": {n: {"command": ["true"], **({"render_reports": False} if n in o["off"] else {})} for n in scn["names"]}, "data_dir": data}
                if scn["backend"] == "postgresql":
                    c["database"] = {"type": "postgresql", "dsn": "dbname=dsari"}
                elif scn["backend"] == "mysql":
                    c["database"] = {"type": "mysql", "connection": {"db": "dsari"}}
                if o["first"]:
                    c["report_run_output_start"] = o["first"]
                if o["last"]:
                    c["report_run_output_end"] = o["last"]
                if o["gz"]:
                    c["report_html_gz"] = True
                if o["dir"]:
                    td = os.path.join(w, "tpl")
                    shutil.rmtree(td, ignore_errors=True)
                    os.mkdir(td)
                    for k in o["custom"]:
                        with open(os.path.join(tdir, k + ".html")) as f, open(os.path.join(td, k + ".html"), "w") as h:
                            h.write(f.read().replace("</body>", "<!-- custom -->\n</body>"))
                    c["template_dir"] = td
                with open(os.path.join(w, "dsari.json"), "w") as f:
                    json.dump(c, f)
                if writer is None:
                    writer = dsari.database.get_database(dsari.config.get_config(w))
                tr.append({"e": "config", "cfg": {"jobs": sorted(n for n in scn["names"] if n not in o["off"]), "first": o["first"], "last": o["last"], "gz": o["gz"], "custom": o["custom"]}})
            elif o["op"] == "output":
                d = os.path.join(data, "runs", o["job"], o["id"])
                os.makedirs(d, exist_ok=True)
                raw = bytes.fromhex(o["raw"])
                if o["form"] != "none":
                    with open(os.path.join(d, "output.txt" + o["form"]), "wb") as f:
                        f.write({"": lambda x: x, ".gz": gzip.compress, ".xz": lzma.compress}[o["form"]](raw))
                tr.append({"e": "output", "id": o["id"], "have": o["form"] != "none", "text": [ord(c) for c in raw.decode("utf-8", "replace")] if o["form"] != "none" else []})
            elif o["op"] in ("start", "finish", "clear"):
                ev = {"e": o["op"]}
                if o["op"] == "clear":
                    writer.clear_runs_running()
                else:
                    try:
                        (writer.insert_running_run if o["op"] == "start" else writer.insert_run)(obj(o["run"]))
                    except Exception:
                        # what cannot be stored is a matter of the store (C22)
                        if hasattr(writer, "db_conn"):
                            writer.db_conn.rollback()
                        continue
                    ev["run"] = rec(o["run"])
                tr.append(ev)
            elif o["op"] == "render":
                sys.stdout.flush()
                pid = os.fork()
                if pid == 0:
                    os.dup2(nul, 1)
                    if not os.environ.get("DSV_TB"):
                        os.dup2(nul, 2)
                    rc = 1
                    try:
                        rc = child(o)
                    except SystemExit as e:
                        rc = e.code if isinstance(e.code, int) else 0 if e.code is None else 1
                    except BaseException:
                        import traceback
                        traceback.print_exc()
                    os._exit(rc)
                _, st = os.waitpid(pid, 0)
                after = scan()
                css = os.path.join(htm, "darkly.min.css")
                css = "missing" if not os.path.isfile(css) else "ok" if open(css, "rb").read().rstrip(b"\n") == sheet else "bad"
                tr.append({"e": "render", "regenerate": o["regenerate"], "killed": os.WIFSIGNALED(st), "rc": os.WEXITSTATUS(st) if os.WIFEXITED(st) else -1,
                           "changed": {p: content(p, x[1]) for p, x in after.items() if p not in state or state[p][0] != x[0]},
                           "written": sorted(p for p, x in after.items() if p not in state or state[p][0] != x[0]),
                           "removed": sorted(p for p in state if p not in after), "css": css,
                           "db": {"runs": [seen(x) for x in writer.get_runs()], "running": [seen(x) for x in writer.get_runs(runs_running=True)]}})
                state = after
        return tr
    finally:
        shutil.rmtree(w, ignore_errors=True)


def preload():
    sys.path.insert(0, REPO)
    os.environ["DSARI_HOME"] = "/dev/null/dsari"
    try:
        import dsari.render  # noqa: F401
    except Exception:
        pass


def explore(scns):
    traces = forkpool.map(run_scenario, scns, preload)
    bad, stats = tlc.check_traces("RenderTrace", traces)
    return traces, bad, stats


def check(res, tier, seed):
    n, rounds = (350, 1) if tier == "quick" else (1500, 6)
    m = tlc.model_check("MCRender", "MCRender.cfg" if tier == "quick" else "MCRenderDeep.cfg")
    refuted = [] if tier == "quick" else [tlc.model_refuted("MCRender", "MCRenderBug_%s.cfg" % b) for b in ("inplace", "runsfirst")]
    st = tr = nt = 0
    hits, samples = {}, []
    for k in range(rounds):
        scns = [scenario("%d.%d.%d" % (seed, k, i)) for i in range(n)]
        traces, bad, stats = explore(scns)
        st += stats["states"]
        tr += stats["transitions"]
        nt += len(traces)
        for h, c in stats["hits"].items():
            hits[h] = hits.get(h, 0) + c
        samples = samples or [{"scenario": t[0]["name"], "events": [e["e"] for e in t[1:]], "pages": t[-1]["written"]} for t in traces[:2]]
        for k2, l, c, _ in bad:
            e = {x: y for x, y in traces[k2][l].items() if x != "db"}
            res.violation(c, "scenario %s, event %d: %s" % (scns[k2]["name"], l, json.dumps(e)[:300]),
                          {"kind": "render", "property": "C19", "clause": c, "event": l, "scenario": scns[k2]})
        if res.violations:
            break
    res.coverage = {"states": st + m["states"], "transitions": tr + m["transitions"], "specification_models": [m] + refuted, "traces_validated_against_impl": nt, "kinds": hits, "samples": samples}
    res.assumptions = ["Python's html.parser reads a page as a browser does", "a killed process leaves behind what it had written (no loss of power)"]


def replay(p):
    traces, bad, _ = explore([p["scenario"]])
    for k, l, c, ps in bad:
        print("violated: event %d %s %s" % (l, c, json.dumps({x: y for x, y in traces[k][l].items() if x != "db"})[:1500]))
    return 1 if bad else 0


if __name__ == "__main__":
    scns = [scenario(i) for i in range(int(sys.argv[1]), int(sys.argv[2]))]
    t0 = time.time()
    traces = forkpool.map(run_scenario, scns, preload)
    t1 = time.time()
    bad, stats = tlc.check_traces("RenderTrace", traces)
    print(stats, "%.1f s driver, %.1f s TLC" % (t1 - t0, time.time() - t1))
    for k, l, c, ps in bad[:200]:
        e = traces[k][l]
        print(scns[k]["name"], l, c, "killed" if e["killed"] else "", e["rc"], json.dumps([(p, x.get("why", x["c"])) for p, x in e["changed"].items() if os.environ.get("V") or not x["ok"]])[:1500])
