-------------------------------- MODULE Render --------------------------------
(* The tree of HTML pages which dsari-render makes of the store and the collected outputs, incrementally, and which may
   be killed at any point.

   State: st    the store
          out   outputs: id -> [have, text (code points)]
          cfg   [jobs: names of the jobs with reports, first, last: limits of the excerpt, gz, custom: kinds of pages with an own template]
          tree  path -> content of the pages (as read after each render)
          torn  pages which a killed render has left behind incomplete                                                    *)
EXTENDS Store

RenderInit == [st |-> StoreEmpty, out |-> <<>>, cfg |-> [jobs |-> <<>>, first |-> 0, last |-> 0, gz |-> FALSE, custom |-> <<>>], tree |-> <<>>, torn |-> {}]

Suffix(cfg) == IF cfg.gz THEN ".gz" ELSE ""
Page(cfg, dir) == dir \o "index.html" \o Suffix(cfg)
RunPage(cfg, r) == Page(cfg, r.job \o "/" \o r.id \o "/")
JobPage(cfg, j) == Page(cfg, j \o "/")
IndexPage(cfg) == Page(cfg, "")

\* time from a to b, which may be negative
Elapsed(a, b) == LET d == b.us - a.us IN IF d < 0 THEN [s |-> b.s - a.s - 1, us |-> d + 1000000] ELSE [s |-> b.s - a.s, us |-> d]
Whole(t) == IF t = NoTime THEN t ELSE [s |-> t.s, us |-> 0]      \* no fractions of seconds are shown

\* ---------------------------------------------------------------- what is shown
\* the configured part of an output: from the beginning and from the end, if it is longer than both together
Cut == <<10, 10, 10, 91, 46, 46, 46, 93, 10, 10, 10>>      \* three newlines around [...]
Excerpt(t, cfg) ==
  LET n == Len(t)  a == cfg.first  b == cfg.last IN
  IF (a > 0 \/ b > 0) /\ n > a + b
  THEN SubSeq(t, 1, IF a > n THEN n ELSE a) \o Cut \o (IF b > 0 THEN SubSeq(t, IF b > n THEN 1 ELSE n - b + 1, n) ELSE <<>>)
  ELSE t
OutputOf(s, id) == IF id \in DOMAIN s.out /\ s.out[id].have THEN s.out[id].text ELSE <<>>

\* the trigger: a schedule, a file, or what the file says about itself
RunContent(s, r) ==
  [kind |-> "run", custom |-> "run" \in Range2(s.cfg.custom), title |-> r.job \o " - " \o r.id, job |-> r.job, up |-> JobPage([s.cfg EXCEPT !.gz = FALSE], r.job), id |-> r.id,
   trigger |-> r.show.trigger, at |-> r.sched, description |-> r.show.description,
   start |-> r.start, stop |-> r.stop, duration |-> Elapsed(r.start, r.stop), code |-> r.code, danger |-> r.code # 0, output |-> Excerpt(OutputOf(s, r.id), s.cfg)]

Row(r, rel) == [id |-> r.id, job |-> r.job, stop |-> r.stop, duration |-> Elapsed(r.start, r.stop), code |-> r.code, danger |-> r.code # 0, link |-> r.job \o "/" \o r.id \o "/index.html"]
Short(r) == [Row(r, "") EXCEPT !.stop = r.wall.stop, !.duration = Whole(@)]
Newest(rows, S) ==      \* rows are runs of S, newest first (the order of equal times is open)
  \A i \in 1..(Len(rows) - 1) : LET a == CHOOSE r \in S : r.id = rows[i].id  b == CHOOSE r \in S : r.id = rows[i + 1].id IN Le(b.stop, a.stop)
IsRows(rows, S, R(_)) ==
  /\ \A i \in 1..Len(rows) : \E r \in S : rows[i] = R(r)
  /\ Cardinality({rows[i].id : i \in 1..Len(rows)}) = Len(rows)
  /\ Newest(rows, S)
LatestRows(rows, S, n, R(_)) ==
  /\ IsRows(rows, S, R)
  /\ Len(rows) = (IF Cardinality(S) < n THEN Cardinality(S) ELSE n)
  /\ LET shown == {rows[i].id : i \in 1..Len(rows)} IN \A r \in S : r.id \in shown \/ \A x \in S : x.id \in shown => Le(r.stop, x.stop)

Shown(s) == {r \in Range2(s.st.runs) : r.job \in Range2(s.cfg.jobs)}
IsJobPage(s, j, c) ==
  LET S == OfJob(s.st, j) IN
  /\ c.kind = "job" /\ c.title = j /\ c.job = j /\ c.up = "index.html" /\ c.custom = ("job" \in Range2(s.cfg.custom)) /\ c.css = "darkly.min.css"
  /\ LatestRows(c.rows, S, Cardinality(S), LAMBDA r : Row(r, ""))
JobRow(s, j, row) ==
  LET S == OfJob(s.st, j)  G == {r \in S : r.code = 0} IN
  /\ row.job = j /\ row.link = j \o "/index.html"
  /\ IF S = {} THEN row.last = NoTime /\ row.good = NoTime /\ row.duration = NoTime
     ELSE \E a \in Latest(S) :
            /\ row.last = a.wall.start /\ row.duration = Whole(Elapsed(a.start, a.stop))
            /\ IF G = {} THEN row.good = NoTime /\ row.danger
               ELSE \E g \in Latest(G) : row.good = g.wall.start /\ row.danger = (g.start # a.start)
IsIndex(s, c) ==
  /\ c.kind = "index" /\ c.title = "dsari" /\ c.custom = ("index" \in Range2(s.cfg.custom)) /\ c.css = "darkly.min.css"
  /\ LatestRows(c.latest, Shown(s), 25, Short)
  /\ LatestRows(c.failed, {r \in Shown(s) : r.code # 0}, 10, Short)
  /\ Len(c.jobs) = Len(s.cfg.jobs)
  /\ \A i \in 1..Len(c.jobs) : JobRow(s, s.cfg.jobs[i], c.jobs[i])

\* ---------------------------------------------------------------- judging a render
\* ev: [regenerate, killed, rc, changed: path -> content, removed, written, css: "ok" | "missing" | "bad"]
After(s, ev) == [p \in ((DOMAIN s.tree) \cup (DOMAIN ev.changed)) \ Range2(ev.removed) |-> IF p \in DOMAIN ev.changed THEN ev.changed[p] ELSE s.tree[p]]

\* which page a path is for, now
Owner(s, p) ==
  IF p = IndexPage(s.cfg) THEN [k |-> "index"]
  ELSE IF \E j \in Range2(s.cfg.jobs) : p = JobPage(s.cfg, j) THEN [k |-> "job", j |-> CHOOSE j \in Range2(s.cfg.jobs) : p = JobPage(s.cfg, j)]
  ELSE IF \E r \in Shown(s) : p = RunPage(s.cfg, r) THEN [k |-> "run", r |-> CHOOSE r \in Shown(s) : p = RunPage(s.cfg, r)]
  ELSE [k |-> "none"]
Right(s, o, c) ==
  /\ c.ok
  /\ CASE o.k = "run" -> c.c = RunContent(s, o.r)
       [] o.k = "job" -> IsJobPage(s, o.j, c.c)
       [] o.k = "index" -> IsIndex(s, c.c)
       [] OTHER -> FALSE

RenderBad(s, ev) ==
  LET new == After(s, ev)
      have == DOMAIN s.tree \ s.torn          \* complete pages before
      missing == {r \in Shown(s) : RunPage(s.cfg, r) \notin have}
      fresh == ev.regenerate \/ missing # {} IN
  (IF \E p \in Range2(ev.written) \cup Range2(ev.removed) : Owner(s, p).k = "none" THEN {"unexpected_page"} ELSE {})
  \cup (IF ev.killed THEN {}
        ELSE IF ev.rc # 0 THEN {"render_failed"}
        ELSE (IF \E r \in Shown(s) : RunPage(s.cfg, r) \notin DOMAIN new THEN {"run_page_missing"} ELSE {})
             \cup (IF \E r \in Shown(s) : LET p == RunPage(s.cfg, r) IN
                        p \in DOMAIN new /\ (p \in Range2(ev.written) \/ p \notin have \/ ev.regenerate) /\ ~Right(s, [k |-> "run", r |-> r], new[p])
                   THEN {"run_page"} ELSE {})
             \cup (IF ev.regenerate /\ \E r \in Shown(s) : RunPage(s.cfg, r) \notin Range2(ev.written) THEN {"not_regenerated"} ELSE {})
             \cup (IF ~ev.regenerate /\ \E r \in Shown(s) : RunPage(s.cfg, r) \in have \cap Range2(ev.written) THEN {"rewritten"} ELSE {})
             \cup (IF \E j \in Range2(s.cfg.jobs) : LET p == JobPage(s.cfg, j) IN
                        OfJob(s.st, j) # {} /\ (p \notin DOMAIN new
                          \/ (~Right(s, [k |-> "job", j |-> j], new[p]) /\ (ev.regenerate \/ p \in Range2(ev.written) \/ \E r \in missing : r.job = j \/ p \in s.torn)))
                   THEN {"job_page"} ELSE {})
             \cup (IF fresh /\ (IndexPage(s.cfg) \notin DOMAIN new \/ ~Right(s, [k |-> "index"], new[IndexPage(s.cfg)])) THEN {"index_page"} ELSE {})
             \cup (IF ~fresh /\ IndexPage(s.cfg) \in s.torn \cup Range2(ev.written) /\ IndexPage(s.cfg) \in DOMAIN new
                      /\ ~Right(s, [k |-> "index"], new[IndexPage(s.cfg)]) THEN {"index_page"} ELSE {})
             \cup (IF ev.css # "ok" THEN {"style_sheet"} ELSE {})
             \* whatever is there is a complete page
             \cup (IF \E p \in DOMAIN new : p \notin s.torn /\ ~new[p].ok THEN {"malformed_page"} ELSE {}))
  \cup (IF SameStore(s.st, ev.db) THEN {} ELSE {"changed_database"})

\* a page which a killed render has written and which is not what it should be is not complete
RenderNext(s, ev) ==
  CASE IsOp(ev) -> [s EXCEPT !.st = Op(@, ev)]
    [] ev.e = "output" -> [s EXCEPT !.out = (ev.id :> [have |-> ev.have, text |-> ev.text]) @@ @]
    [] ev.e = "config" -> [s EXCEPT !.cfg = ev.cfg]
    [] ev.e = "render" ->
         LET new == After(s, ev) IN
         [s EXCEPT !.tree = new,
                   !.torn = {p \in DOMAIN new : IF p \in Range2(ev.written) THEN ev.killed /\ ~Right(s, Owner(s, p), new[p]) ELSE p \in s.torn}]
    [] OTHER -> s
=============================================================================
