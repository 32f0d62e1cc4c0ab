------------------------------ MODULE MCRender ------------------------------
(* dsari-render as it works: it reads the store once, writes the pages of the jobs of which a run has no page yet, the
   index, and last the pages of these runs, each page under another name first, and may be killed between any two steps,
   while the daemon goes on and the reports of jobs are switched on and off. It is judged by Render.tla.
   Atomic = FALSE writes pages in place, RunsLast = FALSE writes the pages of the runs first: both must be found wrong. *)
EXTENDS Render
CONSTANTS MaxRuns, MaxKills, MaxRegens, Atomic, RunsLast, Toggle
Jobs == <<"a", "b">>
T(i) == [s |-> i, us |-> 0]
Nothing == [have |-> FALSE, text |-> <<>>]
R(i, c) == [id |-> "r" \o ToString(i), job |-> IF i % 2 = 0 THEN "a" ELSE "b", sched |-> T(i), start |-> T(i), stop |-> T(i + 10), code |-> c, ttype |-> "schedule", tdata |-> "{}",
            rdata |-> "{}", wall |-> [start |-> T(i), stop |-> T(i + 10)], show |-> [trigger |-> <<83>>, description |-> Nothing]]
VARIABLES s,        \* as in Render, before the render in progress
          cur,      \* the store and the settings now
          todo,     \* what the render in progress has yet to write: [p, c]
          done,     \* what it has written
          dirty,    \* a page being written (in place)
          phase, regen, view, kills, regens
vars == <<s, cur, todo, done, dirty, phase, regen, view, kills, regens>>

Rows(S, n, F(_)) == LET q == SetToSortSeq(S, LAMBDA x, y : y.stop.s < x.stop.s) IN [i \in 1..(IF Len(q) < n THEN Len(q) ELSE n) |-> F(q[i])]
Ok(c) == [ok |-> TRUE, c |-> c]
GenRun(v, r) == [p |-> RunPage(v.cfg, r), c |-> Ok(RunContent(v, r))]
GenJob(v, j) == [p |-> JobPage(v.cfg, j),
                 c |-> Ok([kind |-> "job", title |-> j, job |-> j, up |-> "index.html", custom |-> FALSE, css |-> "darkly.min.css", rows |-> Rows(OfJob(v.st, j), 99, LAMBDA r : Row(r, ""))])]
Newest1(S) == CHOOSE r \in S : \A x \in S : x.stop.s <= r.stop.s
GenJobRow(v, j) ==
  LET S == OfJob(v.st, j)  G == {r \in S : r.code = 0}  base == [job |-> j, link |-> j \o "/index.html"] IN
  IF S = {} THEN [last |-> NoTime, good |-> NoTime, duration |-> NoTime, danger |-> FALSE] @@ base
  ELSE [last |-> Newest1(S).start, duration |-> Elapsed(Newest1(S).start, Newest1(S).stop), good |-> IF G = {} THEN NoTime ELSE Newest1(G).start,
        danger |-> G = {} \/ Newest1(G) # Newest1(S)] @@ base
GenIndex(v) == [p |-> IndexPage(v.cfg),
                c |-> Ok([kind |-> "index", title |-> "dsari", custom |-> FALSE, css |-> "darkly.min.css", latest |-> Rows(Shown(v), 25, Short),
                          failed |-> Rows({r \in Shown(v) : r.code # 0}, 10, Short), jobs |-> [i \in 1..Len(v.cfg.jobs) |-> GenJobRow(v, v.cfg.jobs[i])]])]

Plan(v, re) ==
  LET miss == {r \in Shown(v) : re \/ RunPage(v.cfg, r) \notin DOMAIN v.tree}
      js == SelectSeq(v.cfg.jobs, LAMBDA j : re \/ \E r \in miss : r.job = j)
      runs == LET q == SetToSeq(miss) IN [i \in 1..Len(q) |-> GenRun(v, q[i])]
      over == [i \in 1..Len(js) |-> GenJob(v, js[i])] \o (IF re \/ miss # {} THEN <<GenIndex(v)>> ELSE <<>>)
  IN IF RunsLast THEN over \o runs ELSE runs \o over

Init == /\ s = [RenderInit EXCEPT !.cfg = [jobs |-> Jobs, first |-> 0, last |-> 0, gz |-> FALSE, custom |-> <<>>]]
        /\ cur = [st |-> StoreEmpty, cfg |-> s.cfg] /\ todo = <<>> /\ done = <<>> /\ dirty = "" /\ phase = "idle" /\ regen = FALSE /\ view = <<>> /\ kills = 0 /\ regens = 0

Daemon == /\ Len(cur.st.runs) < MaxRuns /\ \E c \in {0, 1} : cur' = [cur EXCEPT !.st = Finish(@, R(Len(@.runs), c))]
          /\ UNCHANGED <<s, todo, done, dirty, phase, regen, view, kills, regens>>
Switch == /\ Toggle /\ phase = "idle" /\ cur' = [cur EXCEPT !.cfg.jobs = IF @ = Jobs THEN <<"a">> ELSE Jobs]
          /\ UNCHANGED <<s, todo, done, dirty, phase, regen, view, kills, regens>>
Begin == /\ phase = "idle" /\ \E re \in {FALSE, TRUE} :
              /\ (re => regens < MaxRegens)
              /\ regens' = (IF re THEN regens + 1 ELSE regens) /\ regen' = re
              /\ s' = [s EXCEPT !.st = cur.st, !.cfg = cur.cfg] /\ todo' = Plan(s', re)
         /\ phase' = "render" /\ done' = <<>> /\ dirty' = "" /\ view' = <<>> /\ UNCHANGED <<cur, kills>>
Open == phase = "render" /\ ~Atomic /\ todo # <<>> /\ dirty = "" /\ dirty' = Head(todo).p /\ UNCHANGED <<s, cur, todo, done, phase, regen, view, kills, regens>>
Put == /\ phase = "render" /\ todo # <<>> /\ (Atomic \/ dirty # "") /\ dirty' = "" /\ todo' = Tail(todo) /\ done' = Append(done, Head(todo))
       /\ UNCHANGED <<s, cur, phase, regen, view, kills, regens>>
\* what an observer sees of it
Event(killed) ==
  LET torn == IF dirty = "" THEN {} ELSE {dirty}
      w == {done[i].p : i \in 1..Len(done)} \cup torn IN
  [e |-> "render", regenerate |-> regen, killed |-> killed, rc |-> IF killed THEN -1 ELSE 0, removed |-> <<>>, css |-> "ok", db |-> s.st, written |-> SetToSeq(w),
   changed |-> [p \in w |-> IF p \in torn THEN [ok |-> FALSE, c |-> [kind |-> "bad"]] ELSE (CHOOSE x \in Range(done) : x.p = p).c]]
\* judged in the next state (view); the store which the judgement assumes is that at the beginning of the render
Finish1(killed) == LET ev == Event(killed) IN /\ view' = <<RenderBad(s, ev), killed>> /\ s' = RenderNext(s, ev) /\ phase' = "idle" /\ todo' = <<>> /\ done' = <<>> /\ dirty' = "" /\ regen' = FALSE
Complete == phase = "render" /\ todo = <<>> /\ Finish1(FALSE) /\ UNCHANGED <<cur, kills, regens>>
Kill == phase = "render" /\ kills < MaxKills /\ Finish1(TRUE) /\ kills' = kills + 1 /\ UNCHANGED <<cur, regens>>
Next == Daemon \/ Switch \/ Begin \/ Open \/ Put \/ Complete \/ Kill
Spec == Init /\ [][Next]_vars

Judged == view # <<>> => view[1] = {}
\* whatever is there is complete
Whole1 == Atomic => \A p \in DOMAIN s.tree : s.tree[p].ok
\* the page of a run is only there once the others show the run
Announced ==
  phase = "idle" => \A r \in Range2(s.st.runs) : RunPage(s.cfg, r) \in DOMAIN s.tree =>
    /\ JobPage(s.cfg, r.job) \in DOMAIN s.tree /\ \E i \in 1..Len(s.tree[JobPage(s.cfg, r.job)].c.rows) : s.tree[JobPage(s.cfg, r.job)].c.rows[i].id = r.id
    /\ IndexPage(s.cfg) \in DOMAIN s.tree
=============================================================================
