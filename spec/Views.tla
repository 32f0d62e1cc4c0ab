-------------------------------- MODULE Views --------------------------------
(* What dsari-info and dsari-prometheus-exporter show while the daemon works.  A tool reads the store in several steps;
   what it shows must agree with the states of the store during the time of reading (its window).

   State: st       the store
          win      the states of the store since the tool began
          hist     [st, from, to] of all states with the time they lasted (milliseconds), for what is cached
          out      outputs: id -> [have, text]
          jobs     the jobs of the configuration in use by the exporter                                             *)
EXTENDS Store
Sch == INSTANCE Schedule

MaxT == 2000000000
ViewsInit(h) == [st |-> StoreEmpty, win |-> <<>>, hist |-> <<[st |-> StoreEmpty, from |-> -MaxT, to |-> MaxT]>>, out |-> <<>>, jobs |-> h.jobs, now |-> h.now]

WithStore(s, st) ==
  [s EXCEPT !.st = st,
            !.win = IF @ = <<>> THEN @ ELSE Append(@, st),
            !.hist = Append([@ EXCEPT ![Len(@)].to = s.now], [st |-> st, from |-> s.now, to |-> MaxT])]

ViewsNext(s, ev) ==
  CASE IsOp(ev) -> WithStore(s, Op(s.st, ev))
    [] ev.e = "output" -> [s EXCEPT !.out = (ev.id :> [have |-> ev.have, text |-> ev.text]) @@ @]
    [] ev.e = "tick" -> [s EXCEPT !.now = ev.now]
    [] ev.e \in {"begin", "mark"} -> [s EXCEPT !.win = <<s.st>>]
    [] ev.e \in {"end", "scrape"} -> [s EXCEPT !.win = <<>>]
    [] ev.e = "config" -> IF ev.valid THEN [s EXCEPT !.jobs = ev.jobs] ELSE s
    [] OTHER -> s

Ids(q) == {r.id : r \in Range2(q)}
Both(st) == Range2(st.runs) \cup {r \in Range2(st.running) : r.id \notin Ids(st.runs)}
InAny(win, F(_)) == UNION {F(win[i]) : i \in 1..Len(win)}
InAll(win, F(_)) == {x \in F(win[1]) : \A i \in 1..Len(win) : x \in F(win[i])}

\* ---------------------------------------------------------------- dsari-info run list
Passes(r, ev) == (ev.names.given => r.job \in Range2(ev.names.v)) /\ (ev.ids.given => r.id \in Range2(ev.ids.v))
Matching(st, ev) == {r \in Both(st) : Passes(r, ev)}
MatchingIds(st, ev) == {r.id : r \in Matching(st, ev)}
\* the line of a run in one of the formats
Full(f) == f \in {"json", "yaml"}
Line(r, ev) == IF Full(ev.format) THEN r ELSE [r EXCEPT !.tdata = "", !.rdata = ""]
Sorted(q, up) == \A i \in 1..(Len(q) - 1) : IF up THEN Le(q[i].start, q[i + 1].start) ELSE Le(q[i + 1].start, q[i].start)
BadRuns(s, ev) ==
  LET ids == {x.id : x \in Range2(ev.rows)}
      F(st) == Matching(st, ev)
      I(st) == MatchingIds(st, ev)
      known == InAny(s.win, F) IN
  IF ev.rc # 0 THEN {"failed"} ELSE
  (IF Len(ev.rows) # Cardinality(ids) THEN {"run_twice"} ELSE {})
  \cup (IF InAll(s.win, I) \subseteq ids THEN {} ELSE {"run_lost"})
  \cup (IF ids \subseteq {r.id : r \in known} THEN {} ELSE {"run_unknown"})
  \cup (IF \E x \in Range2(ev.rows) : x.id \in {r.id : r \in known} /\ x \notin {Line(r, ev) : r \in known} THEN {"run_data"} ELSE {})
  \cup (IF (ev.format = "tabular" /\ ~Sorted(ev.rows, TRUE)) \/ (ev.format = "pretty" /\ ~Sorted(ev.rows, FALSE)) THEN {"order"} ELSE {})

\* ---------------------------------------------------------------- dsari-info run output, run tail
BadOutput(s, ev) ==
  LET I(st) == {r.id : r \in Both(st)}
      o == IF ev.id \in DOMAIN s.out THEN s.out[ev.id] ELSE [have |-> FALSE, text |-> <<>>] IN
  IF ev.id \in InAll(s.win, I) THEN (IF ev.rc # 0 THEN {"output_failed"} ELSE IF ev.text # (IF o.have THEN o.text ELSE <<>>) THEN {"output_text"} ELSE {})
  ELSE IF ev.id \notin InAny(s.win, I) THEN (IF ev.rc = 0 THEN {"output_of_unknown"} ELSE IF ev.rc # 2 THEN {"output_failed"} ELSE {})
  ELSE IF ev.rc \notin {0, 2} THEN {"output_failed"} ELSE {}
HasOutput(s, id) == id \in DOMAIN s.out /\ s.out[id].have
Tailable(st, ev) == {r.id : r \in {x \in Range2(st.running) : ev.ids.given => x.id \in Range2(ev.ids.v)}}
BadTail(s, ev) ==
  LET I(st) == Tailable(st, ev)
      must == {id \in InAll(s.win, I) : HasOutput(s, id)}
      may == {id \in InAny(s.win, I) : HasOutput(s, id)} IN
  IF ev.rc # 0 THEN {"tail_failed"} ELSE
  (IF must \subseteq Range2(ev.files) THEN {} ELSE {"tail_missed"})
  \cup (IF Range2(ev.files) \subseteq may /\ Len(ev.files) = Cardinality(Range2(ev.files)) THEN {} ELSE {"tail_wrong"})

\* ---------------------------------------------------------------- dsari-info job list
Listed(s, ev) == {n \in DOMAIN s.jobs : ev.names.given => n \in Range2(ev.names.v)}
Query(s, ev, row) ==
  LET j == s.jobs[row.name] IN
  [e |-> "next", job |-> row.name, crc |-> j.crc, sub |-> j.sub, s |-> j.s, zone |-> ev.zones[j.z], start |-> ev.now, res |-> row.next]
BadJobs(s, ev) ==
  LET names == {x.name : x \in Range2(ev.rows)} IN
  IF ev.rc # 0 THEN {"failed"} ELSE
  (IF names # Listed(s, ev) THEN {"jobs_listed"} ELSE {})
  \cup (IF Len(ev.rows) # Cardinality(names) THEN {"job_twice"} ELSE {})
  \cup {c \in {"job_settings"} : \E x \in Range2(ev.rows) : x.name \in Listed(s, ev) /\ x.settings # s.jobs[x.name][ev.format]}
  \cup {c \in {"job_next"} : \E x \in Range2(ev.rows) : x.name \in Listed(s, ev) /\
          IF s.jobs[x.name].scheduled THEN Sch!Bad(Query(s, ev, x)) # {} ELSE x.next.k # "none"}

\* ---------------------------------------------------------------- dsari-info shell
\* the session sees the configuration and the store
BadShell(s, ev) ==
  LET I(st) == {r.id : r \in Range2(st.runs)}
      x == ev.seen[1] IN
  IF ev.rc # 0 \/ Len(ev.seen) # 1 THEN {"shell"} ELSE
  (IF Range2(x.jobs) = DOMAIN s.jobs /\ Range2(x.config) = DOMAIN s.jobs /\ x.version THEN {} ELSE {"shell_config"})
  \cup (IF InAll(s.win, I) \subseteq Range2(x.runs) /\ Range2(x.runs) \subseteq InAny(s.win, I) THEN {} ELSE {"shell_runs"})

BadEnd(s, ev) ==
  (CASE ev.cmd = "runs" -> BadRuns(s, ev)
     [] ev.cmd = "output" -> BadOutput(s, ev)
     [] ev.cmd = "tail" -> BadTail(s, ev)
     [] ev.cmd = "shell" -> BadShell(s, ev)
     [] ev.cmd = "jobs" -> BadJobs(s, ev))
  \cup (IF SameStore(s.st, ev.db) THEN {} ELSE {"changed_database"})

\* ---------------------------------------------------------------- dsari-prometheus-exporter
JobRuns(st, j) == {r \in Range2(st.runs) : r.job = j}
\* the sum of a number over the runs of a set
SumOf(S, F(_)) == FoldSet(LAMBDA r, acc : acc + F(r), 0, S)
Ms(a, b) == (b.s - a.s) * 1000 + ((b.us - a.us) \div 1000)
Duration(r) == Ms(r.start, r.stop)
Latency(r) == Ms(r.sched, r.start)
\* the numbers of a set of runs in ascending order
Ascending(S, F(_)) == LET q == SortSeq(SetToSeq({<<r.id, F(r)>> : r \in S}), LAMBDA a, b : a[2] < b[2]) IN [i \in 1..Len(q) |-> q[i][2]]
\* the interpolated quantile in microseconds
Quantile(q, permille) ==
  LET k == (Len(q) - 1) * permille  f == k \div 1000  rem == k % 1000 IN
  IF rem = 0 THEN q[f + 1] * 1000 ELSE q[f + 1] * 1000 + (q[f + 2] - q[f + 1]) * rem
Near(a, b) == a - b \in {-1, 0, 1}
Summary(S, F(_), got, quantiles) ==
  IF S = {} THEN got = [n |-> -1, sum |-> 0, q |-> <<>>]
  ELSE /\ got.n = Cardinality(S)
       /\ got.sum = SumOf(S, F)
       /\ Len(got.q) = Len(quantiles)
       /\ LET a == Ascending(S, F) IN \A i \in 1..Len(quantiles) : Near(got.q[i], Quantile(a, quantiles[i]))
\* what was said about the job agrees with this state of the store
Counts(st, j, m) ==
  LET S == JobRuns(st, j) IN
  /\ m.count = Cardinality(S)
  /\ m.good = Cardinality({r \in S : r.code = 0})
  /\ m.bad = Cardinality({r \in S : r.code # 0})
LastRun(st, j, m) ==
  LET S == JobRuns(st, j) IN
  IF S = {} THEN m.last = <<>>
  ELSE Len(m.last) = 1 /\ m.last[1] \in {[code |-> r.code, sched |-> r.sched, start |-> r.start, stop |-> r.stop] : r \in Latest(S)}
Agrees(st, j, m, quantiles) ==
  /\ Counts(st, j, m) /\ LastRun(st, j, m)
  /\ Summary(JobRuns(st, j), Duration, m.duration, quantiles)
  /\ Summary(JobRuns(st, j), Latency, m.latency, quantiles)
Fresh(s, cache) == {s.hist[i].st : i \in {i \in 1..Len(s.hist) : s.hist[i].to >= s.now - cache}}
RunningPairs(st, jobs) == {[id |-> r.id, job |-> r.job, sched |-> r.sched, start |-> r.start] : r \in {x \in Range2(st.running) : x.job \in jobs}}

BadScrape(s, ev, h) ==
  LET J == DOMAIN s.jobs
      F(st) == RunningPairs(st, J)
      pairs == Range2(ev.running) IN
  IF ev.rc # 200 THEN {"scrape_failed"} ELSE
  (IF ev.malformed THEN {"malformed"} ELSE {})
  \cup (IF DOMAIN ev.metrics # J THEN {"jobs_reported"} ELSE {})
  \cup (IF \A j \in J \cap DOMAIN ev.metrics : \E st \in Fresh(s, h.cache) : Agrees(st, j, ev.metrics[j], h.quantiles) THEN {}
        ELSE IF \A j \in J \cap DOMAIN ev.metrics : \E st \in Range2([i \in 1..Len(s.hist) |-> s.hist[i].st]) : Agrees(st, j, ev.metrics[j], h.quantiles) THEN {"stale"}
        ELSE IF \A j \in J \cap DOMAIN ev.metrics : \E st \in Fresh(s, h.cache) : Counts(st, j, ev.metrics[j]) /\ LastRun(st, j, ev.metrics[j]) THEN {"summary"}
        ELSE IF \A j \in J \cap DOMAIN ev.metrics : \E st \in Fresh(s, h.cache) : Counts(st, j, ev.metrics[j]) THEN {"last_run"}
        ELSE {"counts"})
  \cup (IF h.norunning THEN (IF Len(ev.running) > 0 THEN {"running_reported"} ELSE {})
        ELSE (IF Len(ev.running) # Cardinality(pairs) THEN {"running_twice"} ELSE {})
             \cup (IF InAll(s.win, F) \subseteq pairs THEN {} ELSE {"running_lost"})
             \cup (IF pairs \subseteq InAny(s.win, F) THEN {} ELSE {"running_wrong"}))
  \cup (IF ev.time # s.now THEN {"time"} ELSE {})
  \cup (IF SameStore(s.st, ev.db) THEN {} ELSE {"changed_database"})

ViewsBad(s, ev, h) ==
  CASE ev.e = "end" -> BadEnd(s, ev)
    [] ev.e = "scrape" -> BadScrape(s, ev, h)
    [] ev.e = "mark" -> IF {id \in InAll(s.win, LAMBDA st : Tailable(st, ev)) : HasOutput(s, id)} # {} THEN {"tail_missed"} ELSE {}
    [] ev.e = "blocked" -> {"blocked_daemon"}
    [] ev.e = "http" -> IF ev.rc # 404 THEN {"http"} ELSE {}
    [] OTHER -> {}
=============================================================================
