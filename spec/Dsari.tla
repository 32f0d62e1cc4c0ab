------------------------------- MODULE Dsari -------------------------------
(***************************************************************************)
(* The abstract machine of dsari-daemon.                                   *)
(*                                                                         *)
(* One state s (a record) and one event at a time.  An event is something  *)
(* that is observable from outside: a signal, a trigger file appearing,    *)
(* a process ending, time passing (environment), or a read of the          *)
(* configuration, a trigger file taken, a transaction of the database, a   *)
(* process created, a signal sent, a sleep, the end of the daemon          *)
(* (daemon).                                                               *)
(*                                                                         *)
(*   Bad(h, s, ev)    the set of clauses which event ev violates in s      *)
(*   Apply(h, s, ev)  the state after ev (also if some clause is violated, *)
(*                    so that the rest of a trace is still judged)         *)
(*                                                                         *)
(* A behaviour conforms if Bad is empty at each of its events.  The same   *)
(* two operators are used                                                  *)
(*   - by MCDsari.tla, which generates events itself, explores every       *)
(*     interleaving of a bounded environment with everything a daemon may  *)
(*     do, and checks invariants which are written without reference to    *)
(*     Bad/Apply, and progress (a deadline can always be met);             *)
(*   - by MCLoop.tla, a model of the main loop of the implementation,      *)
(*     whose every step has to be allowed here;                            *)
(*   - by DsariTrace.tla, which reads traces recorded from the real code.  *)
(*                                                                         *)
(* Times are integers (milliseconds in traces, ticks in the models).       *)
(* h is the header: h.cfgs (the configurations that may be in the          *)
(* configuration file), the time constants and facts about the host.       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

NONE == -1
None(x) == x = NONE

Max(a, b) == IF a >= b THEN a ELSE b
Min(a, b) == IF a <= b THEN a ELSE b
Clamp(x, lo, hi) == Max(lo, Min(hi, x))
Range(f) == {f[x] : x \in DOMAIN f}
Restrict(f, S) == [x \in S |-> f[x]]
Without(f, S) == [x \in (DOMAIN f) \ S |-> f[x]]
Has(r, k) == k \in DOMAIN r

(***************************************************************************)
(* Configuration                                                           *)
(*                                                                         *)
(* cfg = [valid, jobs, groups, env, killruns, sgrace]                      *)
(* job = [per, off, until, conc, groups, max, grace, env, cmd, append,     *)
(*        jenkins, jobgroup]                                               *)
(* A schedule is the progression off + k*per not after until (per = 0: no  *)
(* schedule, until = NONE: for ever); that schedules written in dsari's    *)
(* languages have the right occurrences is the subject of Schedule.tla.    *)
(***************************************************************************)
Cfg(h, s) == h.cfgs[s.cfg]
HasJob(h, s, j) == s.cfg # 0 /\ Has(Cfg(h, s).jobs, j)
Job(h, s, j) == Cfg(h, s).jobs[j]

\* first occurrence strictly after t
NextGT(job, t) ==
  IF job.per = 0 THEN NONE
  ELSE LET o == job.off + (((t - job.off) \div job.per) + 1) * job.per
       IN IF job.until # NONE /\ o > job.until THEN NONE ELSE o
NextGE(job, t) == NextGT(job, t - 1)
OnGrid(job, t) == job.per # 0 /\ (t - job.off) % job.per = 0 /\ (job.until = NONE \/ t <= job.until)

GroupMax(h, s, g) == IF Has(Cfg(h, s).groups, g) THEN Cfg(h, s).groups[g] ELSE 1

(***************************************************************************)
(* State                                                                   *)
(***************************************************************************)
Init0 == [ now |-> 0, up |-> "off", cfg |-> 0, cfgT |-> NONE, fresh |-> FALSE,
           pend |-> {}, live |-> << >>, trig |-> {}, running |-> << >>, done |-> << >>,
           sd |-> "no", sdt |-> NONE, sdl |-> NONE, amb |-> FALSE, hup |-> NONE, quit |-> NONE, stall |-> NONE, frozen |-> FALSE,
           idleT |-> 0, n |-> 0, hupdl |-> NONE, prevcfg |-> 0, rbad |-> "" ]

\* A pending run.  kind "schedule": its schedule time is the first occurrence after some instant of
\* lo..hi (hi = NONE: not yet known, the daemon is at it); kind "file": its schedule time is at.
\* blk: it was due while blocked; free: since when it is not blocked any more.
\* bt: an unusable trigger of its job was taken while it was pending.
SchedRun(j, lo, hi, n, t) ==
  [job |-> j, kind |-> "schedule", rec |-> TRUE, lo |-> lo, hi |-> hi, at |-> NONE, env |-> << >>,
   datas |-> {"{}"}, born |-> t, blk |-> FALSE, free |-> NONE, n |-> n, late |-> FALSE, bt |-> FALSE]
FileRun(j, rec, at, env, datas, n, t) ==
  [job |-> j, kind |-> "file", rec |-> rec, lo |-> NONE, hi |-> NONE, at |-> at, env |-> env,
   datas |-> datas, born |-> t, blk |-> FALSE, free |-> NONE, n |-> n, late |-> FALSE, bt |-> FALSE]

LiveOf(s, j) == {i \in DOMAIN s.live : s.live[i].job = j}
InGroup(s, g) == {i \in DOMAIN s.live : s.live[i].group = g}
GroupFull(h, s, g) == Cardinality(InGroup(s, g)) >= GroupMax(h, s, g)

Overlap(h, s, j) == ~Job(h, s, j).conc /\ LiveOf(s, j) # {}
AllFull(h, s, j) == Len(Job(h, s, j).groups) > 0
                    /\ \A g \in Range(Job(h, s, j).groups) : GroupFull(h, s, g)
Blocked(h, s, j) == Overlap(h, s, j) \/ AllFull(h, s, j)

Due(h, s, p) == IF p.kind = "file" THEN p.at
                ELSE NextGT(Job(h, s, p.job), IF None(p.hi) THEN s.now ELSE p.hi)

Deadline(h, s, p) ==
  LET due == Due(h, s, p)
      d   == IF p.blk THEN p.free + Clamp(p.free - due, h.backmin, h.backmax) + h.slack
             ELSE Max(due, p.born) + h.slack
  IN IF None(s.stall) THEN d ELSE Max(d, s.stall + h.slack)

\* every deadline is also extended to the end of the last stall of the whole daemon
Past(h, s, t, d) == t > d + h.slack /\ (None(s.stall) \/ t > s.stall + h.slack)

(***************************************************************************)
(* Advance: time passes from s.now to t, up to event ev                    *)
(***************************************************************************)
DaemonEv(ev) == \/ ev.e \in {"quiet", "gone", "fork", "kill", "report", "reap", "down"}
                \/ ev.e = "db" /\ Len(ev.addrun) > 0

AdvP(h, s, t, p, close) ==
  LET p1 == IF p.kind = "schedule" /\ None(p.hi) /\ close
            THEN [p EXCEPT !.hi = IF None(NextGT(Job(h, s, p.job), t)) THEN p.lo ELSE t] ELSE p
      s1 == [s EXCEPT !.now = t]
      b  == Blocked(h, s, p.job)
      due == Due(h, s1, p1)
  IN IF None(due) THEN p1
     ELSE IF b THEN (IF due <= t THEN [p1 EXCEPT !.blk = TRUE, !.free = NONE]
                     ELSE [p1 EXCEPT !.free = NONE])
     ELSE IF p1.blk /\ None(p1.free) THEN [p1 EXCEPT !.free = s.now]
     ELSE p1

Advance(h, s, ev) ==
  LET close == DaemonEv(ev)
      P1 == IF s.cfg = 0 THEN s.pend ELSE {AdvP(h, s, ev.t, p, close) : p \in s.pend}
      P2 == {p \in P1 : p.kind = "file" \/ None(p.hi) \/ ~None(NextGT(Job(h, s, p.job), p.hi))}
  IN [s EXCEPT !.now = ev.t, !.pend = P2]

(***************************************************************************)
(* Obligations whose deadline has passed (checked at every event, with s   *)
(* already advanced to the time of the event)                              *)
(***************************************************************************)
LateRuns(h, s) ==
  {p \in s.pend : /\ ~p.late /\ s.sd = "no"
                  /\ ~None(Due(h, s, p))
                  /\ ~Blocked(h, s, p.job)
                  /\ s.now > Deadline(h, s, p)}

\* the file the daemon has to take first in the directory of the job
FirstTrig(s, tr) == tr.fmt = "json" \/ ~\E o \in s.trig : o.job = tr.job /\ o.fmt = "json"
LateTrigs(h, s) ==
  {tr \in s.trig : /\ ~tr.late /\ ~tr.locked /\ s.sd = "no" /\ HasJob(h, s, tr.job)
                   /\ FirstTrig(s, tr)
                   /\ Past(h, s, s.now, IF None(tr.poke) THEN tr.since + h.trigpoll
                                        ELSE Min(tr.poke, tr.since + h.trigpoll))}

ShutdownKills(h, s) == s.sd # "no" /\ (Cfg(h, s).killruns \/ s.amb)
MustShutdownKill(h, s) == s.sd # "no" /\ Cfg(h, s).killruns /\ ~s.amb

TermDue(r) == r.start + r.max
KillDue(r) == Max(r.start + r.max, r.term) + r.grace

Missing(h, s) ==
  LET L == DOMAIN s.live
      alive(i) == None(s.live[i].exitT) /\ s.live[i].st = "run"
  IN UNION {
    {"term_shutdown_missing" : i \in {i \in L : /\ MustShutdownKill(h, s) /\ alive(i) /\ None(s.live[i].term)
                                                /\ ~s.live[i].m1
                                                /\ Past(h, s, s.now, Max(s.sdt, s.live[i].forkT))}},
    {"kill_shutdown_missing" : i \in {i \in L : /\ MustShutdownKill(h, s) /\ Cfg(h, s).sgrace > 0 /\ alive(i)
                                                /\ None(s.live[i].kill) /\ ~s.live[i].m2
                                                /\ Past(h, s, s.now, Max(s.sdl + Cfg(h, s).sgrace, s.live[i].forkT))}},
    {"term_max_missing" : i \in {i \in L : /\ s.live[i].max > 0 /\ alive(i) /\ None(s.live[i].term) /\ ~s.live[i].m3
                                           /\ Past(h, s, s.now, TermDue(s.live[i]))}},
    {"kill_max_missing" : i \in {i \in L : /\ s.live[i].max > 0 /\ alive(i) /\ ~None(s.live[i].term)
                                           /\ None(s.live[i].kill) /\ ~s.live[i].m4
                                           /\ Past(h, s, s.now, KillDue(s.live[i]))}},
    {"record_late" : i \in {i \in L : /\ ~None(s.live[i].exitT) /\ ~s.live[i].m5
                                      /\ Past(h, s, s.now, s.live[i].exitT)}} }

\* the flags which keep an obligation from being reported again and again
MarkLive(h, s) ==
  [i \in DOMAIN s.live |->
    LET r == s.live[i] IN
    [r EXCEPT !.m1 = r.m1 \/ (s.sd # "no" /\ Past(h, s, s.now, Max(s.sdt, r.forkT))),
              !.m2 = r.m2 \/ (s.sd # "no" /\ s.cfg # 0 /\ Past(h, s, s.now, Max(s.sdl + Cfg(h, s).sgrace, r.forkT))),
              !.m3 = r.m3 \/ Past(h, s, s.now, TermDue(r)),
              !.m4 = r.m4 \/ (~None(r.term) /\ Past(h, s, s.now, KillDue(r))),
              !.m5 = r.m5 \/ (~None(r.exitT) /\ Past(h, s, s.now, r.exitT))]]

Overdue(h, s) ==
  IF s.up # "run" \/ s.frozen THEN {}
  ELSE UNION {
    {IF p.kind = "file" THEN (IF p.blk THEN "late_file_unblocked" ELSE "late_file")
     ELSE (IF p.blk THEN "late_schedule_unblocked" ELSE "late_schedule") : p \in LateRuns(h, s)},
    {"late_after_reload" : p \in {p \in LateRuns(h, s) : s.prevcfg # 0 /\ p.kind = "schedule"}},
    {"late_with_groups" : p \in {p \in LateRuns(h, s) : Len(Job(h, s, p.job).groups) > 0}},
    {"late_after_bad_trigger" : p \in {p \in LateRuns(h, s) : p.bt}},
    {"late_concurrent" : p \in {p \in LateRuns(h, s) : Job(h, s, p.job).conc}},
    {IF None(tr.poke) THEN "trigger_unnoticed" ELSE "trigger_unnoticed_usr1" : tr \in LateTrigs(h, s)},
    {"trigger_unnoticed_bad" : tr \in {tr \in LateTrigs(h, s) : ~tr.valid}},
    Missing(h, s),
    IF s.sd = "no" /\ ~None(s.hup) /\ Past(h, s, s.now, s.hup) THEN {"reload_missing"} ELSE {},
    IF ~None(s.quit) /\ Past(h, s, s.now, s.quit) 
    THEN {"report_missing"} \cup (IF \E p \in s.pend : p.bt THEN {"report_missing_bad_trigger"} ELSE {}) ELSE {},
    IF s.sd # "no" /\ DOMAIN s.live = {} /\ Past(h, s, s.now, Max(s.sdt, s.idleT)) THEN {"down_late"} ELSE {} }

Mark(h, s) ==
  IF s.up # "run" \/ s.frozen THEN s
  ELSE LET lr == LateRuns(h, s)  lt == LateTrigs(h, s) IN
    [s EXCEPT !.pend = {IF p \in lr THEN [p EXCEPT !.late = TRUE] ELSE p : p \in s.pend},
              !.trig = {IF tr \in lt THEN [tr EXCEPT !.late = TRUE] ELSE tr : tr \in s.trig},
              !.live = MarkLive(h, s),
              !.hup  = IF ~None(s.hup) /\ Past(h, s, s.now, s.hup) THEN NONE ELSE s.hup,
              !.quit = IF ~None(s.quit) /\ Past(h, s, s.now, s.quit) THEN NONE ELSE s.quit]

(***************************************************************************)
(* A run starts: its row appears in the running table                      *)
(***************************************************************************)
SchedOK(h, s, p, r) ==
  IF p.kind = "file" THEN r.sched = p.at
  ELSE LET job == Job(h, s, p.job)
           hiB == NextGT(job, IF None(p.hi) THEN s.now ELSE p.hi)
       IN /\ OnGrid(job, r.sched)
          /\ r.sched >= p.lo
          /\ (None(hiB) \/ r.sched <= hiB)

Match(h, s, r) == {p \in s.pend : p.job = r.job /\ p.kind = r.ttype /\ SchedOK(h, s, p, r) /\ r.tdata \in p.datas}
Oldest(P) == CHOOSE p \in P : \A q \in P : p.n <= q.n
\* among several matching ones the daemon may take any; they only differ in their environment
TakeFor(h, s, r) ==
  LET M == Match(h, s, r)
      K == {p \in s.pend : p.job = r.job /\ p.kind = r.ttype}
      J == {p \in s.pend : p.job = r.job}
  IN IF M # {} THEN {Oldest(M)} ELSE IF K # {} THEN {Oldest(K)} ELSE IF J # {} THEN {Oldest(J)} ELSE {}

Recent(h, s, t) == \/ t >= s.now - h.slack /\ t <= s.now
                   \/ t <= s.now /\ ~None(s.stall) /\ s.stall >= s.now - h.slack

BadStart(h, s, r) ==
  LET J == {p \in s.pend : p.job = r.job}
      K == {p \in J : p.kind = r.ttype}
  IN UNION {
    IF s.up # "run" THEN {"start_not_up"} ELSE {},
    IF s.sd = "yes" THEN {"start_in_shutdown"} ELSE {},
    IF r.id \in DOMAIN s.done \/ r.id \in DOMAIN s.live THEN {"start_known_id"} ELSE {},
    IF s.cfg = 0 \/ ~HasJob(h, s, r.job) THEN {"start_unknown_job"}
    ELSE UNION {
      IF Match(h, s, r) = {} /\ s.sd # "yes"
      THEN (IF K # {} THEN (IF r.ttype = "file"
                            THEN (IF \E p \in K : r.tdata \in p.datas THEN {"start_file_time"} ELSE {"start_file_data"})
                            ELSE (IF \E p \in K : SchedOK(h, s, p, r) THEN {"start_schedule_data"} ELSE {"start_wrong_occurrence"}))
            ELSE IF r.ttype = "file" THEN {"start_file_unexpected"}
            ELSE IF r.ttype = "schedule" THEN {"start_schedule_unexpected"}
            ELSE {"start_trigger_type"})
      ELSE {},
      IF Overlap(h, s, r.job) THEN {"start_overlap"} ELSE {},
      IF AllFull(h, s, r.job) THEN {"start_group_full"} ELSE {},
      IF r.sched > r.start \/ r.sched > s.now THEN {"start_early"} ELSE {},
      IF ~Recent(h, s, r.start) THEN {"start_time_wrong"} ELSE {},
      IF r.rdata # "{}" THEN {"start_row"} ELSE {} } }

NewLive(h, s, r, P) ==
  LET known == HasJob(h, s, r.job) IN
  [job |-> r.job, sched |-> r.sched, start |-> r.start, ttype |-> r.ttype, tdata |-> r.tdata,
   tenv |-> {p.env : p \in (IF P = {} THEN {} ELSE Match(h, s, r) \cup P)},
   st |-> "rec", pid |-> NONE, group |-> "", term |-> NONE, kill |-> NONE, exitT |-> NONE, status |-> 0,
   max |-> IF known THEN Job(h, s, r.job).max ELSE 0,
   grace |-> IF known THEN Job(h, s, r.job).grace ELSE 0,
   forkT |-> s.now, rdata |-> "{}", cfg |-> s.cfg,
   m1 |-> FALSE, m2 |-> FALSE, m3 |-> FALSE, m4 |-> FALSE, m5 |-> FALSE]

ApplyStart(h, s, r) ==
  IF s.cfg = 0 THEN s ELSE
  LET P == TakeFor(h, s, r)
      known == HasJob(h, s, r.job)
      rec == \E p \in P : p.rec
      nxt == IF known /\ rec /\ ~None(NextGT(Job(h, s, r.job), r.start)) /\ s.sd # "yes"
             THEN {SchedRun(r.job, r.start, r.start, s.n + 1, s.now)} ELSE {}
  IN [s EXCEPT !.pend = (s.pend \ P) \cup nxt,
               !.live = (r.id :> NewLive(h, s, r, P)) @@ s.live,
               !.n = s.n + 1]

(***************************************************************************)
(* A run finishes: one transaction moves its row to the history            *)
(***************************************************************************)
ExitCode(st) == IF st % 128 # 0 THEN 128 + (st % 128) ELSE st \div 256

BadFinish(h, s, d) ==
  IF d.id \notin DOMAIN s.live
  THEN {"finish_unknown"}
  ELSE LET r == s.live[d.id] IN UNION {
    IF d.job # r.job \/ d.sched # r.sched \/ d.start # r.start \/ d.ttype # r.ttype \/ d.tdata # r.tdata
      THEN {"finish_identity"} ELSE {},
    IF None(r.exitT) THEN {"finish_while_alive"}
    ELSE UNION {
      IF d.exit # ExitCode(r.status) THEN {"finish_exit_code"} ELSE {},
      IF d.stop < r.exitT \/ d.stop > s.now \/ ~Recent(h, s, d.stop) THEN {"finish_stop_time"} ELSE {} },
    IF d.rdata # r.rdata THEN {"finish_return_data"} ELSE {} }

ApplyFinish(s, d) ==
  LET l == Without(s.live, {d.id}) IN
  [s EXCEPT !.live = l, !.idleT = IF DOMAIN l = {} THEN s.now ELSE s.idleT]

(***************************************************************************)
(* Database transactions                                                   *)
(***************************************************************************)
IsStart(ev) == Len(ev.addrun) = 1 /\ ev.delrun = << >> /\ ev.add = << >> /\ ev.dele = << >> /\ ev.dup = << >>
IsFinish(ev) == /\ Len(ev.add) = 1 /\ ev.delrun = <<ev.add[1].id>> /\ ev.addrun = << >>
                /\ ev.dele = << >> /\ ev.dup = << >>
IsClear(s, ev) == /\ ev.addrun = << >> /\ ev.add = << >> /\ ev.dele = << >> /\ ev.dup = << >>
                  /\ {ev.delrun[k] : k \in DOMAIN ev.delrun} = DOMAIN s.running

BadDb(h, s, ev) ==
  UNION {
    IF s.up \notin {"boot", "run"} THEN {"db_not_up"} ELSE {},
    IF IsStart(ev)
      THEN (IF ev.addrun[1].id \in DOMAIN s.running THEN {"db_row_changed"} ELSE {})
           \cup BadStart(h, s, ev.addrun[1])
    ELSE IF IsFinish(ev)
      THEN (IF ev.add[1].id \in DOMAIN s.done THEN {"db_history_changed"} ELSE {})
           \cup BadFinish(h, s, ev.add[1])
    ELSE IF IsClear(s, ev) /\ s.fresh /\ DOMAIN s.live = {} THEN {}
    ELSE UNION {
      {"db_not_atomic"},
      IF Len(ev.dele) > 0 \/ \E k \in DOMAIN ev.add : ev.add[k].id \in DOMAIN s.done
        THEN {"db_history_changed"} ELSE {},
      UNION {BadStart(h, s, ev.addrun[k]) : k \in DOMAIN ev.addrun},
      UNION {IF ev.add[k].id \in DOMAIN s.live THEN BadFinish(h, s, ev.add[k]) ELSE {} : k \in DOMAIN ev.add} } }

RowsOf(q) == [i \in {q[k].id : k \in DOMAIN q} |-> q[CHOOSE k \in DOMAIN q : q[k].id = i]]

RECURSIVE FoldStart(_, _, _), FoldFinish(_, _)
FoldStart(h, s, q) == IF q = << >> THEN s ELSE FoldStart(h, ApplyStart(h, s, Head(q)), Tail(q))
FoldFinish(s, q) == IF q = << >> THEN s ELSE FoldFinish(ApplyFinish(s, Head(q)), Tail(q))

ApplyDb(h, s, ev) ==
  LET s1 == FoldFinish(s, ev.add)
      s2 == FoldStart(h, s1, ev.addrun)
      gone == {ev.delrun[k] : k \in DOMAIN ev.delrun}
  IN [s2 EXCEPT !.running = RowsOf(ev.addrun) @@ Without(s.running, gone),
                !.done = RowsOf(ev.add) @@ Without(s.done, {ev.dele[k] : k \in DOMAIN ev.dele})]

(***************************************************************************)
(* The process of a run                                                    *)
(***************************************************************************)
Str(k) == ToString(k)
DoneOf(s, j) == {i \in DOMAIN s.done : s.done[i].job = j}
LatestOf(s, I) == {i \in I : \A k \in I : s.done[k].stop <= s.done[i].stop}
Good(s, I) == {i \in I : s.done[i].exit = 0}

PrevEnv(pre, s, i) ==
  (pre \o "_RUN_ID" :> i) @@ (pre \o "_SCHEDULE_TIME" :> Str(s.done[i].sched))
  @@ (pre \o "_START_TIME" :> Str(s.done[i].start)) @@ (pre \o "_STOP_TIME" :> Str(s.done[i].stop))
  @@ (pre \o "_EXIT_CODE" :> Str(s.done[i].exit))

IsPrev(k) == Len(k) > 9 /\ SubSeq(k, 1, 9) = "PREVIOUS_"
PrevKeys(pre) == {pre \o x : x \in {"_RUN_ID", "_SCHEDULE_TIME", "_START_TIME", "_STOP_TIME", "_EXIT_CODE"}}
Part(env, pre) == Restrict(env, PrevKeys(pre) \cap DOMAIN env)

\* the variables pre_* of env describe one of the latest runs of I (several only if they finished at the same time)
PrevOK(s, env, pre, I) ==
  IF I = {} THEN Part(env, pre) = << >>
  ELSE \E i \in LatestOf(s, I) : Part(env, pre) = PrevEnv(pre, s, i)

\* the data directory may move at a reload: what starts later lives in the new one
DataDir(c) == IF Has(c, "data") THEN c.data ELSE "$D"
RunDirAt(d, j, i) == d \o "/runs/" \o j \o "/" \o i
RunDir(j, i) == RunDirAt("$D", j, i)
AutoEnv(h, c, i, r) ==
  LET job == c.jobs[r.job]
      dd == DataDir(c)
      rd == RunDirAt(dd, r.job, i) IN
  ("LOGNAME" :> h.logname) @@ ("HOME" :> h.home) @@ ("PATH" :> h.path) @@ ("CI" :> "true") @@ ("DSARI" :> "true")
  @@ ("DATA_DIR" :> dd) @@ ("JOB_NAME" :> r.job) @@ ("JOB_DIR" :> (dd \o "/runs/" \o r.job)) @@ ("RUN_ID" :> i)
  @@ ("RUN_DIR" :> rd) @@ ("SCHEDULE_TIME" :> Str(r.sched)) @@ ("START_TIME" :> Str(r.start))
  @@ ("TRIGGER_TYPE" :> r.ttype) @@ ("TRIGGER_DIR" :> (dd \o "/trigger"))
  @@ (IF job.jobgroup = "" THEN << >> ELSE ("JOB_GROUP" :> job.jobgroup))
  @@ (IF ~job.jenkins THEN << >>
      ELSE ("BUILD_NUMBER" :> i) @@ ("BUILD_ID" :> i) @@ ("BUILD_URL" :> ("file://" \o rd \o "/"))
           @@ ("NODE_NAME" :> "master") @@ ("BUILD_TAG" :> ("dsari-" \o r.job \o "-" \o i))
           @@ ("JENKINS_URL" :> ("file://" \o dd \o "/")) @@ ("EXECUTOR_NUMBER" :> "0") @@ ("WORKSPACE" :> rd))

\* all layers but PWD and the PREVIOUS_* part
Layered(h, c, i, r, tenv, env) ==
  tenv @@ c.jobs[r.job].env @@ c.env
  @@ (IF Has(env, "CONCURRENCY_GROUP") THEN ("CONCURRENCY_GROUP" :> env["CONCURRENCY_GROUP"]) ELSE << >>)
  @@ AutoEnv(h, c, i, r)
WithPwd(h, c, i, r, e) ==
  LET p == IF Has(e, "PWD") /\ e["PWD"] \in {h.dirs[k] : k \in DOMAIN h.dirs} THEN e["PWD"] ELSE RunDirAt(DataDir(c), r.job, i)
  IN ("PWD" :> p) @@ e

NoPrev(env) == Restrict(env, {k \in DOMAIN env : ~IsPrev(k)})

EnvKeysDiff(a, b) == {k \in (DOMAIN a) \cup (DOMAIN b) : ~(Has(a, k) /\ Has(b, k)) \/ a[k] # b[k]}

BadFork(h, s, ev) ==
  IF ev.run \notin DOMAIN s.live \/ s.live[ev.run].st # "rec"
  THEN {"fork_unlisted"}
  ELSE LET r == s.live[ev.run]
           c == h.cfgs[r.cfg]
           g == IF Has(ev.env, "CONCURRENCY_GROUP") THEN ev.env["CONCURRENCY_GROUP"] ELSE ""
       IN IF ~Has(c.jobs, r.job) THEN {} ELSE
       LET job == c.jobs[r.job] IN
       IF ev.exc # "" THEN {"fork_failed"} ELSE UNION {
         IF Len(job.groups) = 0 THEN (IF g # "" THEN {"group_unasked"} ELSE {})
         ELSE IF g \notin Range(job.groups) THEN {"group_missing"}
         ELSE IF GroupFull(h, s, g) THEN {"group_exceeded"} ELSE {},
         IF \E te \in r.tenv : NoPrev(ev.env) = WithPwd(h, c, ev.run, r, Layered(h, c, ev.run, r, te, ev.env))
           THEN {}
         ELSE IF r.ttype = "file" /\ \E te \in r.tenv : EnvKeysDiff(NoPrev(ev.env), WithPwd(h, c, ev.run, r, Layered(h, c, ev.run, r, te, ev.env))) \subseteq DOMAIN te
           THEN {"env_trigger", "env_wrong"}
         ELSE {"env_wrong"} \cup (IF ~None(s.hupdl) THEN {"env_after_reload"} ELSE {}),
         IF {k \in DOMAIN ev.env : IsPrev(k)} \subseteq
              PrevKeys("PREVIOUS") \cup PrevKeys("PREVIOUS_GOOD") \cup PrevKeys("PREVIOUS_BAD")
           THEN {} ELSE {"env_previous_unknown"},
         LET D == DoneOf(s, r.job) IN
           (IF PrevOK(s, ev.env, "PREVIOUS", D) THEN {} ELSE {"env_previous"})
           \cup (IF PrevOK(s, ev.env, "PREVIOUS_GOOD", Good(s, D)) THEN {} ELSE {"env_previous_good"})
           \cup (IF PrevOK(s, ev.env, "PREVIOUS_BAD", D \ Good(s, D)) THEN {} ELSE {"env_previous_bad"}),
         IF ev.argv # (job.cmd \o (IF job.append THEN <<r.job, ev.run>> ELSE << >>)) THEN {"argv_wrong"} ELSE {},
         IF ~Has(ev.env, "PWD") \/ ev.cwd # ev.env["PWD"] THEN {"cwd_wrong"} ELSE {},
         IF ev.fd0 # "/dev/null" \/ ev.fd1 # RunDirAt(DataDir(c), r.job, ev.run) \o "/output.txt" \/ ev.fd2 # ev.fd1
           THEN {"stdio_wrong"} ELSE {},
         IF ev.fds # << >> THEN {"fd_leak"} ELSE {},
         IF ~ev.pgrp THEN {"process_group"} ELSE {},
         IF ev.sigign # << >> \/ ev.masked # << >> THEN {"signals"} ELSE {},
         IF ev.deaf THEN {"deaf"} ELSE {} }

ApplyFork(s, ev) ==
  IF ev.run \notin DOMAIN s.live THEN s
  ELSE [s EXCEPT !.live[ev.run] = [@ EXCEPT !.st = "run", !.pid = ev.pid, !.forkT = s.now,
            !.group = IF Has(ev.env, "CONCURRENCY_GROUP") THEN ev.env["CONCURRENCY_GROUP"] ELSE "",
            !.rdata = IF ev.rdata = "" THEN "{}" ELSE ev.rdata]]

(***************************************************************************)
(* Signals the daemon sends                                                *)
(***************************************************************************)
BadKill(h, s, ev) ==
  IF ev.run \notin DOMAIN s.live \/ s.cfg = 0
  THEN {"kill_stranger"}
  ELSE LET r == s.live[ev.run] IN
    IF r.st # "run" \/ r.pid # ev.pid THEN {"kill_stranger"}
    ELSE IF ev.sig = 15 THEN
      IF ~None(r.term) THEN {"term_twice"}
      ELSE IF ShutdownKills(h, s) THEN {}
      ELSE IF r.max > 0 /\ s.now >= TermDue(r) THEN {}
      ELSE IF s.sd # "no" THEN {"term_in_shutdown"}
      ELSE IF r.max > 0 THEN {"term_early"} ELSE {"term_unasked"}
    ELSE IF ev.sig = 9 THEN
      IF ~None(r.kill) THEN {"kill_twice"}
      ELSE IF None(r.term) THEN {"kill_without_term"}
      ELSE IF ShutdownKills(h, s) /\ Cfg(h, s).sgrace > 0 /\ s.now >= s.sdt + Cfg(h, s).sgrace THEN {}
      ELSE IF r.max > 0 /\ ~None(r.term) /\ s.now >= KillDue(r) THEN {}
      ELSE IF s.sd # "no" /\ Cfg(h, s).sgrace > 0 THEN {"kill_early_shutdown"}
      ELSE {"kill_early"}
    ELSE {"kill_other_signal"}

ApplyKill(s, ev) ==
  IF ev.run \notin DOMAIN s.live THEN s
  ELSE IF ev.sig = 15 THEN [s EXCEPT !.live[ev.run].term = IF None(@) THEN s.now ELSE @]
  ELSE IF ev.sig = 9 THEN [s EXCEPT !.live[ev.run].kill = IF None(@) THEN s.now ELSE @]
  ELSE s

(***************************************************************************)
(* Configuration, triggers, signals received                               *)
(***************************************************************************)
Fresh(h, s, c, t) ==
  LET J == {j \in DOMAIN h.cfgs[c].jobs : ~None(NextGE(h.cfgs[c].jobs[j], t))}
  IN {SchedRun(j, t, NONE, s.n + 1, t) : j \in J}

BadCfg(h, s, ev) ==
  IF s.up = "run" /\ None(s.hup) /\ s.sd = "no" /\ ~(s.cfg = ev.cfg + 1 /\ s.cfgT >= s.now - h.slack)
     /\ ~(~h.cfgs[ev.cfg + 1].valid /\ s.hupdl >= s.now - h.slack)
  THEN {"reload_unasked"} ELSE {}

ApplyCfg(h, s, ev) ==
  LET c == ev.cfg + 1  v == h.cfgs[c].valid IN
  IF s.up \notin {"boot", "run"} THEN s
  ELSE IF s.up = "boot" THEN
    IF v THEN [s EXCEPT !.up = "run", !.cfg = c, !.cfgT = s.now, !.pend = Fresh(h, s, c, s.now), !.n = s.n + 1,
                        !.idleT = s.now,
                        !.trig = {[tr EXCEPT !.since = s.now, !.poke = NONE] : tr \in s.trig}]
    ELSE s
  ELSE IF None(s.hup) /\ (s.sd # "no" \/ (s.cfg = c /\ s.cfgT >= s.now - h.slack)) THEN s
  ELSE IF ~v THEN [s EXCEPT !.hup = NONE, !.hupdl = s.now]
  ELSE [s EXCEPT !.cfg = c, !.cfgT = s.now, !.hup = NONE, !.hupdl = s.now, !.prevcfg = s.cfg,
                 !.pend = IF s.sd = "yes" THEN {} ELSE Fresh(h, s, c, s.now), !.n = s.n + 1,
                 !.trig = {IF HasJob(h, s, tr.job) THEN tr ELSE [tr EXCEPT !.since = s.now, !.poke = NONE]
                           : tr \in s.trig}]

ApplyPut(s, ev) ==
  [s EXCEPT !.n = s.n + 1,
     !.trig = s.trig \cup {[job |-> ev.job, fmt |-> ev.fmt, valid |-> ev.valid, at |-> ev.sched, env |-> ev.env,
                           datas |-> Range(ev.datas), since |-> s.now, poke |-> NONE, locked |-> ev.lock, late |-> FALSE]}]

TrigOf(s, ev) == {tr \in s.trig : tr.job = ev.job /\ tr.fmt = ev.fmt}

BadGone(h, s, ev) ==
  LET T == TrigOf(s, ev) IN
  UNION {
    IF s.up # "run" THEN {"trigger_not_up"} ELSE {},
    IF s.sd = "yes" THEN {"trigger_in_shutdown"} ELSE {},
    IF T = {} THEN {"trigger_unknown"} ELSE {},
    IF s.up = "run" /\ ~HasJob(h, s, ev.job) THEN {"trigger_of_unknown_job"} ELSE {},
    IF \E tr \in T : ~FirstTrig(s, tr) THEN {"trigger_order"} ELSE {} }

ApplyGone(h, s, ev) ==
  LET T == TrigOf(s, ev)
      s1 == [s EXCEPT !.trig = {IF o.job = ev.job THEN [o EXCEPT !.since = s.now, !.poke = NONE] ELSE o : o \in s.trig \ T}]
  IN IF T = {} \/ s.up # "run" \/ s.sd = "yes" THEN s1
     ELSE IF ~HasJob(h, s, ev.job) THEN s1
     ELSE LET tr == CHOOSE x \in T : TRUE
              old == IF Job(h, s, ev.job).conc THEN {} ELSE {p \in s.pend : p.job = ev.job}
          IN IF ~tr.valid THEN [s1 EXCEPT !.pend = {IF p.job = ev.job THEN [p EXCEPT !.bt = TRUE] ELSE p : p \in s.pend}]
             ELSE [s1 EXCEPT !.n = s.n + 1,
                     !.pend = (s.pend \ old) \cup {FileRun(ev.job, \E p \in old : p.rec, tr.at, tr.env, tr.datas, s.n + 1, s.now)}]

ApplyLock(s, ev) ==
  [s EXCEPT !.trig = {IF tr.job = ev.job THEN [tr EXCEPT !.locked = ev.lock, !.since = s.now, !.poke = NONE] ELSE tr
                      : tr \in s.trig}]

Shut(s) == [s EXCEPT !.sd = "yes", !.pend = {}]

ApplySig(h, s, ev) ==
  IF s.up # "run" THEN s
  ELSE IF ev.sig \in {"TERM", "INT"} THEN
    IF s.sd = "no"
    THEN LET s1 == [s EXCEPT !.sd = "pend", !.sdt = s.now, !.sdl = s.now, !.amb = ~None(s.hup)] IN IF ev.busy THEN s1 ELSE Shut(s1)
    ELSE s
  ELSE IF ev.sig = "HUP" THEN (IF s.sd = "no" /\ None(s.hup) THEN [s EXCEPT !.hup = s.now] ELSE s)
  ELSE IF ev.sig = "QUIT" THEN (IF None(s.quit) THEN [s EXCEPT !.quit = s.now] ELSE s)
  ELSE IF ev.sig = "USR1" THEN
    [s EXCEPT !.trig = {IF None(tr.poke) /\ FirstTrig(s, tr) THEN [tr EXCEPT !.poke = s.now] ELSE tr : tr \in s.trig}]
  ELSE s

(***************************************************************************)
(* SIGQUIT: one contiguous block of log lines which names runs             *)
(***************************************************************************)
Reported(s) == {i \in DOMAIN s.live : s.live[i].st = "run"}
ReportOK(s, ev) ==
  LET rest == {k \in DOMAIN ev.ids : ev.ids[k] \notin DOMAIN s.live}
      jobs == {ev.jobs[k] : k \in rest} \cup {p.job : p \in s.pend}
  IN /\ Reported(s) \subseteq {ev.ids[k] : k \in DOMAIN ev.ids}
     /\ \A k \in DOMAIN ev.ids : ev.ids[k] \in DOMAIN s.live => s.live[ev.ids[k]].job = ev.jobs[k]
     /\ s.sd # "no" \/ \A j \in jobs : Cardinality({k \in rest : ev.jobs[k] = j}) = Cardinality({p \in s.pend : p.job = j})

\* with nothing to report there is nothing to wait for
QuitDone(s) == ~None(s.quit) /\ DOMAIN s.live = {} /\ s.pend = {}

(***************************************************************************)
(* Quiescence: the daemon goes to sleep                                    *)
(***************************************************************************)
BadQuiet(h, s) ==
  IF s.up # "run" THEN {} ELSE UNION {
    IF \E i \in DOMAIN s.live : s.live[i].st = "rec" THEN {"listed_without_process"} ELSE {},
    IF DOMAIN s.running # DOMAIN s.live THEN {"running_table"} ELSE {},
    IF \E i \in DOMAIN s.live : i \in DOMAIN s.done THEN {"running_in_history"} ELSE {} }

ApplyQuiet(s) ==
  LET s1 == IF s.sd = "pend" THEN Shut(s) ELSE s
  IN [s1 EXCEPT !.fresh = FALSE]

(***************************************************************************)
(* Bad and Apply                                                           *)
(***************************************************************************)
BadEv(h, s, ev) ==
  CASE ev.e = "cfgread" -> BadCfg(h, s, ev)
    [] ev.e = "gone"    -> BadGone(h, s, ev)
    [] ev.e = "db"      -> BadDb(h, s, ev)
    [] ev.e = "fork"    -> BadFork(h, s, ev)
    [] ev.e = "kill"    -> BadKill(h, s, ev)
    [] ev.e = "quiet"   -> BadQuiet(h, s)
    [] ev.e = "down"    -> (IF s.sd = "no" THEN {"down_unasked"} ELSE {})
                           \cup (IF DOMAIN s.live # {} THEN {"down_with_runs"} ELSE {})
    [] ev.e = "died"    -> {"died"}
    [] OTHER            -> {}

\* a shutdown which the daemon shows to have begun
Bad(h, s0, ev) ==
  LET s == Advance(h, s0, ev) IN (IF ev.e = "thaw" THEN {} ELSE Overdue(h, s)) \cup BadEv(h, s, ev)

ApplyEv(h, s, ev) ==
  CASE ev.e = "boot"    -> [s EXCEPT !.up = "boot", !.cfg = 0, !.pend = {}, !.live = << >>, !.sd = "no", !.sdt = NONE, !.sdl = NONE,
                                     !.amb = FALSE, !.hup = NONE, !.quit = NONE, !.fresh = TRUE, !.stall = NONE, !.frozen = FALSE,
                                     !.prevcfg = 0, !.hupdl = NONE]
    [] ev.e = "cfgread" -> ApplyCfg(h, s, ev)
    [] ev.e = "put"     -> ApplyPut(s, ev)
    [] ev.e = "lock"    -> ApplyLock(s, ev)
    [] ev.e = "gone"    -> ApplyGone(h, s, ev)
    [] ev.e = "sig"     -> ApplySig(h, s, ev)
    [] ev.e = "db"      -> ApplyDb(h, s, ev)
    [] ev.e = "fork"    -> ApplyFork(s, ev)
    [] ev.e = "exit"    -> IF ev.run \in DOMAIN s.live
                           THEN [s EXCEPT !.live[ev.run].exitT = s.now, !.live[ev.run].status = ev.status] ELSE s
    [] ev.e = "kill"    -> ApplyKill(s, ev)
    [] ev.e = "report"  -> IF ~None(s.quit) /\ ReportOK(s, ev) THEN [s EXCEPT !.quit = NONE] ELSE s
    [] ev.e = "quiet"   -> ApplyQuiet(s)
    \* sdl: when the daemon may have begun to shut down at the latest, if it is suspended right after the signal
    [] ev.e = "freeze"  -> [s EXCEPT !.frozen = TRUE, !.sdl = IF s.sd # "no" /\ ~None(@) /\ s.now <= @ + h.slack THEN NONE ELSE @]
    [] ev.e = "thaw"    -> [s EXCEPT !.stall = s.now, !.frozen = FALSE, !.sdl = IF s.sd # "no" /\ None(@) THEN s.now ELSE @]
    [] ev.e = "crash"   -> [s EXCEPT !.up = "off", !.live = << >>, !.pend = {}]
    [] ev.e = "down"    -> [s EXCEPT !.up = "down", !.pend = {}]
    [] ev.e = "died"    -> [s EXCEPT !.up = "dead", !.pend = {}, !.live = << >>]
    [] OTHER            -> s

Apply(h, s0, ev) ==
  LET s == Mark(h, Advance(h, s0, ev))
      s1 == ApplyEv(h, s, ev)
  IN IF QuitDone(s1) THEN [s1 EXCEPT !.quit = NONE] ELSE s1

(***************************************************************************)
(* Which property each clause belongs to                                   *)
(***************************************************************************)
ClauseProps == [
  late_schedule |-> {"C03", "C04"}, late_schedule_unblocked |-> {"C03", "C04"},
  late_file |-> {"C03", "C05"}, late_file_unblocked |-> {"C03", "C05"},
  late_after_bad_trigger |-> {"C06"}, trigger_unnoticed_bad |-> {"C06"}, report_missing_bad_trigger |-> {"C06"},
  late_after_reload |-> {"C13"}, late_with_groups |-> {"C01"}, late_concurrent |-> {"C02"},
  trigger_unnoticed |-> {"C05"}, trigger_unnoticed_usr1 |-> {"C05", "C14"},
  term_shutdown_missing |-> {"C11"}, kill_shutdown_missing |-> {"C11"},
  term_max_missing |-> {"C12"}, kill_max_missing |-> {"C12"},
  record_late |-> {"C08", "C14", "C07"},
  reload_missing |-> {"C13", "C14"}, report_missing |-> {"C14", "C04"}, down_late |-> {"C11", "C14"},
  start_not_up |-> {"C07"}, start_in_shutdown |-> {"C11", "C14"}, start_known_id |-> {"C07"},
  start_unknown_job |-> {"C13"}, start_wrong_occurrence |-> {"C04", "C13"},
  start_file_time |-> {"C05"}, start_file_data |-> {"C05", "C07"},
  start_schedule_data |-> {"C04", "C07"},
  start_file_unexpected |-> {"C05", "C06", "C13"}, start_schedule_unexpected |-> {"C04", "C13"},
  start_trigger_type |-> {"C07"},
  start_overlap |-> {"C02"}, start_group_full |-> {"C01"}, start_early |-> {"C03", "C08"},
  start_time_wrong |-> {"C08"}, start_row |-> {"C07"},
  finish_unknown |-> {"C07", "C08"}, finish_identity |-> {"C07", "C08", "C13"}, finish_while_alive |-> {"C07", "C08"},
  finish_exit_code |-> {"C08"}, finish_stop_time |-> {"C08"}, finish_return_data |-> {"C18"},
  db_not_up |-> {"C07"}, db_row_changed |-> {"C07"}, db_history_changed |-> {"C07"}, db_not_atomic |-> {"C07"},
  fork_unlisted |-> {"C07"}, fork_failed |-> {"C10"},
  group_unasked |-> {"C01"}, group_missing |-> {"C01"}, group_exceeded |-> {"C01"},
  env_trigger |-> {"C05"}, env_wrong |-> {"C10"}, env_after_reload |-> {"C10", "C13"}, env_previous_unknown |-> {"C09"},
  env_previous |-> {"C09"}, env_previous_good |-> {"C09"}, env_previous_bad |-> {"C09"},
  argv_wrong |-> {"C10", "C13"}, cwd_wrong |-> {"C10"}, stdio_wrong |-> {"C10"}, fd_leak |-> {"C10"},
  process_group |-> {"C10"},  signals |-> {"C10"},  deaf |-> {"C10"},
  kill_stranger |-> {"C11", "C12"}, term_twice |-> {"C11", "C12"}, term_in_shutdown |-> {"C11"},
  term_early |-> {"C12", "C13"}, term_unasked |-> {"C12", "C13", "C11"},
  kill_twice |-> {"C11", "C12"}, kill_early_shutdown |-> {"C11", "C12"}, kill_without_term |-> {"C12", "C11"},
  kill_early |-> {"C12", "C11"}, kill_other_signal |-> {"C11", "C12"},
  reload_unasked |-> {"C13"},
  trigger_not_up |-> {"C05"}, trigger_in_shutdown |-> {"C11"}, trigger_unknown |-> {"C05"},
  trigger_of_unknown_job |-> {"C05", "C13"}, trigger_order |-> {"C05"},
  listed_without_process |-> {"C07", "C14"}, running_table |-> {"C07"}, running_in_history |-> {"C07"},
  down_unasked |-> {"C11"}, down_with_runs |-> {"C11"},
  died |-> {"C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C18"} ]
=============================================================================
