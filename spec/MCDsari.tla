------------------------------- MODULE MCDsari -------------------------------
(***************************************************************************)
(* Exhaustive exploration of Dsari.tla for a bounded environment: every    *)
(* interleaving of time, triggers, signals, configuration changes, exits   *)
(* and crashes with everything that a conforming daemon may do (any event  *)
(* which violates no clause).  Checked here, without reference to Bad and  *)
(* Apply: the invariants and action properties below, and that no          *)
(* reachable state is stuck, i.e. that a daemon can always meet all of its *)
(* deadlines (time cannot pass a deadline, so an unsatisfiable obligation  *)
(* would be a deadlock).                                                   *)
(***************************************************************************)
EXTENDS Dsari

CONSTANTS Horizon,      \* time bound
          MaxRuns,      \* runs started
          MaxTrig, MaxSig, MaxCrash, MaxCfg,  \* bounds of the environment
          Sigs,         \* signals that may arrive
          Fmts, TrigJobs, \* trigger files that may appear
          Poll,         \* how often at least the daemon looks for triggers
          Model         \* which set of configurations

job0 == [per |-> 0, off |-> 0, until |-> NONE, conc |-> FALSE, groups |-> << >>, max |-> 0, grace |-> 2,
         env |-> << >>, cmd |-> <<"x">>, append |-> FALSE, jenkins |-> FALSE, jobgroup |-> ""]
cfg0 == [valid |-> TRUE, jobs |-> << >>, groups |-> << >>, env |-> << >>, killruns |-> FALSE, sgrace |-> 0]
A(j) == "a" :> j
B(j) == "b" :> j

Cfgs ==
  CASE Model = "groups" ->
         << [cfg0 EXCEPT !.jobs = A([job0 EXCEPT !.per = 3, !.off = 1, !.groups = <<"g">>])
                                  @@ B([job0 EXCEPT !.groups = <<"g", "k">>, !.conc = TRUE]),
                         !.groups = ("g" :> 1)],
            [cfg0 EXCEPT !.jobs = B([job0 EXCEPT !.groups = <<"g">>])],
            [cfg0 EXCEPT !.valid = FALSE] >>
    [] Model = "trigger" ->
         << [cfg0 EXCEPT !.jobs = A([job0 EXCEPT !.per = 4, !.off = 1, !.until = 9]) @@ B([job0 EXCEPT !.conc = TRUE])],
            [cfg0 EXCEPT !.jobs = A([job0 EXCEPT !.per = 2, !.off = 1, !.conc = TRUE])] >>
    [] Model = "wake" ->
         << [cfg0 EXCEPT !.jobs = A([job0 EXCEPT !.per = 9, !.off = 1, !.groups = <<"g">>])
                                  @@ B([job0 EXCEPT !.per = 9, !.off = 1, !.groups = <<"g">>])
                                  @@ ("c" :> [job0 EXCEPT !.per = 9, !.off = 1, !.max = 2, !.grace = 1])] >>
    [] Model = "retry" ->
         << [cfg0 EXCEPT !.jobs = A([job0 EXCEPT !.per = 9, !.off = 1, !.groups = <<"g">>])
                                  @@ B([job0 EXCEPT !.per = 9, !.off = 1, !.groups = <<"g">>])
                                  @@ ("c" :> [job0 EXCEPT !.per = 9, !.off = 1])] >>
    [] Model = "mix" ->
         << [cfg0 EXCEPT !.jobs = A([job0 EXCEPT !.per = 3, !.groups = <<"g", "k">>, !.conc = TRUE])
                                  @@ B([job0 EXCEPT !.per = 3, !.off = 2, !.groups = <<"k">>, !.max = 4, !.grace = 1])
                                  @@ ("c" :> [job0 EXCEPT !.groups = <<"g">>, !.conc = TRUE]),
                         !.groups = ("g" :> 2), !.killruns = TRUE, !.sgrace = 2],
            [cfg0 EXCEPT !.jobs = A([job0 EXCEPT !.per = 3, !.off = 1, !.conc = TRUE])
                                  @@ ("c" :> [job0 EXCEPT !.groups = <<"k", "g">>, !.conc = TRUE, !.max = 3]),
                         !.groups = ("k" :> 2)],
            [cfg0 EXCEPT !.valid = FALSE] >>
    [] Model = "kill" ->
         << [cfg0 EXCEPT !.jobs = A([job0 EXCEPT !.per = 4, !.off = 1, !.max = 2, !.grace = 1]) @@ B([job0 EXCEPT !.conc = TRUE]),
                         !.killruns = TRUE, !.sgrace = 3],
            [cfg0 EXCEPT !.jobs = A([job0 EXCEPT !.per = 3, !.off = 1]), !.killruns = FALSE] >>

h == [cfgs |-> Cfgs, slack |-> 1, backmin |-> 1, backmax |-> 2, trigpoll |-> Poll,
      logname |-> "u", home |-> "/h", path |-> "/p", dirs |-> << >>]

VARIABLES s, nrun, ntrig, nsig, ncrash, ncfg, disk, lost, sig
vars == <<s, nrun, ntrig, nsig, ncrash, ncfg, disk, lost, sig>>
\* lost: runs in progress when the daemon was killed;  sig: id -> signals sent

T == s.now

\* every event passes through here
Do(ev) == Bad(h, s, ev) = {} /\ s' = Apply(h, s, ev)

RECURSIVE AsSeq(_)
AsSeq(S) == IF S = {} THEN << >> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o AsSeq(S \ {x})

Up == s.up = "run"
Ids == [k \in 1..40 |-> "r" \o ToString(k)]

Init == s = Init0 /\ nrun = 0 /\ ntrig = 0 /\ nsig = 0 /\ ncrash = 0 /\ ncfg = 0 /\ disk = 0 /\ lost = {} /\ sig = << >>

\* ---- environment
Tick == T < Horizon /\ Do([e |-> "tick", t |-> T + 1]) /\ UNCHANGED <<nrun, ntrig, nsig, ncrash, ncfg, disk, lost, sig>>

Put == /\ ntrig < MaxTrig
       /\ \E j \in TrigJobs, f \in Fmts, v \in BOOLEAN, d \in {0, 2} :
            /\ ~\E tr \in s.trig : tr.job = j /\ tr.fmt = f
            /\ (~v => d = 0)
            /\ Do([e |-> "put", t |-> T, job |-> j, fmt |-> f, valid |-> v, sched |-> T + d, env |-> << >>,
                   datas |-> <<"d" \o ToString(ntrig)>>, lock |-> FALSE])
       /\ ntrig' = ntrig + 1 /\ UNCHANGED <<nrun, nsig, ncrash, ncfg, disk, lost, sig>>

Signal == /\ Up /\ nsig < MaxSig
          /\ \E g \in Sigs, b \in BOOLEAN : Do([e |-> "sig", t |-> T, sig |-> g, busy |-> b])
          /\ nsig' = nsig + 1 /\ UNCHANGED <<nrun, ntrig, ncrash, ncfg, disk, lost, sig>>

WriteCfg == /\ ncfg < MaxCfg /\ \E c \in 0..(Len(Cfgs) - 1) : c # disk /\ disk' = c
            /\ ncfg' = ncfg + 1 /\ UNCHANGED <<s, nrun, ntrig, nsig, ncrash, lost, sig>>

Exit == /\ \E i \in DOMAIN s.live : s.live[i].st = "run" /\ None(s.live[i].exitT)
             /\ \E st \in {0, 256} : Do([e |-> "exit", t |-> T, run |-> i, status |-> IF ~None(s.live[i].kill) THEN 9 ELSE st])
        /\ UNCHANGED <<nrun, ntrig, nsig, ncrash, ncfg, disk, lost, sig>>

Crash == /\ s.up \in {"boot", "run"} /\ ncrash < MaxCrash
         /\ Do([e |-> "crash", t |-> T])
         /\ lost' = lost \cup DOMAIN s.live /\ ncrash' = ncrash + 1
         /\ UNCHANGED <<nrun, ntrig, nsig, ncfg, disk, sig>>

\* ---- daemon
Boot == /\ s.up = "off" /\ Cfgs[disk + 1].valid /\ Do([e |-> "boot", t |-> T])
        /\ UNCHANGED <<nrun, ntrig, nsig, ncrash, ncfg, disk, lost, sig>>
ReadCfg == /\ (s.up = "boot" /\ Cfgs[disk + 1].valid) \/ (Up /\ ~None(s.hup))
           /\ Do([e |-> "cfgread", t |-> T, cfg |-> disk])
           /\ UNCHANGED <<nrun, ntrig, nsig, ncrash, ncfg, disk, lost, sig>>
Clear == /\ Up /\ s.fresh /\ DOMAIN s.running # {} /\ DOMAIN s.live = {}
         /\ LET q == AsSeq(DOMAIN s.running)
            IN Do([e |-> "db", t |-> T, addrun |-> << >>, delrun |-> q, add |-> << >>, dele |-> << >>, dup |-> << >>])
         /\ UNCHANGED <<nrun, ntrig, nsig, ncrash, ncfg, disk, lost, sig>>
Take == /\ Up /\ \E tr \in s.trig : Do([e |-> "gone", t |-> T, job |-> tr.job, fmt |-> tr.fmt])
        /\ UNCHANGED <<nrun, ntrig, nsig, ncrash, ncfg, disk, lost, sig>>
Start == /\ Up /\ nrun < MaxRuns /\ ~s.fresh
         /\ \A i \in DOMAIN s.live : s.live[i].st = "run"
         /\ \E p \in s.pend :
              LET due == Due(h, s, p) IN
              /\ ~None(due)
              /\ \E d \in p.datas :
                 Do([e |-> "db", t |-> T, delrun |-> << >>, add |-> << >>, dele |-> << >>, dup |-> << >>,
                     addrun |-> << [id |-> Ids[nrun + 1], job |-> p.job, sched |-> due, start |-> T, ttype |-> p.kind,
                                    tdata |-> d, rdata |-> "{}"] >>])
         /\ nrun' = nrun + 1 /\ UNCHANGED <<ntrig, nsig, ncrash, ncfg, disk, lost, sig>>
\* the environment of the new process, assembled from what the history says
PrevChoice(j) ==
  LET D == DoneOf(s, j) IN
  {f \in [{"PREVIOUS", "PREVIOUS_GOOD", "PREVIOUS_BAD"} -> D \cup {"-"}] :
     /\ (D = {} <=> f["PREVIOUS"] = "-") /\ (f["PREVIOUS"] # "-" => f["PREVIOUS"] \in LatestOf(s, D))
     /\ (Good(s, D) = {} <=> f["PREVIOUS_GOOD"] = "-") /\ (f["PREVIOUS_GOOD"] # "-" => f["PREVIOUS_GOOD"] \in LatestOf(s, Good(s, D)))
     /\ (D \ Good(s, D) = {} <=> f["PREVIOUS_BAD"] = "-") /\ (f["PREVIOUS_BAD"] # "-" => f["PREVIOUS_BAD"] \in LatestOf(s, D \ Good(s, D)))}
Fork == /\ Up
        /\ \E i \in DOMAIN s.live :
             LET r == s.live[i]  c == Cfgs[r.cfg]  jb == c.jobs[r.job] IN
             /\ r.st = "rec"
             /\ \E g \in (IF Len(jb.groups) = 0 THEN {""} ELSE Range(jb.groups)), f \in PrevChoice(r.job) :
                LET ge == IF g = "" THEN << >> ELSE ("CONCURRENCY_GROUP" :> g)
                    pe == (IF f["PREVIOUS"] = "-" THEN << >> ELSE PrevEnv("PREVIOUS", s, f["PREVIOUS"]))
                          @@ (IF f["PREVIOUS_GOOD"] = "-" THEN << >> ELSE PrevEnv("PREVIOUS_GOOD", s, f["PREVIOUS_GOOD"]))
                          @@ (IF f["PREVIOUS_BAD"] = "-" THEN << >> ELSE PrevEnv("PREVIOUS_BAD", s, f["PREVIOUS_BAD"]))
                    env == pe @@ WithPwd(h, c, i, r, Layered(h, c, i, r, << >>, ge))
                IN Do([e |-> "fork", t |-> T, run |-> i, job |-> r.job, pid |-> 1, exc |-> "", env |-> env, argv |-> jb.cmd,
                       cwd |-> RunDir(r.job, i), fd0 |-> "/dev/null", fd1 |-> RunDir(r.job, i) \o "/output.txt",
                       fd2 |-> RunDir(r.job, i) \o "/output.txt", fds |-> << >>, pgrp |-> TRUE, sigign |-> << >>, masked |-> << >>, deaf |-> FALSE, rdata |-> ""])
        /\ UNCHANGED <<nrun, ntrig, nsig, ncrash, ncfg, disk, lost, sig>>
Finish == /\ Up
          /\ \E i \in DOMAIN s.live :
               LET r == s.live[i] IN
               /\ ~None(r.exitT)
               /\ Do([e |-> "db", t |-> T, addrun |-> << >>, delrun |-> <<i>>, dele |-> << >>, dup |-> << >>,
                      add |-> << [id |-> i, job |-> r.job, sched |-> r.sched, start |-> r.start, ttype |-> r.ttype,
                                  tdata |-> r.tdata, rdata |-> r.rdata, stop |-> T, exit |-> ExitCode(r.status)] >>])
          /\ UNCHANGED <<nrun, ntrig, nsig, ncrash, ncfg, disk, lost, sig>>
Kill == /\ Up /\ \E i \in DOMAIN s.live, g \in {9, 15} :
             /\ Do([e |-> "kill", t |-> T, pid |-> 1, sig |-> g, run |-> i, alive |-> TRUE])
             /\ sig' = (i :> (IF i \in DOMAIN sig THEN Append(sig[i], g) ELSE <<g>>)) @@ sig
        /\ UNCHANGED <<nrun, ntrig, nsig, ncrash, ncfg, disk, lost>>
Report == /\ Up /\ ~None(s.quit)
          /\ LET P == {p \in s.pend : TRUE}
                 f == AsSeq(P)
                 L == DOMAIN s.live
                 g == AsSeq(L)
             IN Do([e |-> "report", t |-> T, ids |-> g \o [k \in DOMAIN f |-> "new" \o ToString(k)],
                    jobs |-> [k \in DOMAIN g |-> s.live[g[k]].job] \o [k \in DOMAIN f |-> f[k].job]])
          /\ UNCHANGED <<nrun, ntrig, nsig, ncrash, ncfg, disk, lost, sig>>
Quiet == /\ Up /\ (s.fresh \/ s.sd = "pend" \/ \E p \in s.pend : p.kind = "schedule" /\ None(p.hi))
         /\ Do([e |-> "quiet", t |-> T])
         /\ UNCHANGED <<nrun, ntrig, nsig, ncrash, ncfg, disk, lost, sig>>
Down == /\ Up /\ Do([e |-> "down", t |-> T])
        /\ UNCHANGED <<nrun, ntrig, nsig, ncrash, ncfg, disk, lost, sig>>

Over == /\ T = Horizon \/ s.up = "down" \/ nrun = MaxRuns \/ (s.up = "off" /\ ~Cfgs[disk + 1].valid /\ ncfg = MaxCfg)
        /\ UNCHANGED vars

Next == \/ Tick \/ Put \/ Signal \/ WriteCfg \/ Exit \/ Crash
        \/ Boot \/ ReadCfg \/ Clear \/ Take \/ Start \/ Fork \/ Finish \/ Kill \/ Report \/ Quiet \/ Down \/ Over

Spec == Init /\ [][Next]_vars

(***************************************************************************)
(* What the properties say, stated on the state                            *)
(***************************************************************************)
\* C07: every run ever started is in exactly one place, unless the daemon was killed under it
Started == {Ids[k] : k \in 1..nrun}
Accounted == /\ DOMAIN s.running \cap DOMAIN s.done = {}
             /\ Started \subseteq DOMAIN s.running \cup DOMAIN s.done \cup lost
             /\ (Up /\ ~s.fresh => DOMAIN s.running = DOMAIN s.live)
\* C04: one pending run continues the schedule of each job which still has an occurrence
OneRecurring ==
  Up /\ s.sd = "no" =>
    \A j \in DOMAIN Cfg(h, s).jobs :
      LET R == {p \in s.pend : p.job = j /\ p.rec}
          f == {p \in R : p.kind = "file"} IN
      /\ Cardinality(R) <= 1
      /\ (~None(NextGT(Job(h, s, j), T)) => Cardinality(R) = 1)
PendOfKnownJobs == Up => \A p \in s.pend : HasJob(h, s, p.job)
NonConcPend == Up => \A j \in DOMAIN Cfg(h, s).jobs : ~Job(h, s, j).conc => Cardinality({p \in s.pend : p.job = j}) <= 1
NothingInShutdown == s.sd = "yes" => s.pend = {}
\* C11/C12: at most one TERM, at most one KILL
SigOnce == \A i \in DOMAIN sig : \A x \in {9, 15} : Cardinality({k \in DOMAIN sig[i] : sig[i][k] = x}) <= 1
\* C11/C12: KILL only after TERM
KillAfterTerm == \A i \in DOMAIN sig : \A k \in DOMAIN sig[i] :
                   sig[i][k] = 9 => \E m \in 1..(k - 1) : sig[i][m] = 15
ExitRecorded == \A i \in DOMAIN s.done : s.done[i].stop >= s.done[i].start /\ s.done[i].start >= s.done[i].sched
\* C08, promptness: nothing that has ended stays unrecorded
Prompt == Up => \A i \in DOMAIN s.live : ~None(s.live[i].exitT) => T <= s.live[i].exitT + h.slack

New == DOMAIN s'.live \ DOMAIN s.live
\* C01, C02 as action properties: the limits hold at the moment of each start
StartLimits ==
  /\ \A g \in {"g", "k"} : Cardinality(InGroup(s', g)) > Cardinality(InGroup(s, g)) =>
        Cardinality(InGroup(s, g)) < (IF g \in DOMAIN Cfg(h, s).groups THEN Cfg(h, s).groups[g] ELSE 1)
  /\ \A i \in New : Job(h, s, s'.live[i].job).conc \/ LiveOf(s, s'.live[i].job) = {}
  /\ New # {} => s.sd # "yes" /\ Cardinality(New) = 1
\* C07: the history only grows, and by one run at a time
HistoryGrows == /\ \A i \in DOMAIN s.done : i \in DOMAIN s'.done /\ s'.done[i] = s.done[i]
                /\ Cardinality(DOMAIN s'.done) <= Cardinality(DOMAIN s.done) + 1
\* C13: a run in progress survives everything but its own end and the end of the daemon
RunsSurvive == \A i \in DOMAIN s.live : i \in DOMAIN s'.live \/ i \in DOMAIN s'.done \/ s'.up \in {"off", "boot"}
StartLimitsP == [][StartLimits]_vars
HistoryGrowsP == [][HistoryGrows]_vars
RunsSurviveP == [][RunsSurvive]_vars
=============================================================================
