------------------------------- MODULE MCLoop -------------------------------
(***************************************************************************)
(* A model of the main loop of dsari-daemon as it is implemented (the      *)
(* variables L, q and pc below are those of class Scheduler), run side by  *)
(* side with the abstract machine of Dsari.tla: whatever the loop does     *)
(* that is visible outside is an event, and every event has to be one      *)
(* which the abstract machine allows in its state.  So the model checker   *)
(* shows for every interleaving of the bounded environment (signals at     *)
(* any step of the loop, triggers, exits, configuration changes, crashes,  *)
(* time) that this algorithm - one pass over triggers, pending runs and    *)
(* running runs per wake-up, wake-up times collected on the way, signals   *)
(* only noted by the handler - keeps the properties, deadlines included.   *)
(*                                                                         *)
(* The environment actions are those of MCDsari.tla; MCLoop.cfg replaces   *)
(* its operator Do (only conforming events) by Step below (any event, and  *)
(* what it violates is kept in bad).                                       *)
(*                                                                         *)
(* Bug selects a deliberate mistake in the loop; the model checker has to  *)
(* find each of them (the thorough tier of the checks sees to that).                          *)
(***************************************************************************)
EXTENDS MCDsari

CONSTANTS Bug, Anywhere, MaxFreeze

VARIABLES L, q, pc, bad, nfr
lvars == <<L, q, pc>>

Step(ev) == s' = Apply(h, s, ev) /\ bad' = Bad(h, s, ev)
NoEv == UNCHANGED <<s, bad>>
EnvRest == UNCHANGED <<nrun, ntrig, nsig, ncrash, ncfg, disk, lost, sig>>

L0 == [cfg |-> 0, sched |-> {}, running |-> << >>, groups |-> << >>, shutdown |-> FALSE, sdt |-> NONE,
       sigs |-> << >>, wake |-> {}, next |-> 0, n |-> 0, cur |-> 0, curgrp |-> "", curid |-> ""]

LInit == Init /\ L = L0 /\ q = {} /\ pc = "off" /\ bad = {} /\ nfr = 0

JobsL == Cfgs[L.cfg].jobs
GMax(g) == IF Has(Cfgs[L.cfg].groups, g) THEN Cfgs[L.cfg].groups[g] ELSE 1
GCount(g) == IF Has(L.groups, g) THEN Cardinality(L.groups[g]) ELSE 0
Backoff(at) == Clamp(T - at, h.backmin, h.backmax)

\* a pending run of the implementation
PRun(j, kind, at, resp, d, n) == [job |-> j, kind |-> kind, at |-> at, resp |-> resp, data |-> d, n |-> n]

RECURSIVE MkSched(_, _, _)
MkSched(J, c, n) ==
  IF J = {} THEN {}
  ELSE LET j == CHOOSE j \in J : TRUE
           t == NextGT(Cfgs[c].jobs[j], T)
       IN (IF None(t) THEN {} ELSE {PRun(j, "schedule", t, TRUE, "{}", n)}) \cup MkSched(J \ {j}, c, n + 1)

\* reset_jobs
Regroup ==
  LET G == {L.running[i].group : i \in DOMAIN L.running} \ {""}
  IN IF Bug = "regroup" THEN << >>
     ELSE [g \in G |-> {i \in DOMAIN L.running : L.running[i].group = g}]
Reset(c, sigs) ==
  [L EXCEPT !.cfg = c, !.sched = IF Bug = "oldruns" THEN {p \in L.sched : p.kind = "file"} \cup MkSched(DOMAIN Cfgs[c].jobs, c, L.n + 1)
                                 ELSE MkSched(DOMAIN Cfgs[c].jobs, c, L.n + 1),
            !.n = L.n + 4, !.groups = Regroup, !.sigs = sigs]

\* ---- start of the daemon
LBoot == /\ pc = "off" /\ s.up = "off" /\ Cfgs[disk + 1].valid
         /\ Step([e |-> "boot", t |-> T]) /\ L' = L0 /\ q' = {} /\ pc' = "load" /\ EnvRest
LLoad == /\ pc = "load" /\ Cfgs[disk + 1].valid
         /\ Step([e |-> "cfgread", t |-> T, cfg |-> disk])
         /\ L' = [L EXCEPT !.cfg = disk + 1] /\ pc' = "clear" /\ UNCHANGED q /\ EnvRest
LClear == /\ pc = "clear"
          /\ IF DOMAIN s.running = {} THEN NoEv
             ELSE LET f == AsSeq(DOMAIN s.running)
                  IN Step([e |-> "db", t |-> T, addrun |-> << >>, delrun |-> f, add |-> << >>, dele |-> << >>, dup |-> << >>])
          /\ L' = Reset(L.cfg, << >>) /\ pc' = "top" /\ UNCHANGED q /\ EnvRest

\* ---- process_signals
KillEv(i, g) == /\ Step([e |-> "kill", t |-> T, pid |-> 1, sig |-> g, run |-> i, alive |-> TRUE])
                /\ sig' = (i :> (IF i \in DOMAIN sig THEN Append(sig[i], g) ELSE <<g>>)) @@ sig
                /\ UNCHANGED <<nrun, ntrig, nsig, ncrash, ncfg, disk, lost>>

LTop == /\ pc = "top" /\ L.sigs = << >>
        /\ L' = [L EXCEPT !.wake = {}] /\ q' = (IF L.shutdown THEN {} ELSE DOMAIN JobsL) /\ pc' = "trig"
        /\ NoEv /\ EnvRest
LSignal ==
  /\ pc = "top" /\ L.sigs # << >>
  /\ LET g == Head(L.sigs)  rest == Tail(L.sigs) IN
     CASE g \in {"TERM", "INT"} ->
            /\ L' = [L EXCEPT !.sigs = rest, !.shutdown = TRUE, !.sdt = IF L.shutdown /\ Bug # "regrace" THEN @ ELSE T, !.sched = {}]
            /\ q' = (IF Cfgs[L.cfg].killruns THEN {i \in DOMAIN L.running : None(L.running[i].term)} ELSE {})
            /\ pc' = "killall" /\ NoEv /\ EnvRest
       [] g = "HUP" ->
            IF L.shutdown THEN /\ L' = [L EXCEPT !.sigs = rest] /\ UNCHANGED <<q, pc>> /\ NoEv /\ EnvRest
            ELSE /\ Step([e |-> "cfgread", t |-> T, cfg |-> disk])
                 /\ L' = (IF Cfgs[disk + 1].valid THEN Reset(disk + 1, rest) ELSE [L EXCEPT !.sigs = rest])
                 /\ UNCHANGED <<q, pc>> /\ EnvRest
       [] g = "QUIT" ->
            /\ LET P == L.sched
                   f == AsSeq(P)
                   R == DOMAIN L.running
                   k == AsSeq(R)
               IN Step([e |-> "report", t |-> T, ids |-> k \o [x \in DOMAIN f |-> "new" \o ToString(x)],
                        jobs |-> [x \in DOMAIN k |-> L.running[k[x]].job] \o [x \in DOMAIN f |-> f[x].job]])
            /\ L' = [L EXCEPT !.sigs = rest] /\ UNCHANGED <<q, pc>> /\ EnvRest
       [] OTHER -> /\ L' = [L EXCEPT !.sigs = rest] /\ UNCHANGED <<q, pc>> /\ NoEv /\ EnvRest
LKillAll ==
  /\ pc = "killall"
  /\ IF q = {} THEN /\ pc' = "top" /\ UNCHANGED <<L, q>> /\ NoEv /\ EnvRest
     ELSE LET i == CHOOSE i \in q : TRUE IN
          /\ KillEv(i, 15) /\ L' = [L EXCEPT !.running[i].term = IF Bug = "unmarked" THEN @ ELSE T]
          /\ q' = q \ {i} /\ UNCHANGED pc

\* ---- process_triggers, one job after the other
LTrig ==
  /\ pc = "trig"
  /\ IF q = {} THEN /\ pc' = "sched" /\ q' = {p.n : p \in L.sched} /\ UNCHANGED L /\ NoEv /\ EnvRest
     ELSE LET j == CHOOSE j \in q : TRUE
              F == {tr \in s.trig : tr.job = j}
          IN /\ q' = q \ {j} /\ UNCHANGED pc
             /\ IF F = {} THEN UNCHANGED L /\ NoEv /\ EnvRest
                ELSE LET tr == CHOOSE x \in F : x.fmt = (IF \E y \in F : y.fmt = "json" THEN "json" ELSE "yaml")
                         old == IF JobsL[j].conc THEN {} ELSE {p \in L.sched : p.job = j}
                     IN /\ Step([e |-> "gone", t |-> T, job |-> j, fmt |-> tr.fmt])
                        /\ L' = IF ~tr.valid THEN L
                                ELSE [L EXCEPT !.n = L.n + 1,
                                        !.sched = (L.sched \ old) \cup
                                            {PRun(j, "file", tr.at, Bug # "respawn" /\ \E p \in old : p.resp,
                                                  CHOOSE d \in tr.datas : TRUE, L.n + 1)}]
                        /\ EnvRest

\* ---- process_scheduled_run for each run, in any order
LSched ==
  /\ pc = "sched"
  /\ IF q = {} THEN /\ pc' = "exec" /\ q' = DOMAIN L.running /\ UNCHANGED L /\ NoEv /\ EnvRest
     ELSE \E n \in q :
       LET p == CHOOSE p \in L.sched : p.n = n
           job == JobsL[p.job]
           avail == {g \in Range(job.groups) : GCount(g) < GMax(g)}
       IN IF p.at > T
          THEN L' = [L EXCEPT !.wake = @ \cup {p.at}] /\ q' = q \ {n} /\ UNCHANGED pc /\ NoEv /\ EnvRest
          ELSE IF ~job.conc /\ \E i \in DOMAIN L.running : L.running[i].job = p.job
          THEN L' = [L EXCEPT !.wake = @ \cup {T + Backoff(p.at)}] /\ q' = q \ {n} /\ UNCHANGED pc /\ NoEv /\ EnvRest
          ELSE IF Len(job.groups) > 0 /\ avail = {}
          THEN L' = [L EXCEPT !.wake = IF Bug = "nobackoff" THEN @ ELSE @ \cup {T + Backoff(p.at)}]
               /\ q' = q \ {n} /\ UNCHANGED pc /\ NoEv /\ EnvRest
          ELSE /\ nrun < MaxRuns
               /\ \E g \in (IF avail = {} THEN {""} ELSE avail) :
                    L' = [L EXCEPT !.cur = n, !.curgrp = g, !.curid = Ids[nrun + 1]]
               /\ Step([e |-> "db", t |-> T, delrun |-> << >>, add |-> << >>, dele |-> << >>, dup |-> << >>,
                        addrun |-> << [id |-> Ids[nrun + 1], job |-> p.job, sched |-> p.at, start |-> T, ttype |-> p.kind,
                                       tdata |-> p.data, rdata |-> "{}"] >>])
               /\ q' = q \ {n} /\ pc' = "fork" /\ nrun' = nrun + 1
               /\ UNCHANGED <<ntrig, nsig, ncrash, ncfg, disk, lost, sig>>

\* the process is created with the environment assembled from the history
LFork ==
  /\ pc = "fork"
  /\ LET p == CHOOSE p \in L.sched : p.n = L.cur
         i == L.curid
         job == JobsL[p.job]
         r == s.live[i]
         D == DoneOf(s, p.job)
         Pv(pre, I) == IF I = {} THEN << >> ELSE PrevEnv(pre, s, CHOOSE x \in LatestOf(s, I) : TRUE)
         env == Pv("PREVIOUS", D) @@ Pv("PREVIOUS_GOOD", Good(s, D)) @@ Pv("PREVIOUS_BAD", D \ Good(s, D))
                @@ WithPwd(h, Cfgs[L.cfg], i, r, Layered(h, Cfgs[L.cfg], i, r, << >>,
                                            IF L.curgrp = "" THEN << >> ELSE ("CONCURRENCY_GROUP" :> L.curgrp)))
         t == NextGT(job, r.start)
         nx == IF p.resp /\ ~None(t) /\ Bug # "norespawn" THEN {PRun(p.job, "schedule", t, TRUE, "{}", L.n + 1)} ELSE {}
     IN /\ Step([e |-> "fork", t |-> T, run |-> i, job |-> p.job, pid |-> 1, exc |-> "", env |-> env, argv |-> job.cmd,
                 cwd |-> RunDir(p.job, i), fd0 |-> "/dev/null", fd1 |-> RunDir(p.job, i) \o "/output.txt",
                 fd2 |-> RunDir(p.job, i) \o "/output.txt", fds |-> << >>, pgrp |-> TRUE, sigign |-> << >>, masked |-> << >>,
                 deaf |-> FALSE, rdata |-> ""])
        /\ L' = [L EXCEPT !.sched = (L.sched \ {p}) \cup nx, !.n = L.n + 1, !.wake = @ \cup {x.at : x \in nx},
                   !.running = (i :> [job |-> p.job, group |-> L.curgrp, start |-> r.start, max |-> job.max, grace |-> job.grace,
                                      term |-> NONE, kill |-> FALSE]) @@ L.running,
                   !.groups = IF L.curgrp = "" THEN @
                              ELSE (L.curgrp :> ({i} \cup IF Has(L.groups, L.curgrp) THEN L.groups[L.curgrp] ELSE {})) @@ @]
  /\ pc' = "sched" /\ UNCHANGED q /\ EnvRest

\* ---- process_run_execution_time for each run in progress
LExec ==
  /\ pc = "exec"
  /\ IF q = {} THEN /\ pc' = "shut" /\ q' = DOMAIN L.running /\ UNCHANGED L /\ NoEv /\ EnvRest
     ELSE LET i == CHOOSE i \in q : TRUE
              r == L.running[i]
              kt == IF None(r.term) \/ Bug = "killtime" THEN r.start + r.max + r.grace
                    ELSE Max(r.start + r.max + r.grace, r.term + r.grace)
          IN /\ UNCHANGED pc
             /\ q' = q \ {i}
             /\ IF r.max = 0 THEN UNCHANGED L /\ NoEv /\ EnvRest
                ELSE IF ~None(r.term) /\ T >= kt
                THEN IF r.kill THEN UNCHANGED L /\ NoEv /\ EnvRest
                     ELSE KillEv(i, 9) /\ L' = [L EXCEPT !.running[i].kill = TRUE]
                ELSE IF T >= r.start + r.max
                THEN IF ~None(r.term) THEN L' = [L EXCEPT !.wake = @ \cup {kt}] /\ NoEv /\ EnvRest
                     ELSE /\ KillEv(i, 15)
                          /\ L' = [L EXCEPT !.running[i].term = T, !.wake = IF Bug = "killwake" THEN @ ELSE @ \cup {T + r.grace}]
                ELSE L' = [L EXCEPT !.wake = @ \cup {r.start + r.max}] /\ NoEv /\ EnvRest

\* ---- monitor_shutdown
LShut ==
  /\ pc = "shut"
  /\ LET c == Cfgs[L.cfg]
         K == {i \in q : ~L.running[i].kill}
     IN IF ~L.shutdown \/ ~c.killruns \/ c.sgrace = 0 \/ K = {}
        THEN /\ pc' = "wakeups" /\ q' = {} /\ UNCHANGED L /\ NoEv /\ EnvRest
        ELSE IF T < L.sdt + c.sgrace
        THEN /\ L' = [L EXCEPT !.wake = @ \cup {L.sdt + c.sgrace}] /\ pc' = "wakeups" /\ q' = {} /\ NoEv /\ EnvRest
        ELSE LET i == CHOOSE i \in K : TRUE IN
             KillEv(i, 9) /\ L' = [L EXCEPT !.running[i].kill = TRUE] /\ UNCHANGED <<q, pc>>

\* ---- process_wakeups
LWake ==
  /\ pc = "wakeups"
  /\ LET W == L.wake \cup {T + h.trigpoll}
         m == CHOOSE x \in W : \A y \in W : x <= y
     IN L' = [L EXCEPT !.next = IF L.sigs # << >> /\ Bug # "latesignal" THEN T ELSE m]
  /\ pc' = "wait" /\ UNCHANGED q /\ NoEv /\ EnvRest

\* ---- waiting: children are collected one by one, until there is something else to do
Exited == {i \in DOMAIN L.running : ~None(s.live[i].exitT)}
LWait ==
  /\ pc = "wait"
  /\ IF DOMAIN L.running = {} /\ L.shutdown
     THEN Step([e |-> "down", t |-> T]) /\ pc' = "down" /\ UNCHANGED <<L, q>> /\ EnvRest
     ELSE IF L.next <= T \/ (q = {"reaped"} /\ DOMAIN L.running = {})
     THEN pc' = "top" /\ q' = {} /\ UNCHANGED L /\ NoEv /\ EnvRest
     ELSE IF Exited # {}
     THEN \E i \in Exited :
            LET r == s.live[i] IN
            /\ Step([e |-> "db", t |-> T, addrun |-> << >>, delrun |-> <<i>>, dele |-> << >>, dup |-> << >>,
                     add |-> << [id |-> i, job |-> r.job, sched |-> r.sched, start |-> r.start, ttype |-> r.ttype,
                                 tdata |-> r.tdata, rdata |-> r.rdata, stop |-> T, exit |-> ExitCode(r.status)] >>])
            /\ L' = [L EXCEPT !.running = Without(@, {i}),
                              !.groups = IF L.running[i].group = "" \/ ~Has(L.groups, L.running[i].group) \/ Bug = "leak" THEN @
                                         ELSE [@ EXCEPT ![L.running[i].group] = @ \ {i}]]
            /\ q' = (IF DOMAIN L.running = {i} THEN {"reaped"} ELSE {}) /\ UNCHANGED pc /\ EnvRest
     ELSE Step([e |-> "quiet", t |-> T]) /\ pc' = "slept" /\ UNCHANGED <<L, q>> /\ EnvRest

\* ---- the environment
Listening == pc \notin {"off", "load", "clear", "down"}
LTick == pc = "slept" /\ Tick /\ pc' = "wait" /\ UNCHANGED <<L, q>>
Open == pc \in {"slept"} \/ (Anywhere /\ Listening)
LPut == (Open \/ pc = "off") /\ Put /\ UNCHANGED lvars
LExit == Open /\ Exit /\ UNCHANGED lvars
LWrite == (Open \/ pc = "off") /\ WriteCfg /\ UNCHANGED <<lvars, bad>>
LSigArrives ==
  /\ Listening /\ nsig < MaxSig
  /\ \E g \in Sigs : /\ Step([e |-> "sig", t |-> T, sig |-> g, busy |-> pc # "slept"])
                     /\ L' = [L EXCEPT !.sigs = Append(@, g), !.next = T]
  /\ nsig' = nsig + 1 /\ pc' = (IF pc = "slept" THEN "wait" ELSE pc)
  /\ UNCHANGED <<q, nrun, ntrig, ncrash, ncfg, disk, lost, sig>>
\* the daemon is suspended for some time, anywhere
LFreeze == /\ Listening /\ nfr < MaxFreeze /\ nfr' = nfr + 1 /\ UNCHANGED <<L, q>> /\ pc' = (IF pc = "slept" THEN "wait" ELSE pc) /\ EnvRest /\ bad' = {}
           /\ \E d \in 1..4 : /\ T + d <= Horizon
                            /\ s' = Apply(h, Apply(h, Apply(h, s, [e |-> "freeze", t |-> T]), [e |-> "tick", t |-> T + d]), [e |-> "thaw", t |-> T + d])
LCrash == /\ pc # "off" /\ Crash /\ pc' = "off" /\ L' = L0 /\ q' = {}

LOver == /\ T = Horizon \/ pc = "down" \/ nrun = MaxRuns \/ (pc = "off" /\ ~Cfgs[disk + 1].valid /\ ncfg = MaxCfg)
            \/ pc = "load"
         /\ UNCHANGED <<vars, lvars, bad, nfr>>

LEnv == LTick \/ LPut \/ LExit \/ LWrite \/ LSigArrives \/ LCrash
LLoop == LBoot \/ LLoad \/ LClear \/ LTop \/ LSignal \/ LKillAll \/ LTrig \/ LSched \/ LFork \/ LExec \/ LShut \/ LWake \/ LWait
LNext == (LLoop /\ nfr' = nfr) \/ (LEnv /\ nfr' = nfr) \/ LFreeze \/ LOver
LSpec == LInit /\ [][LNext]_<<vars, lvars, bad, nfr>>

(***************************************************************************)
(* The loop is allowed everything it does, and both sides agree            *)
(***************************************************************************)
Conforms == bad = {}
\* what the loop remembers is what there is
InStep ==
  pc \in {"top", "slept"} /\ s.up = "run" =>
    /\ DOMAIN L.running = DOMAIN s.live
    /\ \A i \in DOMAIN s.live : s.live[i].group = L.running[i].group /\ s.live[i].job = L.running[i].job
    /\ pc = "slept" => {p.job : p \in L.sched} = {p.job : p \in s.pend}
=============================================================================
