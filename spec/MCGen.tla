------------------------------- MODULE MCGen -------------------------------
(***************************************************************************)
(* Generates schedules of the environment: random walks (tlc -simulate)    *)
(* through the model of the main loop (MCLoop) which note down what the    *)
(* environment did and when - trigger files, signals, changes of the       *)
(* configuration file, crashes - and how long each run lived.  The harness *)
(* (harness/genscen.py) turns each schedule into a scenario for the real   *)
(* daemon, whose trace is then judged by DsariTrace.                       *)
(*                                                                         *)
(* The walks are random, but not uniform: an action of the environment is  *)
(* considered with probability 1/Rare only, or else all of them would      *)
(* happen in the first tick.                                               *)
(***************************************************************************)
EXTENDS MCLoop, Json

CONSTANT Rare

VARIABLE hist

May(n) == RandomElement(1..n) = 1
Note(x) == hist' = Append(hist, x)
H0 == UNCHANGED hist

GInit == LInit /\ hist = << >>

Daemon == \/ LBoot \/ LLoad \/ LClear \/ LTop \/ LSignal \/ LKillAll \/ LTrig \/ LSched \/ LExec \/ LShut \/ LWake \/ LWait

NewTrig == CHOOSE x \in s'.trig : x \notin s.trig
GPut == /\ May(Rare) /\ LPut
        /\ LET x == NewTrig IN Note([op |-> "put", t |-> T, job |-> x.job, fmt |-> x.fmt, valid |-> x.valid, at |-> x.at, busy |-> FALSE])
GFork == LFork /\ Note([op |-> "start", t |-> T, job |-> s.live[L.curid].job, run |-> L.curid])
GExit == /\ May(4) /\ LExit
         /\ LET i == CHOOSE i \in DOMAIN s.live : None(s.live[i].exitT) /\ ~None(s'.live[i].exitT)
            IN Note([op |-> "exit", t |-> T, run |-> i, status |-> s'.live[i].status])
GWrite == May(Rare) /\ LWrite /\ Note([op |-> "writecfg", t |-> T, cfg |-> disk'])
GSig == /\ May(IF pc = "slept" THEN Rare ELSE 3 * Rare) /\ LSigArrives
        /\ Note([op |-> "sig", t |-> T, sig |-> L'.sigs[Len(L'.sigs)], busy |-> pc # "slept", pc |-> pc])
GCrash == May(IF pc = "slept" THEN Rare ELSE 3 * Rare) /\ LCrash /\ Note([op |-> "crash", t |-> T, busy |-> pc # "slept", pc |-> pc])
GFreeze == May(IF pc = "slept" THEN Rare ELSE 3 * Rare) /\ LFreeze /\ s'.now < Horizon /\ Note([op |-> "freeze", t |-> T, d |-> s'.now - T])
GTick == LTick /\ H0 /\ (T + 1 = Horizon => PrintT(<<"GEN", ToJson(hist)>>))

GDaemon == Daemon /\ H0 /\ (pc' = "down" => PrintT(<<"GEN", ToJson(hist)>>))

GNext == ((GDaemon \/ GFork \/ GExit \/ GPut \/ GWrite \/ GSig \/ GCrash \/ GTick) /\ nfr' = nfr) \/ GFreeze
GSpec == GInit /\ [][GNext]_<<vars, lvars, bad, nfr, hist>>

ASSUME PrintT(<<"CFG", ToJson(Cfgs)>>)
=============================================================================
