------------------------------- MODULE MCStore -------------------------------
(* The store with a writer which may fail in the middle of an operation and be restarted, and a reader which asks for
   the two tables one after the other, as the tools do: a reader which asks for the running runs first and lets the
   finished ones win shows every run which exists all the time exactly once.                                        *)
EXTENDS Store
CONSTANTS MaxRuns, Faults
T(i) == [s |-> i, us |-> 0]
R(i, c) == [id |-> ToString(i), job |-> IF i % 2 = 0 THEN "a" ELSE "b", sched |-> T(i), start |-> T(i), stop |-> T(i + 10), code |-> c,
            ttype |-> "schedule", tdata |-> "{}", rdata |-> "{}"]
VARIABLES st, n, first, phase, seen0, done, gone
vars == <<st, n, first, phase, seen0, done, gone>>
\* done: runs of which the daemon has committed the end; gone: runs in progress which a restart forgot; first: what the reader got first
Init == st = StoreEmpty /\ n = 0 /\ first = <<>> /\ phase = "idle" /\ seen0 = {} /\ done = {} /\ gone = {}
Ids(q) == {r.id : r \in Range2(q)}
Write ==
  \/ n < MaxRuns /\ n' = n + 1 /\ st' = Start(st, R(n, 0)) /\ UNCHANGED <<done, gone>>
  \/ \E r \in Range2(st.running), c \in {0, 1} :
       LET f == [r EXCEPT !.stop = T(n + 10), !.code = c] IN
       /\ r.id \notin Ids(st.runs)
       /\ \/ st' = Finish(st, f) /\ done' = done \cup {r.id}
          \/ Faults /\ st' \in AfterFault(st, [e |-> "finish", run |-> f], st) /\ UNCHANGED done
       /\ UNCHANGED <<n, gone>>
  \/ Faults /\ st' = Clear(st) /\ gone' = gone \cup (Ids(st.running) \ Ids(st.runs)) /\ UNCHANGED <<n, done>>
ReadFirst == phase = "idle" /\ phase' = "read" /\ first' = st.running /\ seen0' = Ids(st.running) \cup Ids(st.runs)
ReadSecond == phase = "read" /\ phase' = "done" /\ UNCHANGED <<first, seen0>>
View == Ids(st.runs) \cup {i \in Ids(first) : i \notin Ids(st.runs)}
Next == \/ Write /\ phase # "done" /\ UNCHANGED <<first, phase, seen0>>
        \/ ReadFirst /\ UNCHANGED <<st, n, done, gone>>
        \/ ReadSecond /\ UNCHANGED <<st, n, done, gone>>
Spec == Init /\ [][Next]_vars
Recorded == done \subseteq Ids(st.runs)
NeverLost == \A i \in 0..(n - 1) : ToString(i) \in Ids(st.runs) \cup Ids(st.running) \cup gone
Tables == StoreInv(st)
FinishedOnly == ~Faults => \A i \in Ids(st.runs) : i \notin Ids(st.running)
ReaderSeesAll == phase = "done" => seen0 \subseteq View
=============================================================================
