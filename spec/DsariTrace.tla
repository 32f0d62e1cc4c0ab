----------------------------- MODULE DsariTrace -----------------------------
(* Traces recorded from the real daemon, judged by Dsari.tla.  Several traces *)
(* at once, each from its own initial state; every violated clause is printed *)
(* once per trace and the trace is followed to its end all the same.          *)
EXTENDS Dsari, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACES)

VARIABLES k, l, s, bad
vars == <<k, l, s, bad>>

Init == k \in 1..Len(Traces) /\ l = 2 /\ s = Init0 /\ bad = {}

Next ==
  /\ l <= Len(Traces[k])
  /\ LET h == Traces[k][1]
         ev == Traces[k][l]
         b == Bad(h, s, ev) \ bad
     IN /\ s' = Apply(h, s, ev)
        /\ bad' = bad \cup b
        /\ \A c \in b : PrintT(<<"BAD", k, l, c, ClauseProps[c]>>)
  /\ l' = l + 1
  /\ k' = k
  /\ (l = Len(Traces[k]) => PrintT(<<"DONE", k, l>>))

Spec == Init /\ [][Next]_vars
View == <<k, l>>
=============================================================================
