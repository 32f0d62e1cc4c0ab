----------------------------- MODULE ConfigTrace -----------------------------
EXTENDS Config, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES k, l, s, bad
vars == <<k, l, s, bad>>
Init == k \in 1..Len(Traces) /\ l = 2 /\ s = Empty /\ bad = {}
Next ==
  /\ l <= Len(Traces[k])
  /\ LET ev == Traces[k][l]  b == Bad(s, ev) \ bad IN
       /\ s' = Apply(s, ev) /\ bad' = bad \cup b
       /\ \A c \in b : PrintT(<<"BAD", k, l, c, {"C15"}>>)
       /\ PrintT(<<"HIT", k, {IF Accept(ev) THEN "accepted" ELSE "rejected"}>>)
  /\ l' = l + 1 /\ k' = k
  /\ (l = Len(Traces[k]) => PrintT(<<"DONE", k, l>>))
Spec == Init /\ [][Next]_vars
View == <<k, l>>
=============================================================================
