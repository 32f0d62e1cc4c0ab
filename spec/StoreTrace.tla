----------------------------- MODULE StoreTrace -----------------------------
EXTENDS Store, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES k, l, st
Init == k \in 1..Len(Traces) /\ l = 2 /\ st = StoreEmpty
Next ==
  /\ l <= Len(Traces[k])
  /\ LET ev == Traces[k][l]  g == Traces[k][1].grain IN
       /\ st' = StoreNext(st, ev, g)
       /\ \A c \in StoreBad(st, ev, g) : PrintT(<<"BAD", k, l, c, {"C22"}>>)
       /\ PrintT(<<"HIT", k, {ev.e} \cup (IF ev.e = "list" /\ Len(ev.out) > 0 THEN {"list_nonempty"} ELSE {})
                              \cup (IF ev.e = "fault" THEN {IF ~SameStore(st, StoreNext(st, ev, g)) THEN "fault_done" ELSE "fault_undone"} ELSE {})>>)
  /\ l' = l + 1 /\ k' = k
  /\ (l = Len(Traces[k]) => PrintT(<<"DONE", k, l>>))
Spec == Init /\ [][Next]_<<k, l, st>>
Inv == StoreInv(st)
=============================================================================
