---------------------------- MODULE ScheduleTrace ----------------------------
EXTENDS Schedule, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES k, l
Init == k \in 1..Len(Traces) /\ l = 2
Kind(ev) == IF ev.e = "sample" THEN "sample" ELSE ev.res.k
Next ==
  /\ l <= Len(Traces[k])
  /\ LET j == Traces[k][1].jobs[Traces[k][l].job]
         ev == ("zone" :> Traces[k][1].zones[j.z]) @@ ("s" :> j.s) @@ ("crc" :> j.crc) @@ ("sub" :> j.sub) @@ Traces[k][l]
         b == IF ev.e = "sample" THEN BadSample(ev) ELSE IF ev.e = "quiet" THEN BadQuiet(ev) ELSE Bad(ev) IN
       /\ \A c \in b : PrintT(<<"BAD", k, l, c, Props(ev)>>)
       /\ PrintT(<<"HIT", k, {Kind(ev), ev.s.kind}
                    \cup (IF ev.e = "next" /\ ev.res.k = "time" /\ InFold(ev.zone, Base(ev).s) THEN {"in_fold"} ELSE {})
                    \cup (IF ev.e = "next" /\ ev.res.k = "time" /\ Len(ev.zone) > 1 /\ SegAt(ev.zone, ev.start.s) # SegAt(ev.zone, Base(ev).s) THEN {"across_transition"} ELSE {})>>)
  /\ l' = l + 1 /\ k' = k
  /\ (l = Len(Traces[k]) => PrintT(<<"DONE", k, l>>))
Spec == Init /\ [][Next]_<<k, l>>
=============================================================================
