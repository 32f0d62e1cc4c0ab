----------------------------- MODULE RenderTrace -----------------------------
EXTENDS Render, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES k, l, s
Init == k \in 1..Len(Traces) /\ l = 2 /\ s = RenderInit
Tag(ev) ==
  IF ev.e # "render" THEN {}
  ELSE {IF ev.killed THEN "killed" ELSE "complete"} \cup (IF ev.regenerate THEN {"regenerate"} ELSE {})
       \cup (IF ~ev.killed /\ s.torn # {} THEN {"after_torn"} ELSE {}) \cup (IF ~ev.killed /\ Cardinality(Shown(s)) > 25 THEN {"over_25"} ELSE {})
       \cup (IF ~ev.killed /\ s.torn # {} /\ ev.written # <<>> THEN {"repaired"} ELSE {})
Next ==
  /\ l <= Len(Traces[k])
  /\ LET ev == Traces[k][l] IN
       /\ s' = RenderNext(s, ev)
       /\ (ev.e = "render" => \A c \in RenderBad(s, ev) : PrintT(<<"BAD", k, l, c, {"C19"}>>))
       /\ PrintT(<<"HIT", k, Tag(ev)>>)
  /\ l' = l + 1 /\ k' = k
  /\ (l = Len(Traces[k]) => PrintT(<<"DONE", k, l>>))
Spec == Init /\ [][Next]_<<k, l, s>>
=============================================================================
