----------------------------- MODULE ViewsTrace -----------------------------
EXTENDS Views, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES k, l, s
Init == k \in 1..Len(Traces) /\ l = 2 /\ s = ViewsInit(Traces[k][1])
Tag(ev, w) ==
  CASE ev.e = "end" -> {ev.cmd} \cup (IF Len(w) > 1 THEN {ev.cmd \o "_changed_meanwhile"} ELSE {})
                       \cup (IF ev.cmd = "runs" THEN {"runs_" \o ev.format} ELSE {})
    [] ev.e = "scrape" -> {"scrape"} \cup (IF Len(w) > 1 THEN {"scrape_changed_meanwhile"} ELSE {})
    [] OTHER -> {}
Next ==
  /\ l <= Len(Traces[k])
  /\ LET ev == Traces[k][l]  h == Traces[k][1] IN
       /\ s' = ViewsNext(s, ev)
       /\ \A c \in ViewsBad(s, ev, h) : PrintT(<<"BAD", k, l, c, {h.prop}>>)
       /\ PrintT(<<"HIT", k, Tag(ev, s.win)>>)
  /\ l' = l + 1 /\ k' = k
  /\ (l = Len(Traces[k]) => PrintT(<<"DONE", k, l>>))
Spec == Init /\ [][Next]_<<k, l, s>>
=============================================================================
