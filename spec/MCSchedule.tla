----------------------------- MODULE MCSchedule -----------------------------
(* Schedule.tla against plain definitions: the calendar, the hash, and the   *)
(* search for the first match against trying every minute, in zones whose    *)
(* clocks are changed.  One state per (zone, pattern, minute).               *)
EXTENDS Schedule

\* the calendar counts days without gaps
ASSUME \A day \in 10957..24837 : LET c == Civil(day) IN
         /\ DayOf(c.y, c.m, c.d) = day
         /\ LET n == Civil(day + 1) IN
              \/ n = [c EXCEPT !.d = @ + 1] /\ n.d <= DaysInMonth(c.y, c.m)
              \/ c.d = DaysInMonth(c.y, c.m) /\ n.d = 1 /\ (IF c.m = 12 THEN n.m = 1 /\ n.y = c.y + 1 ELSE n.m = c.m + 1 /\ n.y = c.y)
ASSUME Civil(0) = [y |-> 1970, m |-> 1, d |-> 1] /\ Dow(0) = 4 /\ Civil(19782) = [y |-> 2024, m |-> 2, d |-> 29]
\* the hash, where numbers are small enough to compute it directly
ASSUME \A hi \in {0, 1, 5, 77, 16383}, lo \in {0, 1, 31, 32767, 65535}, pos \in 0..5, n \in {1, 2, 7, 12, 24, 28, 31, 60} :
         HashMod(<<hi, lo>>, pos, n) = ((hi * 65536 + lo) \div (2 ^ pos)) % n
ASSUME \A hi \in {0, 3, 20000}, lo \in {0, 9, 65535} : DayAnchor(<<hi, lo>>) = (hi * 65536 + lo) % 86400
\* a hash stays within its bounds, and a field is never empty
Crcs == {<<h, l>> : h \in {0, 1, 255, 4096, 32768, 65535}, l \in {0, 1, 2, 33, 511, 43690, 65535}}
ASSUME \A crc \in Crcs, i \in 1..6, n \in {1, 2, 3, 4, 7, 10, 15, 30} :
         LET S(it) == FieldSet(<<it>>, i, crc)  mid == Lo[i] + 2 IN
         /\ S([k |-> "H"]) \subseteq Lo[i]..Hi[i] /\ Cardinality(S([k |-> "H"])) = 1
         /\ S([k |-> "Hs", n |-> n]) # {} /\ Min(S([k |-> "Hs", n |-> n])) <= Lo[i] + n - 1
         /\ S([k |-> "Hrs", a |-> Lo[i], b |-> mid, n |-> n]) # {} /\ S([k |-> "Hrs", a |-> Lo[i], b |-> mid, n |-> n]) \subseteq Lo[i]..mid
         /\ S([k |-> "Hr", a |-> mid, b |-> mid]) = {mid}

\* 1000 days after the epoch is a Tuesday (1972-09-27 is a Wednesday); zones change their clocks on the second day
D == 86400
T0 == 19900 * D                \* 2024-06-26, a Wednesday
Zones == << << [from |-> 0, off |-> 0] >>,
            << [from |-> 0, off |-> -18000], [from |-> T0 + D + 7 * 3600, off |-> -14400] >>,          \* an hour skipped
            << [from |-> 0, off |-> -14400], [from |-> T0 + D + 6 * 3600, off |-> -18000] >>,          \* an hour repeated
            << [from |-> 0, off |-> 37800], [from |-> T0 + D + 15 * 3600, off |-> 39600] >>,           \* half an hour skipped
            << [from |-> 0, off |-> 39600], [from |-> T0 + D + 15 * 3600, off |-> 37800] >>,           \* half an hour repeated
            << [from |-> 0, off |-> -36000], [from |-> T0 + D + 10 * 3600, off |-> 50400] >>,          \* a day skipped
            << [from |-> 0, off |-> 3600], [from |-> T0 + D + 3600, off |-> 7200], [from |-> T0 + D + 20 * 3600, off |-> 3600] >> >>
V(a) == <<[k |-> "val", a |-> a]>>
St(n) == <<[k |-> "star", n |-> n]>>
Cron(f) == CronPattern([kind |-> "cron", word |-> "", fields |-> f], <<3, 5>>)
NoR == [freq |-> "DAILY", interval |-> 1, byday |-> <<>>, bymonthday |-> {}, bymonth |-> {}, byhour |-> {}, byminute |-> {}, bysecond |-> {0}, bysetpos |-> {}]
Patterns == << Cron(<<V(30), St(1), St(1), St(1), St(1), V(0)>>),
               Cron(<<V(15), V(2), St(1), St(1), St(1), V(0)>>),
               Cron(<<St(20), V(1), St(1), St(1), St(1), V(0)>>),
               Cron(<<V(0), V(0), St(1), St(1), V(5), V(0)>>),
               Cron(<<V(0), St(5), V(28), St(1), V(4), V(0)>>),
               RulePattern([NoR EXCEPT !.freq = "HOURLY", !.interval = 3, !.byminute = {7, 40}], <<3, 5>>),
               RulePattern([NoR EXCEPT !.freq = "MINUTELY", !.interval = 45], <<3, 5>>),
               RulePattern([NoR EXCEPT !.freq = "MONTHLY", !.byday = <<[n |-> 4, d |-> 5], [n |-> -1, d |-> 4]>>, !.byhour = {1, 23}], <<3, 5>>) >>
CONSTANTS Limit, Which
VARIABLES z, p, n
Init == z \in DOMAIN Zones /\ p \in Which /\ n = 0
Step == 7
Next == n < Limit /\ n' = n + Step /\ UNCHANGED <<z, p>>
\* the search finds exactly the first minute that matches and is not a repetition: nothing matches before the
\* next state's minute, and from there it finds the same
Least == LET t == T0 + n * 60   x == FirstUTC(Patterns[p], Zones[z], t)
             good(u) == Matches(Patterns[p], Zones[z], u) /\ ~InFold(Zones[z], u) IN
         IF x = -1 THEN FALSE
         ELSE /\ x >= t /\ good(x)
              /\ \A m \in n..(n + Step - 1) : LET u == T0 + m * 60 IN u < x => ~good(u)
              /\ x >= t + Step * 60 => FirstUTC(Patterns[p], Zones[z], t + Step * 60) = x
Spec == Init /\ [][Next]_<<z, p, n>>
=============================================================================
