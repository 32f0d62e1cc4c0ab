------------------------------ MODULE Schedule ------------------------------
(* When a schedule produces the next run (C16, C17).                         *)
(*                                                                           *)
(* Cron fields and rules are sets of seconds of the wall clock; a zone is a  *)
(* sequence of segments of constant offset from UTC; the next run of a job   *)
(* is the first second which matches, plus the job's sub-second offset.      *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Has(r, k) == k \in DOMAIN r
Get(r, k, d) == IF k \in DOMAIN r THEN r[k] ELSE d
Min(S) == CHOOSE x \in S : \A y \in S : x <= y
Max(S) == CHOOSE x \in S : \A y \in S : x >= y

-----------------------------------------------------------------------------
(* The hash of a job name: crc32, as two halves of 16 bits *)
Shifted(crc, pos) ==      \* floor(crc / 2^pos), as two halves
  LET p == 2 ^ pos IN <<crc[1] \div p, (((crc[1] % p) * 65536) + crc[2]) \div p>>
Mod(v, n) == (((v[1] % n) * (65536 % n)) + (v[2] % n)) % n      \* for n < 2^15
HashMod(crc, pos, n) == Mod(Shifted(crc, pos), n)
DayAnchor(crc) == (((((crc[1] * 256) % 86400) * 256) % 86400) + crc[2]) % 86400

-----------------------------------------------------------------------------
(* The calendar *)
IsLeap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
DaysInMonth(y, m) == IF m = 2 THEN (IF IsLeap(y) THEN 29 ELSE 28) ELSE IF m \in {4, 6, 9, 11} THEN 30 ELSE 31
\* days since 1970-01-01 (Howard Hinnant's days_from_civil)
DayOf(y0, m, d) ==
  LET y == IF m <= 2 THEN y0 - 1 ELSE y0
      era == y \div 400   yoe == y - era * 400
      doy == ((153 * (m + (IF m > 2 THEN -3 ELSE 9)) + 2) \div 5) + d - 1
      doe == yoe * 365 + (yoe \div 4) - (yoe \div 100) + doy
  IN era * 146097 + doe - 719468
Civil(z0) ==
  LET z == z0 + 719468  era == z \div 146097  doe == z - era * 146097
      yoe == (doe - (doe \div 1460) + (doe \div 36524) - (doe \div 146096)) \div 365
      doy == doe - (365 * yoe + (yoe \div 4) - (yoe \div 100))
      mp == (5 * doy + 2) \div 153   d == doy - ((153 * mp + 2) \div 5) + 1
      m == IF mp < 10 THEN mp + 3 ELSE mp - 9
  IN [y |-> yoe + era * 400 + (IF m <= 2 THEN 1 ELSE 0), m |-> m, d |-> d]
Dow(day) == (day + 4) % 7        \* 0 is Sunday

-----------------------------------------------------------------------------
(* Cron.  Fields are minute, hour, day of month, month, day of week, second  *)
Lo == <<0, 0, 1, 1, 0, 0>>
Hi == <<59, 23, 31, 12, 6, 59>>
HashPos(i) == i - 1
Steps(a, b, n) == {x \in a..b : (x - a) % n = 0}
ItemSet(it, i, crc) ==
  LET lo == Lo[i]  hi == Hi[i]  H(a, b) == a + HashMod(crc, HashPos(i), b - a + 1) IN
  CASE it.k = "star"  -> Steps(lo, hi, it.n)
    [] it.k = "val"   -> {it.a}
    [] it.k = "range" -> Steps(it.a, it.b, it.n)
    [] it.k = "H"     -> {H(lo, hi)}
    [] it.k = "Hr"    -> {H(it.a, it.b)}
    [] it.k = "Hs"    -> Steps(H(lo, Min({lo + it.n - 1, hi})), hi, it.n)
    [] it.k = "Hrs"   -> Steps(H(it.a, Min({it.a + it.n - 1, it.b})), it.b, it.n)
    \* random: anything within the same bounds
    [] it.k \in {"R", "Rs"} -> lo..hi
    [] it.k \in {"Rr", "Rrs"} -> it.a..it.b
\* Sunday is 0 or 7
FieldSet(f, i, crc) == {IF i = 5 THEN x % 7 ELSE x : x \in UNION {ItemSet(f[j], i, crc) : j \in DOMAIN f}}
IsStar(f) == Len(f) = 1 /\ f[1].k = "star" /\ f[1].n = 1
Random(f) == \E j \in DOMAIN f : f[j].k \in {"R", "Rs", "Rr", "Rrs"}
HH == <<[k |-> "H"]>>
SS == <<[k |-> "star", n |-> 1]>>
Word(w) ==
  CASE w = "@midnight" -> <<HH, <<[k |-> "Hr", a |-> 0, b |-> 2]>>, SS, SS, SS>>
    [] w = "@hourly"   -> <<HH, SS, SS, SS, SS>>
    [] w = "@daily"    -> <<HH, HH, SS, SS, SS>>
    [] w = "@weekly"   -> <<HH, HH, SS, SS, HH>>
    [] w = "@monthly"  -> <<HH, HH, HH, SS, SS>>
    [] w \in {"@yearly", "@annually"} -> <<HH, HH, HH, HH, SS>>
\* the six fields
Fields(s) == LET f == IF s.word # "" THEN Word(s.word) ELSE s.fields IN IF Len(f) = 5 THEN Append(f, HH) ELSE f

\* A pattern: days given month by month, and the seconds of a day (minutes of the day x seconds)
CronPattern(s, crc) ==
  LET f == Fields(s)  v == [i \in 1..6 |-> FieldSet(f[i], i, crc)] IN
  [k |-> "cron", minutes |-> {h * 60 + m : h \in v[2], m \in v[1]}, seconds |-> v[6], doms |-> v[3], months |-> v[4], dows |-> v[5],
   domstar |-> IsStar(f[3]), dowstar |-> IsStar(f[5])]
AnyRandom(s) == \E i \in 1..6 : Random(Fields(s)[i])
RandomDay(s) == \E i \in {3, 4, 5} : Random(Fields(s)[i])

-----------------------------------------------------------------------------
(* RRULE: [freq, interval, byday, bymonthday, bymonth, byhour, byminute, bysecond, bysetpos, until] *)
Ring(a, step, n) == {x \in 0..(n - 1) : (x - a) % step = 0}
RulePattern(r, crc) ==
  LET t == DayAnchor(crc)  h == t \div 3600  m == (t \div 60) % 60  s == t % 60
      hours == IF r.byhour # {} THEN r.byhour
               ELSE IF r.freq = "HOURLY" THEN Ring(h, r.interval, 24)
               ELSE IF r.freq = "MINUTELY" THEN 0..23 ELSE {h}
      \* minutes of the day
      mins == IF r.freq = "MINUTELY" THEN {x \in Ring(h * 60 + m, r.interval, 1440) : (x \div 60) \in hours /\ (r.byminute = {} \/ (x % 60) \in r.byminute)}
              ELSE {x * 60 + y : x \in hours, y \in (IF r.byminute # {} THEN r.byminute ELSE {m})}
  IN [k |-> "rule", minutes |-> mins, seconds |-> IF r.bysecond # {} THEN r.bysecond ELSE {s}, r |-> r]

\* BYDAY entries are [n, d]: the n-th (last if negative; every one if 0) weekday d of the month
NthOK(e, y, m, d) ==
  LET day == DayOf(y, m, d) IN
  /\ Dow(day) = e.d
  /\ e.n = 0 \/ (e.n > 0 /\ ((d - 1) \div 7) + 1 = e.n) \/ (e.n < 0 /\ ((DaysInMonth(y, m) - d) \div 7) + 1 = -e.n)
RuleDays(r, y, m) ==
  LET n == DaysInMonth(y, m)
      base == {d \in 1..n : /\ r.bymonth = {} \/ m \in r.bymonth
                            /\ r.bymonthday = {} \/ d \in r.bymonthday \/ (d - n - 1) \in r.bymonthday
                            /\ r.byday = <<>> \/ \E j \in DOMAIN r.byday : NthOK(r.byday[j], y, m, d)}
  IN IF r.bysetpos = {} THEN base
     ELSE {d \in base : \/ Cardinality({x \in base : x <= d}) \in r.bysetpos
                        \/ -Cardinality({x \in base : x >= d}) \in r.bysetpos}

\* the matching days of a month
MonthDays(p, y, m) ==
  IF p.k = "rule" THEN RuleDays(p.r, y, m)
  ELSE IF m \notin p.months THEN {}
  ELSE {d \in 1..DaysInMonth(y, m) :
         LET inDom == d \in p.doms   inDow == Dow(DayOf(y, m, d)) \in p.dows IN
         IF ~p.domstar /\ ~p.dowstar THEN inDom \/ inDow ELSE inDom /\ inDow}
DayOK(p, day) == LET c == Civil(day) IN c.d \in MonthDays(p, c.y, c.m)

-----------------------------------------------------------------------------
(* The first match on the wall clock, in seconds; -1 if there is none before 2038 *)
NextTod(p, tod) ==   \* the first matching second of the day from tod, or -1
  LET mi == tod \div 60  here == IF mi \in p.minutes THEN {x \in p.seconds : x >= tod % 60} ELSE {} IN
  IF here # {} THEN mi * 60 + Min(here)
  ELSE LET later == {x \in p.minutes : x > mi} IN IF later = {} \/ p.seconds = {} THEN -1 ELSE Min(later) * 60 + Min(p.seconds)
RECURSIVE MonthSearch(_, _, _, _)
MonthSearch(p, y, m, d) ==   \* the first matching day from day d of the month
  IF y > 2037 THEN -1
  ELSE LET c == {x \in MonthDays(p, y, m) : x >= d} IN
       IF c # {} THEN DayOf(y, m, Min(c))
       ELSE IF m = 12 THEN MonthSearch(p, y + 1, 1, 1) ELSE MonthSearch(p, y, m + 1, 1)
NextDay(p, day) == LET c == Civil(day) IN MonthSearch(p, c.y, c.m, c.d)
FirstLocal(p, t) ==
  IF p.minutes = {} \/ p.seconds = {} THEN -1
  ELSE LET day == t \div 86400   x == IF DayOK(p, day) THEN NextTod(p, t % 86400) ELSE -1 IN
       IF x >= 0 THEN day * 86400 + x
       ELSE LET n == NextDay(p, day + 1) IN IF n = -1 THEN -1 ELSE n * 86400 + NextTod(p, 0)
MatchesLocal(p, t) == FirstLocal(p, t) = t

-----------------------------------------------------------------------------
(* Zones.  z = << [from, off], ... >>: offset off applies from the second from (of the first: always) *)
Segs(z) == DOMAIN z
SegEnd(z, i) == IF i = Len(z) THEN 2145916800 ELSE z[i + 1].from
SegAt(z, t) == Max({i \in Segs(z) : i = 1 \/ z[i].from <= t})
\* the end of the part of segment i that repeats wall clock times of the one before
FoldEnd(z, i) == IF i > 1 /\ z[i].off < z[i - 1].off THEN z[i].from + (z[i - 1].off - z[i].off) ELSE z[i].from
InFold(z, t) == LET i == SegAt(z, t) IN t < FoldEnd(z, i) /\ i > 1
Matches(p, z, t) == MatchesLocal(p, t + z[SegAt(z, t)].off)

\* the first matching second from t on, where wall clock times that are repeated count only once (the first time)
RECURSIVE FirstIn(_, _, _, _)
FirstIn(p, z, t, i) ==
  IF i > Len(z) THEN -1
  ELSE LET a == Max({t, IF i = 1 THEN t ELSE FoldEnd(z, i)})
           l == IF a >= SegEnd(z, i) THEN -1 ELSE FirstLocal(p, a + z[i].off) IN
       IF l # -1 /\ l - z[i].off < SegEnd(z, i) THEN l - z[i].off ELSE FirstIn(p, z, t, i + 1)
FirstUTC(p, z, t) == FirstIn(p, z, t, SegAt(z, t))

\* b stands for a wall clock time which the clocks skipped: matching wall clock times of a gap take place
\* that much late, that much early (by the clock after the change), not at all or at the end of the gap
GapMatch(p, z, b) ==
  \/ \E i \in Segs(z) : /\ i > 1 /\ z[i].off > z[i - 1].off
                        /\ z[i].from <= b /\ b <= z[i].from + (z[i].off - z[i - 1].off)
                        /\ LET l == FirstLocal(p, z[i].from + z[i - 1].off) IN l # -1 /\ l < z[i].from + z[i].off
  \/ \E i \in Segs(z) : /\ i > 1 /\ z[i].off > z[i - 1].off
                        /\ b < z[i].from /\ b + z[i].off >= z[i].from + z[i - 1].off
                        /\ MatchesLocal(p, b + z[i].off)

\* such a time, that much later, may come after (and hide) a time which follows it on the wall clock
GapShift(p, z, b) ==
  \E i \in Segs(z) : /\ i > 1 /\ z[i].off > z[i - 1].off
                     /\ z[i].from <= b /\ b < z[i].from + (z[i].off - z[i - 1].off)
                     /\ MatchesLocal(p, b + z[i - 1].off)

-----------------------------------------------------------------------------
(* Queries: [e |-> "next", job, crc, sub, s, zone, start: [s, us], res: [k: "time"|"none"|"error", s, us]]      *)
\* res - sub, as a pair
Base(ev) == LET d == ev.res.us - ev.sub IN
  IF d < -1 THEN [s |-> ev.res.s - 1, us |-> d + 1000000] ELSE [s |-> ev.res.s, us |-> d]
\* the first second b such that b + sub is after the start
Earliest(ev) == IF ev.sub > ev.start.us THEN ev.start.s ELSE ev.start.s + 1
IsRule(ev) == ev.s.kind = "rrule"
SetOf(q) == {q[j] : j \in DOMAIN q}
Rule(s) == [s EXCEPT !.byhour = SetOf(@), !.byminute = SetOf(@), !.bysecond = SetOf(@), !.bymonth = SetOf(@), !.bymonthday = SetOf(@), !.bysetpos = SetOf(@)]
Pattern(ev) == IF IsRule(ev) THEN RulePattern(Rule(ev.s), ev.crc) ELSE CronPattern(ev.s, ev.crc)

\* UNTIL as a second since 1970: in UTC, or a time of the zone
UntilUTC(ev) ==
  LET u == ev.s.until  z == ev.zone IN
  IF u.k = "utc" THEN u.s
  ELSE \* the wall clock time u.s of the zone (the first time if it is repeated)
       LET c == {i \in Segs(z) : u.s - z[i].off < SegEnd(z, i) /\ (i = 1 \/ u.s - z[i].off >= z[i].from)} IN
       IF c = {} THEN u.s - z[SegAt(z, u.s - z[1].off)].off ELSE u.s - z[Min(c)].off

Expected(ev) ==
  LET x == FirstUTC(Pattern(ev), ev.zone, Earliest(ev)) IN
  IF x = -1 \/ (IsRule(ev) /\ ev.s.until.k # "" /\ x > UntilUTC(ev)) THEN -1 ELSE x

\* the clauses which a query breaks
Bad(ev) ==
  LET p == Pattern(ev)  z == ev.zone  exp == Expected(ev)  b == Base(ev)
      rnd == ~IsRule(ev) /\ AnyRandom(ev.s)
      off == b.us \notin {-1, 0, 1}
      late == exp # -1 /\ b.s > exp
  IN
  \* croniter has no use for a day of the month that never occurs, even if there are days of the week as well
  IF ev.res.k = "error" THEN IF exp = -1 \/ (~IsRule(ev) /\ FirstLocal([p EXCEPT !.dows = 0..6, !.dowstar = TRUE], ev.start.s) = -1) THEN {} ELSE {"rejected"}
  ELSE IF ev.res.k = "none" THEN IF exp = -1 THEN {} ELSE {"no_run"}
  ELSE (IF off THEN {"subsecond_offset"} ELSE {})
    \cup (IF b.s < Earliest(ev) THEN {"not_after_reference"} ELSE {})
    \cup (IF b.s < Earliest(ev) \/ off THEN {}
          ELSE IF rnd
          THEN (IF ~Matches(p, z, b.s) /\ ~GapMatch(p, z, b.s) THEN {"outside_random_bounds"} ELSE {})
          ELSE IF b.s = exp THEN {}
          ELSE IF exp = -1 THEN (IF IsRule(ev) /\ ev.s.until.k # "" /\ Matches(p, z, b.s) THEN {"after_until"} ELSE {"no_match"})
          ELSE IF late THEN (IF GapShift(p, z, b.s) THEN {} ELSE {"skipped"})
          ELSE IF (InFold(z, b.s) /\ Matches(p, z, b.s)) \/ GapMatch(p, z, b.s) THEN {}
          ELSE {"no_match"})
    \* a random time of the day lies within the first two matching days
    \cup (IF rnd /\ ~RandomDay(ev.s) /\ exp # -1 /\ b.s > FirstUTC(p, z, exp + 86400) + 90000 THEN {"random_skipped"} ELSE {})

\* many answers to the same question: [e |-> "sample", s, answers: how many different ones there were, calls]
BadSample(ev) ==
  IF IsRule(ev) \/ ~AnyRandom(ev.s) THEN (IF ev.answers # 1 THEN {"not_deterministic"} ELSE {})
  ELSE IF ev.answers = 1 /\ ev.calls >= 20 THEN {"random_constant"} ELSE {}

\* shortly before this time the clocks were changed, so that another one may have been chosen
AnyZoneGap(ev, x) == \E i \in Segs(ev.zone) : i > 1 /\ ev.zone[i].from > ev.start.s - 7300 /\ ev.zone[i].from <= x + 7300

\* the daemon started no further run of the job before the time until:
\* [e |-> "quiet", job, start, until, first: there was none at all, died: the daemon is dead]
BadQuiet(ev) ==
  LET p == Pattern(ev)  x == Expected([ev EXCEPT !.start.s = IF ev.first THEN @ + 2 ELSE @]) IN
  (IF ev.died THEN {"daemon_died"} ELSE {})
  \cup (IF x # -1 /\ x < ev.until /\ ~ev.died /\ ~AnyZoneGap(ev, x) THEN {"run_missing"} ELSE {})
Props(ev) == IF ev.s.kind = "cron" /\ Len(ev.zone) = 1 /\ ev.zone[1].off = 0 THEN {"C16"} ELSE {"C17"}
=============================================================================
