-------------------------------- MODULE Store --------------------------------
(* The run store of dsari: the table of finished runs and the table of running ones, as the daemon writes them and
   the tools read them.  A run is a record
     [id, job, sched, start, stop, code, ttype, tdata, rdata]
   with times as [s, us] (seconds since an epoch of the trace) and JSON data in a canonical text; a running run has
   stop = NoTime and code = NoCode.                                                                               *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt, Functions

NoTime == [s |-> -1, us |-> 0]
NoCode == 9999

Range2(q) == {q[i] : i \in 1..Len(q)}
Lt(a, b) == a.s < b.s \/ (a.s = b.s /\ a.us < b.us)
Le(a, b) == a = b \/ Lt(a, b)
\* microseconds from a to b; only for times less than 2000 seconds apart
Diff(a, b) == (b.s - a.s) * 1000000 + (b.us - a.us)

StoreEmpty == [runs |-> <<>>, running |-> <<>>]
Running(r) == [r EXCEPT !.stop = NoTime, !.code = NoCode]
Start(st, r) == [st EXCEPT !.running = Append(@, Running(r))]
Without(q, id) == SelectSeq(q, LAMBDA r : r.id # id)
Finish(st, r) == [runs |-> Append(st.runs, r), running |-> Without(st.running, r.id)]
Clear(st) == [st EXCEPT !.running = <<>>]

IsOp(ev) == ev.e \in {"start", "finish", "clear"}
Op(st, ev) == CASE ev.e = "start" -> Start(st, ev.run)
                [] ev.e = "finish" -> Finish(st, ev.run)
                [] ev.e = "clear" -> Clear(st)
                [] OTHER -> st

\* a filter is [given, v]; run ids win over job names
Select(q, names, ids) == SelectSeq(q, LAMBDA r : IF ids.given THEN r.id \in Range2(ids.v)
                                                 ELSE names.given => r.job \in Range2(names.v))
Listing(st, running, names, ids) == Select(IF running THEN st.running ELSE st.runs, names, ids)

\* two sequences have the same elements, as often (ids make the elements of a listing distinct)
SameBag(p, q) == Len(p) = Len(q) /\ Range2(p) = Range2(q)
               /\ \A x \in Range2(p) : Len(SelectSeq(p, LAMBDA y : y = x)) = Len(SelectSeq(q, LAMBDA y : y = x))

\* the latest of the runs of a set by stop time; more than one if the times are the same
Latest(S) == {r \in S : \A x \in S : Le(x.stop, r.stop)}
OfJob(st, job) == {r \in Range2(st.runs) : r.job = job}
PreviousOf(st, job) == <<OfJob(st, job), {r \in OfJob(st, job) : r.code = 0}, {r \in OfJob(st, job) : r.code # 0}>>

\* ---------------------------------------------------------------- what a back end shows (grain: microseconds of its clock)
Grain(t, g) == IF t = NoTime THEN t ELSE [s |-> t.s, us |-> (t.us \div g) * g]
Seen(r, g) == [r EXCEPT !.sched = Grain(@, g), !.start = Grain(@, g), !.stop = Grain(@, g)]
SeenAll(q, g) == [i \in 1..Len(q) |-> Seen(q[i], g)]
SeenStore(st, g) == [runs |-> SeenAll(st.runs, g), running |-> SeenAll(st.running, g)]

\* every result which a failure during an operation may leave behind
AfterFault(st, op, seen) ==
  CASE op.e = "start"  -> {st, Start(st, op.run)}
    [] op.e = "finish" -> {st, Finish(st, op.run), [Finish(st, op.run) EXCEPT !.running = st.running]}
    [] op.e = "clear"  -> {st, [st EXCEPT !.running = SelectSeq(@, LAMBDA r : \E x \in Range2(seen.running) : x.id = r.id)]}   \* any of them
    [] OTHER -> {st}
SameStore(a, b) == SameBag(a.runs, b.runs) /\ SameBag(a.running, b.running)

StoreBad(st, ev, g) ==
  CASE ev.e = "list" ->
         LET want == SeenAll(Listing(st, ev.running, ev.names, ev.ids), g) IN
         (IF \E r \in Range2(want) : r.id \notin {x.id : x \in Range2(ev.out)} THEN {"list_lost_run"} ELSE {})
         \cup (IF \E x \in Range2(ev.out) : x.id \notin {r.id : r \in Range2(want)} THEN {"list_wrong_run"} ELSE {})
         \cup (IF Len(ev.out) # Cardinality({x.id : x \in Range2(ev.out)}) THEN {"list_twice"} ELSE {})
         \cup (IF {x.id : x \in Range2(ev.out)} = {r.id : r \in Range2(want)} /\ ~(Range2(ev.out) \subseteq Range2(want)) THEN {"list_data"} ELSE {})
    [] ev.e = "previous" ->
         LET want == PreviousOf(SeenStore(st, g), ev.job) IN
         {<<"previous", "previous_good", "previous_bad">>[i] :
            i \in {i \in 1..3 : IF want[i] = {} THEN ev.out[i] # <<>> ELSE Len(ev.out[i]) # 1 \/ ev.out[i][1] \notin Latest(want[i])}}
    [] ev.e = "fault" ->
         IF \E x \in AfterFault(st, ev.op, ev.seen) : SameStore(SeenStore(x, g), ev.seen) THEN {} ELSE {"fault_lost"}
    [] ev.e = "error" -> {"error"}
    [] OTHER -> {}

\* the state after a fault is the one which was seen
StoreNext(st, ev, g) ==
  IF ev.e = "fault" THEN LET S == {x \in AfterFault(st, ev.op, ev.seen) : SameStore(SeenStore(x, g), ev.seen)} IN IF S = {} THEN ev.seen ELSE CHOOSE x \in S : TRUE
  ELSE Op(st, ev)

\* a run is in the table of finished runs once, and only there after it has finished (invariant of the model)
StoreInv(st) ==
  /\ \A i, j \in 1..Len(st.runs) : st.runs[i].id = st.runs[j].id => i = j
  /\ \A i, j \in 1..Len(st.running) : st.running[i].id = st.running[j].id => i = j
=============================================================================
