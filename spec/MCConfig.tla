------------------------------ MODULE MCConfig ------------------------------
(* Laws of merging, checked on all small documents, and the file sets which  *)
(* are written to disk and loaded by the implementation.                     *)
EXTENDS Config, Json, IOUtils

Str(x) == [t |-> "s", v |-> x]
Cmd(x) == [t |-> "l", v |-> <<Str(x)>>]
ShCmd == [t |-> "s", v |-> "y 'z z'", sh |-> <<"y", "z z">>]
One(k, v) == Dict(k :> v)
InA(v) == One("jobs", One("a", v))

Docs == << Empty,
           InA(One("command", Cmd("x"))),
           InA(One("environment", One("A", Str("1")))),
           InA(Dict(("command" :> ShCmd) @@ ("environment" :> Dict(("A" :> Str("2")) @@ ("B" :> Str("3")))))),
           InA([t |-> "b", v |-> TRUE]),
           One("environment", Dict(("E" :> [t |-> "i", v |-> 5, str |-> "5", ms |-> 5000]))),
           Dict(("jobs" :> One("b", One("command", Cmd("w")))) @@ ("concurrency_groups" :> One("g", Empty))),
           One("job_groups", One("jg", Dict(("job_names" :> [t |-> "l", v |-> <<Str("a"), Str("c")>>]) @@ ("command" :> Cmd("grp"))))) >>
D == {Docs[k] : k \in DOMAIN Docs}

\* a document which replaces an array by something else cuts off what is merged later
T == D \ {InA([t |-> "b", v |-> TRUE])}
ASSUME \A a, b, c \in T : Merge(Merge(a, b), c) = Merge(a, Merge(b, c))
ASSUME \A a \in D : Merge(a, Empty) = a /\ Merge(Empty, a) = a /\ Merge(a, a) = a
\* the later document wins wherever it says something that is no array
RECURSIVE Wins(_, _)
Wins(b, m) == IF b.t # "d" THEN m = b ELSE m.t = "d" /\ \A k \in DOMAIN b.v : Has(m.v, k) /\ Wins(b.v[k], m.v[k])
ASSUME \A a, b \in D : Wins(b, Merge(a, b))
\* and nothing is invented
ASSUME \A a, b \in D : DOMAIN Merge(a, b).v = DOMAIN a.v \cup DOMAIN b.v
\* an accepted configuration has a command for every job, and every group that is used
ASSUME \A a, b \in D : DocOK(Merge(a, b)) =>
         LET e == Eff(Merge(a, b), "") IN
         /\ \A n \in DOMAIN e.jobs : Len(e.jobs[n].command) > 0
         /\ \A n \in DOMAIN e.jobs : e.jobs[n].concurrency_groups \subseteq DOMAIN e.groups

N == Len(Docs)
Cases == [k \in 1..(N * N * N * N) |->
           << Docs[((k - 1) % N) + 1], Docs[(((k - 1) \div N) % N) + 1],
              Docs[(((k - 1) \div (N * N)) % N) + 1], Docs[((k - 1) \div (N * N * N)) + 1] >>]
ASSUME JsonSerialize(IOEnv.CASES, Cases)
VARIABLE x
Init == x = 0
Next == x' = x
=============================================================================
