------------------------------- MODULE Config -------------------------------
(***************************************************************************)
(* The effective configuration (C15).                                      *)
(*                                                                         *)
(* A document is a tagged value:                                           *)
(*   [t |-> "d", v |-> record]   associative array                         *)
(*   [t |-> "l", v |-> sequence] list                                      *)
(*   [t |-> "s", v |-> string]   string; a command string also has sh (the *)
(*                               arguments it stands for) or shbad, a      *)
(*                               schedule has ok (is it a valid schedule), *)
(*                               an environment text may have enc |-> FALSE*)
(*                               (contains NUL or cannot be encoded)       *)
(*   [t |-> "i", v |-> n, str |-> its decimal text, ms |-> n * 1000]       *)
(*   [t |-> "f", str |-> its text, ms |-> value in milliseconds]           *)
(*   [t |-> "x"] a number outside of any usable range (NaN, infinite)      *)
(*   [t |-> "b", v |-> BOOLEAN], [t |-> "n"] (null)                        *)
(*                                                                         *)
(* State: the configuration in force.  Event load(files): the files as     *)
(* they are on disk, and what the implementation made of them.             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Has(r, k) == k \in DOMAIN r
Range(f) == {f[x] : x \in DOMAIN f}
Dict(r) == [t |-> "d", v |-> r]
Empty == Dict(<< >>)

(***************************************************************************)
(* Merging: associative arrays recursively, everything else replaces       *)
(***************************************************************************)
RECURSIVE Merge(_, _)
Merge(a, b) ==
  IF a.t # "d" \/ b.t # "d" THEN b
  ELSE Dict([k \in (DOMAIN a.v) \cup (DOMAIN b.v) |->
               IF ~Has(b.v, k) THEN a.v[k]
               ELSE IF ~Has(a.v, k) THEN b.v[k]
               ELSE Merge(a.v[k], b.v[k])])

\* a file: [ok, doc]; an empty YAML file (null) is an empty array
FileOK(f) == f.ok /\ f.doc.t \in {"d", "n"}
Root(f) == IF f.doc.t = "n" THEN Empty ELSE f.doc

RECURSIVE MergeAll(_, _)
MergeAll(a, fs) == IF fs = << >> THEN a ELSE MergeAll(Merge(a, Root(Head(fs))), Tail(fs))

(***************************************************************************)
(* Checks of values                                                        *)
(***************************************************************************)
Chars(s) == {SubSeq(s, k, k) : k \in 1..Len(s)}
NameChars == Chars("- ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789_+.:@")
ValidName(n) == /\ Len(n) >= 1 /\ Len(n) <= 64 /\ n \notin {".", ".."} /\ Chars(n) \subseteq NameChars

Enc(x) == ~Has(x, "enc") \/ x.enc
EnvOK(e) == /\ e.t = "d"
            /\ \A k \in DOMAIN e.v : /\ k # "" /\ "=" \notin Chars(k)
                                     /\ e.v[k].t \in {"s", "i", "f"} /\ Enc(e.v[k])
            /\ ~Has(e, "badkeys")
EnvText(x) == IF x.t = "s" THEN x.v ELSE x.str
Env(e) == [k \in DOMAIN e.v |-> EnvText(e.v[k])]

IsNum(x) == x.t \in {"i", "f"}
IsStr(x) == x.t = "s"
IsBool(x) == x.t = "b"
IsInt(x) == x.t = "i"
Opt(d, k, P(_)) == ~Has(d, k) \/ P(d[k])

CommandOK(c) == \/ c.t = "s" /\ ~Has(c, "shbad") /\ Len(c.sh) > 0
                \/ c.t = "l" /\ Len(c.v) > 0 /\ \A k \in DOMAIN c.v : c.v[k].t = "s" /\ Enc(c.v[k])
Command(c) == IF c.t = "s" THEN c.sh ELSE [k \in DOMAIN c.v |-> c.v[k].v]
ScheduleOK(x) == x.t = "n" \/ (x.t = "s" /\ x.ok)
NameList(x) == x.t = "l" /\ \A k \in DOMAIN x.v : x.v[k].t = "s" /\ ValidName(x.v[k].v)

JobOK(name, j) ==
  /\ ValidName(name)
  /\ j.t = "d"
  /\ LET d == j.v IN
     /\ Has(d, "command") /\ CommandOK(d["command"])
     /\ Opt(d, "schedule", ScheduleOK)
     /\ Opt(d, "schedule_timezone", IsStr)
     /\ Opt(d, "max_execution", IsNum) /\ Opt(d, "max_execution_grace", IsNum)
     /\ Opt(d, "environment", EnvOK)
     /\ Opt(d, "render_reports", IsBool) /\ Opt(d, "command_append_run", IsBool)
     /\ Opt(d, "jenkins_environment", IsBool) /\ Opt(d, "concurrent_runs", IsBool)
     /\ Opt(d, "job_group", IsStr)
     /\ Opt(d, "concurrency_groups", NameList)

GroupOK(name, g) == ValidName(name) /\ g.t = "d" /\ Opt(g.v, "max", IsInt)

(***************************************************************************)
(* Job groups: one job per name, carrying the settings and the group name  *)
(***************************************************************************)
JobGroupOK(name, g) == /\ ValidName(name) /\ g.t = "d" /\ Has(g.v, "job_names")
                       /\ g.v["job_names"].t = "l"
                       /\ \A k \in DOMAIN g.v["job_names"].v : g.v["job_names"].v[k].t = "s"
NamesOf(g) == {g.v["job_names"].v[k].v : k \in DOMAIN g.v["job_names"].v}
Member(gname, g) == Dict([k \in (DOMAIN g.v \ {"job_names"}) \cup {"job_group"} |->
                            IF k = "job_group" THEN [t |-> "s", v |-> gname] ELSE g.v[k]])
Part(doc, k) == IF Has(doc.v, k) THEN doc.v[k] ELSE Empty
Jobs(doc) ==
  LET J == Part(doc, "jobs").v  G == Part(doc, "job_groups").v
      fromG == UNION {NamesOf(G[g]) : g \in DOMAIN G}
  IN [n \in (DOMAIN J) \cup fromG |->
        IF n \in fromG THEN LET g == CHOOSE g \in DOMAIN G : n \in NamesOf(G[g]) IN Member(g, G[g]) ELSE J[n]]

DocOK(doc) ==
  LET d == doc.v IN
  /\ Opt(d, "data_dir", IsStr) /\ Opt(d, "template_dir", IsStr)
  /\ Opt(d, "report_html_gz", IsBool) /\ Opt(d, "report_run_output_start", IsInt) /\ Opt(d, "report_run_output_end", IsInt)
  /\ Opt(d, "shutdown_kill_runs", IsBool) /\ Opt(d, "shutdown_kill_grace", IsNum)
  /\ Opt(d, "environment", EnvOK)
  /\ Opt(d, "database", LAMBDA x : x.t = "d")
  /\ Part(doc, "concurrency_groups").t = "d" /\ Part(doc, "jobs").t = "d" /\ Part(doc, "job_groups").t = "d"
  /\ \A g \in DOMAIN Part(doc, "concurrency_groups").v : GroupOK(g, Part(doc, "concurrency_groups").v[g])
  /\ \A g \in DOMAIN Part(doc, "job_groups").v : JobGroupOK(g, Part(doc, "job_groups").v[g])
  /\ \A n \in DOMAIN Jobs(doc) : JobOK(n, Jobs(doc)[n])

(***************************************************************************)
(* The effective configuration                                             *)
(***************************************************************************)
Get(d, k, F(_), default) == IF Has(d, k) THEN F(d[k]) ELSE default
Plain(x) == x.v
Ms(x) == x.ms
EffJob(j) ==
  LET d == j.v IN
  [ command |-> Command(d["command"]),
    schedule |-> Get(d, "schedule", LAMBDA x : IF x.t = "n" THEN "" ELSE x.v, ""),
    environment |-> Get(d, "environment", Env, << >>),
    max_execution |-> Get(d, "max_execution", Ms, -1),
    max_execution_grace |-> Get(d, "max_execution_grace", Ms, 60000),
    concurrency_groups |-> Get(d, "concurrency_groups", LAMBDA x : {x.v[k].v : k \in DOMAIN x.v}, {}),
    render_reports |-> Get(d, "render_reports", Plain, TRUE),
    command_append_run |-> Get(d, "command_append_run", Plain, FALSE),
    jenkins_environment |-> Get(d, "jenkins_environment", Plain, FALSE),
    concurrent_runs |-> Get(d, "concurrent_runs", Plain, FALSE),
    job_group |-> Get(d, "job_group", Plain, ""),
    tzoff |-> IF ~Has(d, "schedule") \/ d["schedule"].t = "n" THEN -9999
              ELSE Get(d, "schedule_timezone", LAMBDA x : x.off, 0) ]
EffGroups(doc) ==
  LET G == Part(doc, "concurrency_groups").v
      used == UNION {EffJob(Jobs(doc)[n]).concurrency_groups : n \in DOMAIN Jobs(doc)}
  IN [g \in (DOMAIN G) \cup used |-> IF Has(G, g) THEN Get(G[g].v, "max", Plain, 1) ELSE 1]
Eff(doc, dd) ==
  LET d == doc.v IN
  [ jobs |-> [n \in DOMAIN Jobs(doc) |-> EffJob(Jobs(doc)[n])],
    groups |-> EffGroups(doc),
    data_dir |-> Get(d, "data_dir", Plain, dd),
    template_dir |-> Get(d, "template_dir", Plain, ""),
    report_html_gz |-> Get(d, "report_html_gz", Plain, FALSE),
    report_run_output_start |-> Get(d, "report_run_output_start", Plain, 0),
    report_run_output_end |-> Get(d, "report_run_output_end", Plain, 0),
    shutdown_kill_runs |-> Get(d, "shutdown_kill_runs", Plain, FALSE),
    shutdown_kill_grace |-> Get(d, "shutdown_kill_grace", Ms, -1),
    environment |-> Get(d, "environment", Env, << >>) ]

(***************************************************************************)
(* Loading.  ev.main: dsari.yaml and dsari.json (those that exist, in this *)
(* order); ev.d: the files of config.d as [name, fmt, ok, doc];            *)
(* ev.d2: those of the directory which config_d may name instead.          *)
(***************************************************************************)
RECURSIVE Less(_, _)
Alphabet == "-.0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ_abcdefghijklmnopqrstuvwxyz"
Pos(c) == CHOOSE k \in 1..Len(Alphabet) : SubSeq(Alphabet, k, k) = c
Less(a, b) ==
  IF b = "" THEN FALSE ELSE IF a = "" THEN TRUE
  ELSE LET x == Pos(SubSeq(a, 1, 1))  y == Pos(SubSeq(b, 1, 1)) IN
       IF x # y THEN x < y ELSE Less(SubSeq(a, 2, Len(a)), SubSeq(b, 2, Len(b)))
RECURSIVE Sorted(_)
Sorted(S) == IF S = {} THEN << >>
             ELSE LET f == CHOOSE f \in S : \A g \in S : g = f \/ Less(f.name, g.name)
                  IN <<f>> \o Sorted(S \ {f})
Ext(q, fmt) == {q[k] : k \in {k \in DOMAIN q : q[k].fmt = fmt}}

MainDoc(ev) == MergeAll(Empty, ev.main)
Extra(ev) ==
  LET m == MainDoc(ev).v
      which == IF ~Has(m, "config_d") THEN ev.d
               ELSE IF m["config_d"].t = "s" /\ m["config_d"].v = ev.d2dir THEN ev.d2 ELSE << >>
  IN Sorted(Ext(which, "yaml")) \o Sorted(Ext(which, "json"))

AllOK(ev) == /\ \A k \in DOMAIN ev.main : FileOK(ev.main[k])
             /\ \A k \in DOMAIN Extra(ev) : FileOK(Extra(ev)[k])
Total(ev) == MergeAll(MainDoc(ev), Extra(ev))
Accept(ev) == AllOK(ev) /\ DocOK(Total(ev))

(* config dump --raw shows the merged files, as they are *)
RECURSIVE Same(_, _)
Same(a, b) ==
  CASE a.t = "d" -> b.t = "d" /\ DOMAIN a.v = DOMAIN b.v /\ \A k \in DOMAIN a.v : Same(a.v[k], b.v[k])
    [] a.t = "l" -> b.t = "l" /\ Len(a.v) = Len(b.v) /\ \A k \in DOMAIN a.v : Same(a.v[k], b.v[k])
    [] a.t \in {"i", "f"} -> b.t = a.t /\ b.str = a.str
    [] a.t \in {"s", "b"} -> b.t = a.t /\ b.v = a.v
    [] a.t = "n" -> b.t = "n"
    [] OTHER -> TRUE
BadViews(ev) ==
  IF ~ev.out.views THEN {}
  ELSE (IF ev.out.check # Accept(ev) THEN {"config_check"} ELSE {})
       \cup (IF ~ev.out.forms THEN {"dump_formats"} ELSE {})
       \cup (IF Accept(ev) /\ ~Same(Total(ev), ev.out.raw) THEN {"dump_raw"} ELSE {})

TopKeys == {"data_dir", "template_dir", "report_html_gz", "report_run_output_start", "report_run_output_end",
            "shutdown_kill_runs", "shutdown_kill_grace", "environment"}

(* s: the configuration in force ("none" before the first) *)
BadDump(s, ev) ==
  IF ev.e # "load" THEN {}
  ELSE IF ~Accept(ev) THEN (IF ev.out.accepted THEN {"accepts_invalid"} ELSE {})
  ELSE IF ~ev.out.accepted THEN {"rejects_valid"}
  ELSE IF ev.out.odd # << >> THEN {"value_types"}
  ELSE LET e == Eff(Total(ev), ev.dd)  o == ev.out IN
    (IF DOMAIN o.jobs # DOMAIN e.jobs THEN {"jobs"} ELSE {})
    \cup UNION {IF [o.jobs[n] EXCEPT !.concurrency_groups = Range(@)] # e.jobs[n] THEN {"job_settings"} ELSE {}
                : n \in (DOMAIN o.jobs) \cap (DOMAIN e.jobs)}
    \cup (IF o.groups # e.groups THEN {"groups"} ELSE {})
    \cup UNION {IF o.top[k] # e[k] THEN {"option_" \o k} ELSE {} : k \in TopKeys}
    \cup (IF ~ev.same THEN {"not_repeatable"} ELSE {})

Bad(s, ev) == BadDump(s, ev) \cup (IF ev.e = "load" THEN BadViews(ev) ELSE {})

Apply(s, ev) == IF ev.e = "load" /\ Accept(ev) THEN Total(ev) ELSE s
=============================================================================
