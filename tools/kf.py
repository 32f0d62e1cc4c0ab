m = """03f32b6 C14 a signal handler running in the middle of the main loop could lose track of a run being started, or kill and record twice
ebb2ee1 C14 a signal arriving while the daemon computes its next wake-up was noticed only at that wake-up (up to 60 s later)
c8a5bea C11 a second SIGTERM restarted the shutdown grace period (SIGKILL came late or never)
11231b5 C13 SIGHUP with an invalid configuration killed the daemon and orphaned its runs
a99fa2e C08 a run killed by a signal with core dump was recorded as 256 instead of 128 + signal
adbf4c9 C01 a concurrency group which a reload removed and re-added forgot the runs in progress
4b3e61e C12 max_execution sent SIGKILL without SIGTERM, or before the grace was over, when the daemon noticed late
2d256c7 C05 schedule_timezone of a trigger shifted the time by the zone's local mean time / was ignored
d13e7be C06 triggers with unusable contents (non-UTF-8, deep nesting, non-dict, NUL, un-storable data) killed the daemon
118a725 C18 unusable return data (non-JSON types, deep nesting, bad encoding) killed the daemon
54c84f9 C06 environment definitions which exec() does not accept made the run fail or killed the daemon
a089108 C15 command arguments which are not strings were accepted and failed at the start of the run
f2e9685 C15 names ending in a newline were accepted
1002ce2 C15 an empty YAML file or one which is no dictionary ended in a traceback
0577c79 C16 H/n and H(a-b)/n started after the first n values
03e2499 C16 extra white space in a cron schedule shifted the hash of the fields
dcebc7f C16 schedule times with the sub-second offset were skipped or repeated
a39965b C17 RRULE schedules were shifted by a change of DST
0073085 C17 RRULE schedules with UNTIL raised an error or repeated for ever
1b3e1bf C17 schedules of the local time zone kept the UTC offset of the daemon's start
945d350 C17 an R day which does not exist (31st of a short month) stopped the daemon
0255e99 C20 dsari-info run list lost or failed on runs which finish while it is reading
c4fd07c C20 run list with --job and --run ignored --job
ef209e2 C20 run output and dsari-render failed on output which is missing or not UTF-8
82d2b32 C22 database without type but with file was not sqlite3
7df98c2 C22 times read from PostgreSQL, MySQL and MongoDB had no or the wrong time zone
aded777 C22 get_runs() of an empty list was a syntax error in PostgreSQL and MySQL
63fdb1f C22 open read transactions of long-running readers returned stale runs
c0bb654 C19 template_dir was ignored or broke rendering
a1eda2a C19 a page truncated by a killed dsari-render was never completed
9c3fa7f C19 a missing output was shown as None
98377fc C19 a style sheet truncated by a killed dsari-render was never completed
1df587d C21 reload of the exporter failed on later scrapes
1980a33 C03 the next run of a job which had just been started was noticed late
c4163a2 C18 return data of runs in progress was looked for in the new data_dir after a reload
59bcc48 C15 concurrency_groups or job_names given as a string were taken as a list of characters
064069c C15 an empty command was accepted and every run failed in exec
fc188ff C16 H/n and H(a-b)/n which hash to the last value of the range matched every value
62ebba9 C16 Sunday as 7 was rejected or ignored in a schedule with the hashed second
1af9e74 C17 next wakeup compared wall clock times of one zone during the end of DST (also C03)
d758c72 C10 a SIGTERM sent to a run between its fork and its exec was lost (also C11)
278d416 C10 runs inherited that Python ignores SIGXFSZ
1bcb08a C19 the index page showed any run of a job as its last one (MySQL, PostgreSQL)
8608bb9 C19 links of the index page to a job with a colon in its name led elsewhere
f0d8f36 C20 dsari-info shell had none of the announced variables without IPython
7c42706 C19 the excerpt of an output shorter than both limits together repeated a part of it
"""
out = ["# Genuine defects of rfinnie/dsari found while building the checks.",
       "# finding: property=<id> key=<key> <what fails>   -- recorded, not repaired (none at present)",
       "# fixed: property=<id> <commit in /repo> <what failed>   -- repaired; suppresses nothing"]
for l in m.strip().splitlines():
    h, p, t = l.split(None, 2)
    out.append("fixed: property=%s %s %s" % (p, h, t))
open("/verif/known-findings.txt", "w").write("\n".join(out) + "\n")
