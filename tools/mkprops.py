#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os

P = []


def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": list(over), "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": list(files),
            "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
            "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
            "observe_at": list(observe),
            "hook_needed": hook,
        },
    })


D = "dsari/daemon.py"
DB = "dsari/database.py"
NOTEST = "The existing tests only cover cron hashing for one hash id and four time helpers; no test starts the daemon, "

p("C01", "Concurrency groups never exceed their limit",
  "When a run of a job that lists concurrency groups starts, it is assigned one of the job's configured groups (exported as CONCURRENCY_GROUP) in which, at that instant, strictly fewer than `max` runs (default 1) are in progress; a run counts from its start until its completion is recorded, whatever configuration reloads happen in between. A job without groups is never assigned one, and a run is held back for concurrency only while every group of its job is full.",
  ["schedules", "histories", "configurations"],
  "For every set of jobs and groups, every order in which due runs are attempted, every sequence of starts, exits, triggers and reloads (including reloads that change a limit or drop and re-add a group).",
  NOTEST + "so no history of overlapping runs is ever exercised.",
  [D, "dsari/config.py", "doc/concurrency.md"],
  [("group choice and limit test", "Scheduler.process_scheduled_run"), ("slot release", "Scheduler.process_next_child"), ("re-binding after reload", "Scheduler.reset_jobs")],
  [("running_groups", "runs in progress per group", D), ("run.concurrency_group", "group a run occupies", D)],
  ["fork of the run process", "CONCURRENCY_GROUP in its environment", "commit of the finished run"])

p("C02", "At most one run at a time of a job without concurrent_runs",
  "While a run of a job whose configuration does not set concurrent_runs is in progress (started and not yet recorded as finished), no other run of that job starts, whether it comes from the schedule or from a trigger and also after reloads that replace, remove or re-add the job. If concurrent_runs is set, runs of the same job start at their own times regardless of runs in progress.",
  ["schedules", "histories", "configurations"],
  "For every interleaving of schedule times, triggers, run durations and reloads.",
  NOTEST + "and overlap needs a long run, a second cause and possibly a reload in between.",
  [D, "doc/configuration.md", "doc/triggers.md"],
  [("same-job test before starting", "Scheduler.process_scheduled_run"), ("running runs re-bound to new job objects", "Scheduler.reset_jobs")],
  [("running_runs", "runs in progress", D)],
  ["fork of the run process", "commit of the finished run"])

p("C03", "Due runs start promptly and blocked runs are retried, never lost",
  "A pending run starts never before its schedule time and within about a second after it unless it is blocked by full concurrency groups or by a run in progress of the same non-concurrent job. A blocked run stays pending, and once nothing blocks it any more it starts after a delay of at most the larger of five seconds and the time it had already been waiting, and never more than five minutes. A pending run disappears without starting only because a trigger replaced it, a reload rebuilt the schedule, or the daemon was shut down or killed.",
  ["schedules", "histories", "inputs"],
  "For every mix of schedules, durations and triggers, however long a run was blocked.",
  NOTEST + "and neither wake-up computation nor back-off is executed.",
  [D, "doc/concurrency.md"],
  [("back-off", "backoff, Scheduler.process_scheduled_run"), ("wake-up computation", "Scheduler.process_wakeups, Scheduler.loop")],
  [("scheduled_runs", "pending runs", D), ("next_wakeup", "latest time of the next scheduling pass", D)],
  ["fork of the run process", "the daemon's sleeps"])

p("C04", "Every scheduled job always has exactly one pending recurring run",
  "As long as the daemon is not shutting down, each configured job whose schedule still has a future occurrence has exactly one pending run that continues its schedule, after any history of runs, triggers, reloads and restarts; a job without a schedule has none. When that run starts, the next one is scheduled for the first occurrence after the start, so that occurrences are neither skipped while the job is idle nor executed twice.",
  ["histories", "schedules", "configurations"],
  "For every history of starts, trigger replacements, reloads, restarts and schedules that run out.",
  NOTEST + "so the schedule chain is never followed for even two occurrences.",
  [D, "dsari/utils.py", "doc/triggers.md"],
  [("respawn of the next run", "Scheduler.process_scheduled_run"), ("inheritance on trigger replacement", "Scheduler.process_trigger_job"), ("rebuild", "Scheduler.reset_jobs")],
  [("run.respawn", "this run continues the job's schedule", D)],
  ["SCHEDULE_TIME and TRIGGER_TYPE of started runs", "the runs table"])

p("C05", "Each trigger file creates exactly one run with the file's data",
  "A valid trigger file of a configured job is noticed within 60 seconds (at once on SIGUSR1), removed, and creates exactly one run that carries its data, its environment and its schedule time (the given epoch or ISO time in the given time zone, otherwise the file's modification time); if the file cannot be removed it creates no run. trigger.json is taken before trigger.yaml. For a job without concurrent_runs the new run replaces the pending run and takes over its place in the schedule; otherwise it is an additional run.",
  ["inputs", "histories", "schedules"],
  "For every trigger content, format, time specification and moment relative to schedule, runs in progress, signals and reloads.",
  NOTEST + "and trigger handling has no test at all.",
  [D, "dsari/utils.py", "doc/triggers.md"],
  [("trigger detection", "Scheduler.process_trigger_job"), ("delete before parse", "utils.load_structured_file"), ("time zones", "utils.dtlocalize")],
  [("trigger files", "DATA_DIR/trigger/<job>/trigger.{json,yaml}", "file system")],
  ["removal of the file", "trigger_type/trigger_data/schedule_time of the run"])

p("C06", "Malformed triggers are discarded without effect",
  "Whatever bytes a trigger file contains (invalid JSON or YAML, wrong types, unusable schedule_time, time zone or environment, values that cannot be stored), the daemon keeps running, creates no run from an unusable trigger, removes the file, and leaves pending and running runs as they were.",
  ["inputs"],
  "For every file content, at any point of the daemon's life.",
  NOTEST + "and the error paths of trigger parsing are never executed.",
  [D, "dsari/utils.py"],
  [("trigger validation", "Scheduler.process_trigger_job"), ("environment validation", "utils.validate_environment_dict")],
  [], ["daemon alive", "file removed", "runs started afterwards"])

p("C07", "Run records follow the run's life atomically and survive crashes",
  "A started run is listed as running (with its job, schedule and start times, trigger type and data) from before its process is created until it finishes; then, in one atomic step, it leaves the running list and appears in the history exactly once with the same identity and data. Killing the daemon at any point leaves every run either entirely before or entirely after each of these steps, no recorded run is ever lost or changed, and the next start clears the running list.",
  ["crash_points", "histories", "fault_sequences"],
  "For a crash between any two statements, file operations or system calls of the daemon, and every history before it.",
  NOTEST + "and no crash is ever injected.",
  [DB, D, "doc/database.md"],
  [("insert into runs and delete from runs_running in one transaction", "BaseSQLDatabase.insert_run"), ("insert before fork", "Scheduler.process_scheduled_run"), ("clear at start", "clear_runs_running")],
  [("runs", "finished runs", "database"), ("runs_running", "runs in progress", "database")],
  ["committed database contents between any two operations"])

p("C08", "Exit status and times are recorded faithfully",
  "For every run whose process ends while the daemon is running, the history records within about a second the process's exit code, or 128 plus the signal number if it was killed by a signal (with or without core dump). Its schedule time is not after its start time, its start time not after its stop time, and both lie at the moments the process was started and found to have ended; processes that are not runs are ignored.",
  ["inputs", "schedules"],
  "For every exit status the kernel can report and every order and simultaneity of exits.",
  NOTEST + "so no exit status is ever decoded.",
  [D, DB, "doc/database.md"],
  [("status decoding", "wait_deadline"), ("matching pid to run", "Scheduler.process_next_child")],
  [], ["rows of the runs table"])

p("C09", "PREVIOUS_* describe the latest completed runs of the job",
  "A starting run receives PREVIOUS_RUN_ID, _SCHEDULE_TIME, _START_TIME, _STOP_TIME and _EXIT_CODE of the most recently finished run of the same job in the history, and PREVIOUS_GOOD_* / PREVIOUS_BAD_* of the most recently finished one with zero / non-zero exit code. A group of variables is absent exactly if no such run exists; runs still in progress and runs of other jobs never count.",
  ["histories"],
  "For every history of finished runs, including overlapping runs of a concurrent job, restarts and reloads.",
  NOTEST + "and the three history queries are never executed.",
  [DB, D, "doc/environment.md"],
  [("history queries", "get_previous_runs"), ("variables", "Scheduler.run_child_executor")],
  [], ["environment of the run process"])

p("C10", "A run's environment and process setup are built exactly as documented",
  "A run's process sees exactly the documented automatic variables overlaid by the global, then the job's, then the trigger's environment and nothing else of the daemon's environment; it executes the configured command (plus job name and run id if command_append_run), in the directory named by PWD if that exists or else its run directory, with empty stdin, stdout and stderr in output.txt of its run directory, no other open files, in its own process group, and with default signal handling from its first moment on, so that no signal sent to it is lost. Starting one run never alters what later runs get.",
  ["configurations", "inputs", "histories"],
  "For every combination of layers, option settings and preceding runs.",
  NOTEST + "and the child-side set-up is never executed.",
  [D, "doc/environment.md", "doc/configuration.md"],
  [("environment layering and exec", "Scheduler.run_child_executor")],
  [], ["argv, environment, cwd, descriptors and process group at exec"])

p("C11", "Shutdown starts nothing new, terminates runs as configured, loses none",
  "After SIGTERM or SIGINT the daemon starts no further run and consumes no trigger, and it exits only after, and within about a second of, every run in progress being finished and recorded. With shutdown_kill_runs each run in progress gets exactly one SIGTERM (unless it already got one), and if shutdown_kill_grace is set and it still runs that long after the first shutdown request, one SIGKILL, neither earlier nor more than about a second later; otherwise runs are left alone.",
  ["schedules", "histories", "configurations"],
  "For shutdown requests (repeated, or combined with reloads, triggers and due runs) at any moment, and every reaction of the runs.",
  NOTEST + "so signals and shutdown are never exercised.",
  [D, "doc/configuration.md", "doc/dsari-daemon.md"],
  [("begin", "Scheduler.begin_shutdown"), ("grace", "Scheduler.monitor_shutdown"), ("exit condition", "Scheduler.loop")],
  [("shutdown", "shutdown requested", D)],
  ["kill calls", "forks", "return of the daemon"])

p("C12", "max_execution: SIGTERM at the limit, SIGKILL only after the grace",
  "A run of a job with max_execution, judged by the settings in force when it started, gets no signal before that time, exactly one SIGTERM within about a second after it, and if it still runs max_execution_grace after its SIGTERM, exactly one SIGKILL within about a second after that but never earlier and never without the SIGTERM. Runs that end in time, runs of jobs without the option, and processes that are not runs in progress get no such signal.",
  ["schedules", "histories", "configurations"],
  "For every duration, limit, grace, delay or suspension of the daemon, and reload during the run.",
  NOTEST + "so time limits are never enforced.",
  [D, "doc/configuration.md"],
  [("limit enforcement", "Scheduler.process_run_execution_time"), ("wake-up computation", "Scheduler.process_wakeups")],
  [("run.term_sent / run.kill_sent", "signals already sent", D)],
  ["kill calls with their target and time"])

p("C13", "Reload switches to the new configuration and keeps runs in progress",
  "After SIGHUP the daemon, within about a second, schedules exactly the jobs of the new configuration with their new settings, drops earlier pending runs, and never again starts a run with old settings or of a removed job. Runs in progress are neither lost nor signalled nor recorded differently because of the reload, also if their job or group disappeared; a configuration that is invalid leaves the daemon running with the previous one.",
  ["histories", "configurations", "schedules"],
  "For every pair (and sequence) of configurations and every moment of the reload.",
  NOTEST + "and no reload is ever performed.",
  [D, "dsari/config.py", "doc/dsari-daemon.md"],
  [("reload", "Scheduler.signal_handler, load_config, reset_jobs")],
  [], ["runs started after the reload", "records of runs in progress"])

p("C14", "A signal arriving at any instant is acted on once and corrupts nothing",
  "Wherever in its execution SIGTERM, SIGINT, SIGHUP, SIGQUIT or SIGUSR1 reaches the daemon, it takes effect within about a second, the daemon does not die of it, and every run that is started is still tracked, recorded and counted as if the signal had arrived while the daemon was waiting. SIGQUIT only reports: exactly the runs in progress and the pending runs.",
  ["schedules", "fault_sequences"],
  "For delivery between any two steps of the daemon, including several signals.",
  NOTEST + "and asynchronous delivery inside a scheduling pass is beyond sampling by hand.",
  [D],
  [("signal handling", "Scheduler.signal_handler"), ("interruptible waits", "wait_deadline, Scheduler.loop")],
  [], ["trace of the daemon after the signal"])

p("C15", "The effective configuration is the documented merge of all files",
  "The effective configuration is the recursive merge of dsari.yaml, dsari.json, then config.d/*.yaml and config.d/*.json in name order (later wins), with each job group expanded into one job per name carrying the group's settings and job_group name, documented defaults for everything unset, and undefined concurrency groups created with limit 1. Missing commands, wrongly typed values, invalid names, schedules or environments are rejected as a whole, never partly applied; loading the same files always gives the same result.",
  ["configurations", "inputs"],
  "For every set of configuration files.",
  "No test loads a configuration.",
  ["dsari/config.py", "dsari/utils.py", "dsari/info.py", "doc/configuration.md"],
  [("loading and merging", "ConfigLoader.load_dir, utils.dict_merge"), ("validation", "ConfigLoader.populate_object, build_job"), ("dump", "Info.cmd_dump_config")],
  [], ["dsari-info config dump / config check", "attributes of the loaded configuration"])

p("C16", "Cron schedules fire exactly at the matching, hash-stable times",
  "For a cron schedule the next run is the first time strictly after the reference time that matches all fields (seconds default to H) plus the job's fixed sub-second offset; it depends only on schedule, job name and reference time unless R is used. H picks, per job name, one fixed value of the field's range, H(a-b) one within a..b, H/n and H(a-b)/n every n-th value starting within the first n, and the @-words are the documented abbreviations; R stays within the same bounds.",
  ["inputs", "configurations"],
  "For every job name, schedule expression and reference time.",
  "The tests sample one hash id and a handful of expressions; offsets that hit the edge of a range occur only for some names.",
  ["dsari/croniter_hash.py", "dsari/utils.py", "doc/schedule-format.md"],
  [("hash expansion", "croniter_hash._hash_expand_item, _hash_do"), ("next occurrence", "utils.get_next_schedule_time")],
  [], ["next scheduled run of a job"])

p("C17", "Schedules follow the job's time zone and RRULE semantics",
  "Cron fields are matched against the wall clock of schedule_timezone, or else of the daemon's local zone, on every date including those after a daylight-saving change. An RRULE schedule fires at the rule's recurrences, anchored at a position of the day fixed by the job name wherever the rule leaves one open, strictly after the reference time, and produces no run once the rule's UNTIL has passed; an accepted schedule never makes the daemon fail.",
  ["inputs", "configurations"],
  "For every zone, rule, job name and reference time.",
  "The tests use one naive epoch and no RRULE or time zone.",
  ["dsari/utils.py", D, "dsari/__init__.py", "doc/schedule-format.md", "doc/configuration.md"],
  [("RRULE anchoring", "utils.get_next_schedule_time"), ("localisation", "utils.dtlocalize")],
  [], ["next scheduled run of a job"])

p("C18", "Return data of a run is stored with it and can do no harm",
  "If a finished run left return_data.json (or else return_data.yaml) in its run directory, its parsed content is stored with the run under return_data, equal to the file's content up to JSON representation; if the file is absent or unusable in any way, the run is recorded normally without it. In no case does the file's content stop the daemon or affect another run.",
  ["inputs"],
  "For every file content, format, and presence of both files.",
  NOTEST + "and return data is never read.",
  [D, DB, "doc/environment.md", "doc/database.md"],
  [("reading", "Scheduler.process_next_child"), ("storing", "insert_run")],
  [], ["run_data of the recorded run"])

p("C19", "HTML reports show every finished run, and an interrupted render recovers",
  "After a completed dsari-render there is a page for every finished run of every configured job with reports enabled, showing its identity, exit code, times and (configured excerpt of its) output with all text escaped; the job page lists exactly the job's finished runs, newest first, and the index the latest 25 and latest 10 failed ones. Jobs with render_reports off appear nowhere, pages of finished runs are not rewritten unless asked for, and all this holds after an earlier render was killed at any point, whatever bytes a run printed.",
  ["histories", "crash_points", "inputs", "configurations"],
  "For every history of runs and renders, every interruption of a render, every output.",
  "No test runs the renderer.",
  ["dsari/render.py", "dsari/templates/run.html", "dsari/templates/job.html", "dsari/templates/index.html", "dsari/utils.py"],
  [("incremental rendering", "Renderer.render, render_run, render_jobs, render_index"), ("output", "utils.read_output")],
  [("html tree", "existing pages decide what is rendered", "DATA_DIR/html")],
  ["DATA_DIR/html after dsari-render"])

p("C20", "Run and job listings show a consistent view while the daemon works",
  "dsari-info run list shows every recorded and every running run that matches the --job and --run filters exactly once with its stored data, in each output format, even if runs start or finish while it is reading, and run output prints the collected output of any finished or running run. job list shows each configured job once with its settings and its next scheduled run; shell opens a session which has the jobs, configuration and database at hand, with or without IPython; no listing changes the database.",
  ["schedules", "histories", "inputs"],
  "For every database content, filter, format and moment at which the daemon commits a change between the tool's reads.",
  "No test runs dsari-info, and the race needs a commit between two queries.",
  ["dsari/info.py", DB, "dsari/utils.py", "doc/dsari-info.md"],
  [("listing", "Info.cmd_list_runs, cmd_get_run_output, dump_jobs"), ("queries", "get_runs")],
  [], ["standard output of dsari-info"])

p("C21", "Exported metrics agree with the database",
  "Every scrape reports, for each configured job, counts of all, successful and failed finished runs, sums, counts and interpolated quantiles of duration and latency, and exit code and times of the most recently finished run that agree with the history at one moment not older than the job cache time, and one schedule/start time pair for every running run as of the scrape. Jobs without finished runs report zero counts and no last-run or summary values; reloading or a scrape at any moment never makes a scrape fail.",
  ["histories", "schedules", "configurations"],
  "For every history of runs, scrapes, reloads and cache times.",
  "No test runs the exporter.",
  ["dsari/prometheus_exporter.py", DB, "doc/dsari-prometheus-exporter.md"],
  [("metrics and cache", "Prometheus.get_metrics, get_job_metrics, get_running_metrics"), ("quantiles", "percentile")],
  [("job_cache", "cached history metrics", "dsari/prometheus_exporter.py")],
  ["text of a scrape"])

p("C22", "All database back ends implement the same run store",
  "For every sequence of store operations (start, finish, clear, list by job names or run ids, previous runs), each of the SQLite, PostgreSQL, MySQL and MongoDB back ends returns the same runs with the same data as an abstract store; listing by ids or names returns exactly the matching runs of the requested table. A failure between operations never leaves a finished run in neither table, and stored data survives reopening the database.",
  ["histories", "fault_sequences", "inputs"],
  "For every operation sequence, data content, and failure between two statements sent to the database.",
  "No test opens a database.",
  [DB, "doc/database.md"],
  [("SQL back ends", "BaseSQLDatabase and subclasses"), ("MongoDB", "MongoDBDatabase")],
  [("runs / runs_running", "the two tables or collections", "database")],
  ["results of the store's public operations"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties")
