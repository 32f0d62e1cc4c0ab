From 03f32b694674fe4b5a17a8dae90a3d65df511209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:35 +0000
Subject: [PATCH 01/50] fix: act on signals between two steps of the main loop,
 not inside the handler

A signal handled while a run was being started or a child was being waited
for rebuilt the lists in use: the daemon died of ValueError in
scheduled_runs.remove(), or went on with job objects of the old
configuration, or forgot the wake-up the signal asked for.
---
 dsari/daemon.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/dsari/daemon.py b/dsari/daemon.py
index 1f40463..f65bda6 100644
--- a/dsari/daemon.py
+++ b/dsari/daemon.py
@@ -124,6 +124,7 @@ class Scheduler:
         self.running_groups = {}
 
         self.wakeups = []
+        self.pending_signals = []
         self.next_wakeup = dtnow() + seconds_to_td(60.0)
 
         self.db = dsari.database.get_database(self.config)
@@ -186,7 +187,16 @@ class Scheduler:
             run.kill_sent = True
 
     def signal_handler(self, signum, frame):
+        # The signal may have interrupted anything, so only note it here;
+        # the main loop acts on it between two steps.
+        self.pending_signals.append(signum)
         self.next_wakeup = dtnow()
+
+    def process_signals(self):
+        while self.pending_signals:
+            self.process_signal(self.pending_signals.pop(0))
+
+    def process_signal(self, signum):
         if signum in (signal.SIGINT, signal.SIGTERM):
             if signum == signal.SIGINT:
                 self.logger.info("SIGINT received, beginning shutdown")
@@ -734,9 +744,12 @@ class Scheduler:
         for wakeup in self.wakeups:
             if wakeup < self.next_wakeup:
                 self.next_wakeup = wakeup
+        if self.pending_signals:
+            self.next_wakeup = dtnow()
 
     def loop(self):
         while True:
+            self.process_signals()
             self.wakeups = []
             self.process_triggers()
 
-- 
2.43.0


From ebb2ee12e28b41a499f4ef8527aa22b264ca8b3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:35 +0000
Subject: [PATCH 02/50] fix: notice signals at once while runs are in progress

wait_deadline() kept using the deadline it was called with, so a signal was
acted on only up to 60 seconds later if a run was in progress.
---
 dsari/daemon.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dsari/daemon.py b/dsari/daemon.py
index f65bda6..0e4ab7d 100644
--- a/dsari/daemon.py
+++ b/dsari/daemon.py
@@ -51,7 +51,8 @@ def wait_deadline(pid, options, deadline, interval=0.05):
             child_exit = child_exit >> 8
         if child_pid != 0:
             return (child_pid, child_exit, child_resource)
-        if dtnow() >= deadline:
+        # A signal may have moved the deadline while we were waiting
+        if dtnow() >= deadline():
             return (child_pid, child_exit, child_resource)
         time.sleep(interval)
 
@@ -482,7 +483,7 @@ class Scheduler:
             "Waiting up to {} for running jobs".format(self.next_wakeup - dtnow())
         )
         (child_pid, child_exit, child_resource) = wait_deadline(
-            -1, os.WNOHANG, self.next_wakeup
+            -1, os.WNOHANG, lambda: self.next_wakeup
         )
         if child_pid == 0:
             return child_pid
-- 
2.43.0


From c8a5bea12d8ddfefc208b3ac8d448f546149c846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:35 +0000
Subject: [PATCH 03/50] fix: a repeated SIGTERM must not restart the shutdown
 grace period

---
 dsari/daemon.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dsari/daemon.py b/dsari/daemon.py
index 0e4ab7d..c0317b0 100644
--- a/dsari/daemon.py
+++ b/dsari/daemon.py
@@ -146,8 +146,9 @@ class Scheduler:
         self.logger.info("Scheduler running")
 
     def begin_shutdown(self):
+        if not self.shutdown:
+            self.shutdown_begin = dtnow()
         self.shutdown = True
-        self.shutdown_begin = dtnow()
         self.scheduled_runs = []
         for run in self.running_runs:
             run.respawn = False
-- 
2.43.0


From 11231b57a9a5b170d3ccfe5c98a20cc5dd918d1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:35 +0000
Subject: [PATCH 04/50] fix: survive a reload of an invalid configuration

The daemon died of the exception, leaving its runs behind.  Also ignore a
reload during shutdown, which could make it send SIGKILL to runs which
never got a SIGTERM.
---
 dsari/daemon.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/dsari/daemon.py b/dsari/daemon.py
index c0317b0..2a24fd4 100644
--- a/dsari/daemon.py
+++ b/dsari/daemon.py
@@ -206,8 +206,17 @@ class Scheduler:
                 self.logger.info("SIGTERM received, beginning shutdown")
             self.begin_shutdown()
         elif signum == signal.SIGHUP:
+            if self.shutdown:
+                self.logger.info("SIGHUP received, ignored during shutdown")
+                return
             self.logger.info("SIGHUP received, reloading")
-            self.load_config()
+            try:
+                self.load_config()
+            except Exception as e:
+                self.logger.error(
+                    "Cannot load configuration, keeping the previous one: {}".format(e)
+                )
+                return
             self.reset_jobs()
         elif signum == signal.SIGQUIT:
             self.sigquit_status()
-- 
2.43.0


From a99fa2ec861c9dc54a4d59a4a5e1a3477156e3a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:35 +0000
Subject: [PATCH 05/50] fix: exit code of a run which dumped core is 128 plus
 the signal

---
 dsari/daemon.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dsari/daemon.py b/dsari/daemon.py
index 2a24fd4..876be7c 100644
--- a/dsari/daemon.py
+++ b/dsari/daemon.py
@@ -44,7 +44,8 @@ __version__ = dsari.__version__
 def wait_deadline(pid, options, deadline, interval=0.05):
     while True:
         (child_pid, child_exit, child_resource) = os.wait4(pid, options)
-        child_signal = child_exit % 256
+        # Bit 7 only tells whether there was a core dump
+        child_signal = child_exit & 0x7F
         if child_signal > 0:
             child_exit = 128 + child_signal
         else:
-- 
2.43.0


From adbf4c9dbb5efa7e6fe17c72dc67e0be8ad76794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:35 +0000
Subject: [PATCH 06/50] fix: count a run in its concurrency group after the
 group was removed and re-added

---
 dsari/daemon.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/dsari/daemon.py b/dsari/daemon.py
index 876be7c..ea9fcda 100644
--- a/dsari/daemon.py
+++ b/dsari/daemon.py
@@ -316,12 +316,13 @@ class Scheduler:
                         run.concurrency_group.name
                     ]
                     run.concurrency_group = concurrency_group
-                    if concurrency_group not in self.running_groups:
-                        self.running_groups[concurrency_group] = []
-                    self.running_groups[concurrency_group].append(run)
                 else:
-                    # Concurrency group disappeared from config during SIGHUP
-                    run.concurrency_group = None
+                    # Concurrency group disappeared from config during SIGHUP;
+                    # keep counting the run, as the group may be added again
+                    concurrency_group = run.concurrency_group
+                if concurrency_group not in self.running_groups:
+                    self.running_groups[concurrency_group] = []
+                self.running_groups[concurrency_group].append(run)
 
     def process_run_execution_time(self, run):
         job = run.job
-- 
2.43.0


From 4b3e61e94c7cf55e270b8f31de08a68a96a83785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:47 +0000
Subject: [PATCH 07/50] fix: SIGKILL for max_execution only follows a SIGTERM
 and its grace time

The grace time was measured from the start of the run, so a daemon which
was late (or had reloaded) sent SIGKILL without or right after SIGTERM;
and any pass of the main loop in between postponed the SIGKILL.  The limits
are those of the start of the run, as documented for SIGHUP.
---
 dsari/daemon.py | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/dsari/daemon.py b/dsari/daemon.py
index ea9fcda..2a4671f 100644
--- a/dsari/daemon.py
+++ b/dsari/daemon.py
@@ -166,6 +166,7 @@ class Scheduler:
                 )
                 os.kill(run.pid, signal.SIGTERM)
                 run.term_sent = True
+                run.term_time = dtnow()
         elif len(self.running_runs) > 0:
             self.logger.info("Shutdown will proceed after runs have completed")
 
@@ -326,13 +327,17 @@ class Scheduler:
 
     def process_run_execution_time(self, run):
         job = run.job
-        if not job.max_execution:
+        # As of the start of the run; a reload does not affect it
+        if not run.max_execution:
             return
-        sigterm_grace = job.max_execution_grace
+        sigterm_grace = run.max_execution_grace
         sigkill_grace = seconds_to_td(5.0)
         now = dtnow()
         delta = now - run.start_time
-        if delta > (job.max_execution + sigterm_grace):
+        kill_time = run.start_time + run.max_execution + sigterm_grace
+        if run.term_sent:
+            kill_time = max(kill_time, run.term_time + sigterm_grace)
+        if run.term_sent and now > kill_time:
             if not run.kill_sent:
                 self.logger.warning(
                     "[{} {}] SIGTERM grace ({}) exceeded, sending SIGKILL to {}".format(
@@ -342,18 +347,20 @@ class Scheduler:
                 os.kill(run.pid, signal.SIGKILL)
                 run.kill_sent = True
             self.wakeups.append(now + sigkill_grace)
-        elif delta > job.max_execution:
+        elif delta > run.max_execution:
             if not run.term_sent:
                 self.logger.warning(
                     "[{} {}] Max execution ({}) exceeded, sending SIGTERM to {}".format(
-                        job.name, run.id, job.max_execution, run.pid
+                        job.name, run.id, run.max_execution, run.pid
                     )
                 )
                 os.kill(run.pid, signal.SIGTERM)
                 run.term_sent = True
-            self.wakeups.append(now + sigterm_grace)
+                run.term_time = now
+                kill_time = now + sigterm_grace
+            self.wakeups.append(kill_time)
         else:
-            self.wakeups.append(run.start_time + job.max_execution)
+            self.wakeups.append(run.start_time + run.max_execution)
 
     def run_child_executor(self, run):
         # Reset all handled signals to default
@@ -709,6 +716,8 @@ class Scheduler:
             os.makedirs(os.path.join(self.config.data_dir, "runs", job.name, run.id))
 
         run.start_time = now
+        run.max_execution = job.max_execution
+        run.max_execution_grace = job.max_execution_grace
         run.term_sent = False
         run.kill_sent = False
 
-- 
2.43.0


From 2d256c77fefdd48cafe9e70168e93428218c99af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:17 +0000
Subject: [PATCH 08/50] fix: schedule_timezone of a trigger

dtlocalize() returned None for a timezone name, so the daemon died of such
a trigger; and a time without offset was taken to be in the local zone.
---
 dsari/daemon.py | 3 +++
 dsari/utils.py  | 5 ++++-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/dsari/daemon.py b/dsari/daemon.py
index 2a4671f..d38b1c8 100644
--- a/dsari/daemon.py
+++ b/dsari/daemon.py
@@ -606,6 +606,9 @@ class Scheduler:
             elif not isinstance(dateutil_parser, ImportError):
                 try:
                     t = dateutil_parser.parse(j["schedule_time"])
+                    if t.tzinfo is None and "schedule_timezone" in j:
+                        # The time is a wall clock time of that timezone
+                        t = t.replace(tzinfo=dtnow(j["schedule_timezone"]).tzinfo)
                 except ValueError:
                     self.logger.error(
                         '[{}] Invalid schedule_time "{}" for trigger'.format(
diff --git a/dsari/utils.py b/dsari/utils.py
index d1d9d90..1a1042f 100644
--- a/dsari/utils.py
+++ b/dsari/utils.py
@@ -87,7 +87,10 @@ def dtlocalize(dt, tz=None):
         if isinstance(tz, datetime.tzinfo):
             return dt.astimezone(tz)
         elif not isinstance(dateutil_tz, ImportError):
-            dt.astimezone(dateutil_tz.gettz(tz))
+            zone = dateutil_tz.gettz(tz)
+            if zone is None:
+                raise ValueError("Unknown timezone: {}".format(tz))
+            return dt.astimezone(zone)
         else:
             return dt.astimezone()
     else:
-- 
2.43.0


From d13e7bef2ea84d82951c7ccded0aecd70268295d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:43 +0000
Subject: [PATCH 09/50] fix: no contents of a trigger file may stop the daemon

Invalid JSON (e.message), invalid YAML, data which cannot be stored as JSON
and unusable schedule_time or schedule_timezone values all ended it.
---
 dsari/daemon.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/dsari/daemon.py b/dsari/daemon.py
index d38b1c8..1021c1f 100644
--- a/dsari/daemon.py
+++ b/dsari/daemon.py
@@ -6,6 +6,7 @@
 
 import argparse
 import copy
+import json
 import logging
 import math
 import os
@@ -555,14 +556,21 @@ class Scheduler:
         if self.shutdown:
             return
         for job in self.jobs:
-            self.process_trigger_job(job)
+            try:
+                self.process_trigger_job(job)
+            except Exception as e:
+                # There is no limit to what may be wrong with a trigger
+                # (YAMLError, TypeError, OverflowError, RecursionError...)
+                self.logger.error(
+                    "[{}] Cannot load trigger: {}".format(job.name, repr(e))
+                )
 
     def process_trigger_job(self, job):
         trigger_file = None
         trigger_file_type = None
         for fn, fn_type in [("trigger.json", "json"), ("trigger.yaml", "yaml")]:
             test_file = os.path.join(self.config.data_dir, "trigger", job.name, fn)
-            if not os.path.exists(test_file):
+            if not os.path.isfile(test_file):
                 continue
             if fn_type == "yaml" and isinstance(yaml, ImportError):
                 continue
@@ -586,7 +594,7 @@ class Scheduler:
             return
         except ValueError as e:
             self.logger.error(
-                "[{}] Cannot load trigger: {}".format(job.name, e.message)
+                "[{}] Cannot load trigger: {}".format(job.name, str(e))
             )
             return
         if type(j) != dict:
@@ -594,6 +602,8 @@ class Scheduler:
                 "[{}] Cannot load trigger: Data must be a dict".format(job.name)
             )
             return
+        # Raises an exception if the data cannot be stored with the run
+        json.dumps(j)
         if ("environment" in j) and (type(j["environment"]) != dict):
             self.logger.error(
                 "[{}] Cannot load trigger: environment must be a dict".format(job.name)
-- 
2.43.0


From 118a725b16473095e03b270e763da0dbaffa6395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:43 +0000
Subject: [PATCH 10/50] fix: return data which cannot be stored must not stop
 the daemon

YAML dates, binaries etc. are not JSON serializable; and a FIFO made the
daemon wait forever.
---
 dsari/daemon.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/dsari/daemon.py b/dsari/daemon.py
index 1021c1f..7276137 100644
--- a/dsari/daemon.py
+++ b/dsari/daemon.py
@@ -528,7 +528,7 @@ class Scheduler:
         return_data_file_type = None
         for fn, fn_type in [("return_data.json", "json"), ("return_data.yaml", "yaml")]:
             test_file = os.path.join(self.config.data_dir, "runs", job.name, run.id, fn)
-            if not os.path.exists(test_file):
+            if not os.path.isfile(test_file):
                 continue
             if fn_type == "yaml" and isinstance(yaml, ImportError):
                 self.logger.warning(
@@ -540,9 +540,12 @@ class Scheduler:
             break
         if return_data_file is not None:
             try:
-                run.run_data["return_data"] = load_structured_file(
+                return_data = load_structured_file(
                     return_data_file, file_type=return_data_file_type
                 )
+                # Raises an exception if the data cannot be stored
+                json.dumps(return_data)
+                run.run_data["return_data"] = return_data
             except Exception:
                 pass
 
-- 
2.43.0


From 54c84f964b354cc8a9a6afc68918ba2d6b613704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:57 +0000
Subject: [PATCH 11/50] fix: reject environment definitions which exec() does
 not accept

Every run of the job (or trigger) failed in the child process instead.
---
 dsari/utils.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dsari/utils.py b/dsari/utils.py
index 1a1042f..2651f57 100644
--- a/dsari/utils.py
+++ b/dsari/utils.py
@@ -108,6 +108,10 @@ def validate_environment_dict(env_in):
             raise KeyError(
                 "Invalid environment key name: {} ({})".format(repr(k), repr(type(k)))
             )
+        if (k == "") or ("=" in k) or ("\0" in k + str(env_in[k])):
+            # Not accepted by exec()
+            raise KeyError("Invalid environment definition: {}".format(repr(k)))
+        os.fsencode(k + str(env_in[k]))
         if type(env_in[k]) in (str,):
             env_out[k] = env_in[k]
         elif type(env_in[k]) in (int, float):
-- 
2.43.0


From a089108ba16f963f87f44d622dc804d57c9611b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:57 +0000
Subject: [PATCH 12/50] fix: reject commands with arguments which are not
 strings

The daemon died of such a job after having started it.
---
 dsari/config.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/dsari/config.py b/dsari/config.py
index bc56e8b..7f5ebab 100644
--- a/dsari/config.py
+++ b/dsari/config.py
@@ -238,7 +238,18 @@ class ConfigLoader:
         if "command" not in job_dict:
             raise ConfigError("Job {}: command required".format(job_name))
         if type(job_dict["command"]) == str:
-            job_dict["command"] = shlex.split(job_dict["command"])
+            try:
+                job_dict["command"] = shlex.split(job_dict["command"])
+            except ValueError as e:
+                raise ConfigError("Job {}: Invalid command: {}".format(job_name, e))
+        if type(job_dict["command"]) == list:
+            for arg in job_dict["command"]:
+                if type(arg) != str or "\0" in arg:
+                    raise ConfigError(
+                        "Job {}: Invalid command argument {}".format(
+                            job_name, repr(arg)
+                        )
+                    )
         job = dsari.Job(job_name)
         self.populate_object(
             job, "Job {}".format(job_name), job_dict, valid_values, value_transforms
-- 
2.43.0


From f2e9685346aaef53d0c2194f19641bab615d99ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:15 +0000
Subject: [PATCH 13/50] fix: a name ending in a newline is not a valid name

---
 dsari/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsari/config.py b/dsari/config.py
index 7f5ebab..d12f178 100644
--- a/dsari/config.py
+++ b/dsari/config.py
@@ -80,7 +80,7 @@ class ConfigLoader:
             return False
         if len(job_name) > 64:
             return False
-        if not re.search("^([- A-Za-z0-9_+.:@]+)$", job_name):
+        if not re.search("^([- A-Za-z0-9_+.:@]+)\\Z", job_name):
             return False
         return True
 
-- 
2.43.0


From 1002ce2c3f1cc888f56c5694880cbf59fa06c054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:15 +0000
Subject: [PATCH 14/50] fix: accept empty YAML files, report files which are no
 valid configuration

An empty file in config.d dropped everything loaded before it (and ended in a
TypeError), and a YAML syntax error was not reported as ConfigError.
---
 dsari/config.py | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/dsari/config.py b/dsari/config.py
index d12f178..51a30fd 100644
--- a/dsari/config.py
+++ b/dsari/config.py
@@ -84,6 +84,14 @@ class ConfigLoader:
             return False
         return True
 
+    def check_root(self, data):
+        if data is None:
+            # An empty (or fully commented out) YAML file
+            return {}
+        if not isinstance(data, dict):
+            raise ValueError("Configuration must be an associative array")
+        return data
+
     def load_dir(self, config_dir=DEFAULT_CONFIG_DIR):
         config = {}
         for fn, fn_type in [("dsari.yaml", "yaml"), ("dsari.json", "json")]:
@@ -91,11 +99,13 @@ class ConfigLoader:
                 try:
                     config = utils.dict_merge(
                         config,
-                        utils.load_structured_file(
-                            os.path.join(config_dir, fn), file_type=fn_type
+                        self.check_root(
+                            utils.load_structured_file(
+                                os.path.join(config_dir, fn), file_type=fn_type
+                            )
                         ),
                     )
-                except (ValueError, ImportError) as e:
+                except Exception as e:
                     raise ConfigError(e)
         self.config.config_d = os.path.join(config_dir, "config.d")
         if "config_d" in config:
@@ -115,9 +125,12 @@ class ConfigLoader:
                 for file in config_files:
                     try:
                         config = utils.dict_merge(
-                            config, utils.load_structured_file(file, file_type=fn_type)
+                            config,
+                            self.check_root(
+                                utils.load_structured_file(file, file_type=fn_type)
+                            ),
                         )
-                    except (ValueError, ImportError) as e:
+                    except Exception as e:
                         raise ConfigError(e)
 
         self.load(config)
-- 
2.43.0


From 0577c7997b1d3860e834881fe2b28c31741ccd24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:50 +0000
Subject: [PATCH 15/50] fix: H/n and H(a-b)/n start within the first n values

The offset could be n itself, one too many, so that the first value of the
field was never used (e.g. H/15 as 15-59/15 runs three times an hour), or lie
outside of the range; and H(0-0) meant the whole range.
---
 dsari/croniter_hash.py | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/dsari/croniter_hash.py b/dsari/croniter_hash.py
index a4ea118..279e31e 100644
--- a/dsari/croniter_hash.py
+++ b/dsari/croniter_hash.py
@@ -30,9 +30,9 @@ class croniter_hash(croniter.croniter):
         return super(croniter_hash, self).__init__(expr_format, *args, **kwargs)
 
     def _hash_do(self, id, position, range_end=None, range_begin=None, hash_type="H"):
-        if not range_end:
+        if range_end is None:
             range_end = self.RANGES[position][1]
-        if not range_begin:
+        if range_begin is None:
             range_begin = self.RANGES[position][0]
         if hash_type == "R":
             crc = random.randint(0, 0xFFFFFFFF)
@@ -75,8 +75,13 @@ class croniter_hash(croniter.croniter):
         m = re.match(r"^(H|R)\((\d+)-(\d+)\)\/(\d+)$", item)
         if m:
             return "{}-{}/{}".format(
-                self._hash_do(id, idx, int(m.group(4)), hash_type=m.group(1))
-                + int(m.group(2)),
+                self._hash_do(
+                    id,
+                    idx,
+                    min(int(m.group(2)) + int(m.group(4)) - 1, int(m.group(3))),
+                    int(m.group(2)),
+                    hash_type=m.group(1),
+                ),
                 int(m.group(3)),
                 int(m.group(4)),
             )
@@ -94,7 +99,14 @@ class croniter_hash(croniter.croniter):
         m = re.match(r"^(H|R)\/(\d+)$", item)
         if m:
             return "{}-{}/{}".format(
-                self._hash_do(id, idx, int(m.group(2)), hash_type=m.group(1)),
+                self._hash_do(
+                    id,
+                    idx,
+                    min(
+                        self.RANGES[idx][0] + int(m.group(2)) - 1, self.RANGES[idx][1]
+                    ),
+                    hash_type=m.group(1),
+                ),
                 self.RANGES[idx][1],
                 int(m.group(2)),
             )
-- 
2.43.0


From 03e2499baeacdc81cc64621ccfd766dbfbdb3d28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:50 +0000
Subject: [PATCH 16/50] fix: extra white space in a cron schedule must not
 shift the hashed fields

---
 dsari/croniter_hash.py | 2 +-
 dsari/utils.py         | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/dsari/croniter_hash.py b/dsari/croniter_hash.py
index 279e31e..039dd8b 100644
--- a/dsari/croniter_hash.py
+++ b/dsari/croniter_hash.py
@@ -61,7 +61,7 @@ class croniter_hash(croniter.croniter):
             expr_format = "H H H H * H"
 
         expr_expanded = []
-        for item in expr_format.split(" "):
+        for item in expr_format.split():
             idx = len(expr_expanded)
             expr_expanded.append(self._hash_expand_item(item, id, idx))
         return " ".join(expr_expanded)
diff --git a/dsari/utils.py b/dsari/utils.py
index 2651f57..5a54621 100644
--- a/dsari/utils.py
+++ b/dsari/utils.py
@@ -142,7 +142,7 @@ def get_next_schedule_time(schedule, job_name, start_time=None):
         return t
     if isinstance(croniter_hash, ImportError):
         raise ImportError("croniter not available, manual triggers only")
-    if len(schedule.split(" ")) == 5:
+    if len(schedule.split()) == 5:
         schedule = schedule + " H"
     t = (
         croniter_hash.croniter_hash(
-- 
2.43.0


From dcebc7fd0bf6aa7ca8e81b46e0bbc67ec3302c2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:56 +0000
Subject: [PATCH 17/50] fix: sub-second offset of scheduled times

An occurrence was skipped if the reference time was within the job's offset
after its whole second, and adding the offset lost which of two ambiguous wall
clock times was meant: in the hour after the end of DST, the next run was in
the past, and the daemon ran the job continuously.
---
 dsari/utils.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/dsari/utils.py b/dsari/utils.py
index 5a54621..438c422 100644
--- a/dsari/utils.py
+++ b/dsari/utils.py
@@ -82,6 +82,13 @@ def dt_to_epoch(dt):
     return dt.timestamp()
 
 
+def dt_add(dt, td):
+    """Add elapsed time (as opposed to wall clock time) to a datetime."""
+    if dt.tzinfo is None:
+        return dt + td
+    return (dt.astimezone(datetime.timezone.utc) + td).astimezone(dt.tzinfo)
+
+
 def dtlocalize(dt, tz=None):
     if tz is not None:
         if isinstance(tz, datetime.tzinfo):
@@ -130,6 +137,9 @@ def get_next_schedule_time(schedule, job_name, start_time=None):
         start_time = datetime.datetime.now()
     crc = binascii.crc32(job_name.encode("utf-8")) & 0xFFFFFFFF
     subsecond_offset = seconds_to_td(float(crc) / float(0xFFFFFFFF))
+    # The offset is added below; an occurrence is after the start time if
+    # occurrence and offset are
+    start_time = dt_add(start_time, -subsecond_offset)
     if schedule.upper().startswith("RRULE:"):
         if isinstance(dateutil_rrule, ImportError):
             raise ImportError("dateutil not available, manual triggers only")
@@ -138,17 +148,17 @@ def get_next_schedule_time(schedule, job_name, start_time=None):
         )
         t = dateutil_rrule.rrulestr(schedule, dtstart=hashed_epoch).after(start_time)
         if t is not None:
-            t = t + subsecond_offset
+            t = dt_add(t, subsecond_offset)
         return t
     if isinstance(croniter_hash, ImportError):
         raise ImportError("croniter not available, manual triggers only")
     if len(schedule.split()) == 5:
         schedule = schedule + " H"
-    t = (
+    t = dt_add(
         croniter_hash.croniter_hash(
             schedule, start_time=start_time, hash_id=job_name
-        ).get_next(datetime.datetime)
-        + subsecond_offset
+        ).get_next(datetime.datetime),
+        subsecond_offset,
     )
     return t
 
-- 
2.43.0


From a39965b7c67e58ef0c0a50c2cb14cfb132d63d68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:56 +0000
Subject: [PATCH 18/50] fix: RRULE schedules around a change of DST

The hashed position of the day was fixed in UTC, not in the schedule's time
zone, so a daily job ran twice on the day DST began; and in the hour
repeated at its end, the next run was in the past.
---
 dsari/utils.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/dsari/utils.py b/dsari/utils.py
index 438c422..d202c2d 100644
--- a/dsari/utils.py
+++ b/dsari/utils.py
@@ -66,6 +66,9 @@ def load_structured_file(file, file_type="json", delete_during=False):
             raise
 
 
+utc = datetime.timezone.utc
+
+
 def seconds_to_td(seconds):
     return datetime.timedelta(seconds=seconds)
 
@@ -86,7 +89,7 @@ def dt_add(dt, td):
     """Add elapsed time (as opposed to wall clock time) to a datetime."""
     if dt.tzinfo is None:
         return dt + td
-    return (dt.astimezone(datetime.timezone.utc) + td).astimezone(dt.tzinfo)
+    return (dt.astimezone(utc) + td).astimezone(dt.tzinfo)
 
 
 def dtlocalize(dt, tz=None):
@@ -144,9 +147,14 @@ def get_next_schedule_time(schedule, job_name, start_time=None):
         if isinstance(dateutil_rrule, ImportError):
             raise ImportError("dateutil not available, manual triggers only")
         hashed_epoch = start_time - seconds_to_td(
-            ((dt_to_epoch(start_time) - crc) % 86400)
+            ((dt_to_epoch(start_time.replace(tzinfo=utc)) - crc) % 86400)
         )
-        t = dateutil_rrule.rrulestr(schedule, dtstart=hashed_epoch).after(start_time)
+        rule = dateutil_rrule.rrulestr(schedule, dtstart=hashed_epoch)
+        t = rule.after(start_time)
+        # The rule compares wall clock times, of which one hour is repeated
+        # at the end of DST
+        while t is not None and dt_to_epoch(t) <= dt_to_epoch(start_time):
+            t = rule.after(t)
         if t is not None:
             t = dt_add(t, subsecond_offset)
         return t
-- 
2.43.0


From 00730853d4bfc68bd23f0b125c7357e5f5e35344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:12 +0000
Subject: [PATCH 19/50] fix: RRULE schedules with UNTIL

The documented form was accepted, but then ended the daemon with a ValueError,
as its start times have a time zone; the UTC form was rejected, as the
configuration was checked without one.
---
 dsari/config.py |  6 +++++-
 dsari/utils.py  | 20 ++++++++++++++++++--
 2 files changed, 23 insertions(+), 3 deletions(-)

diff --git a/dsari/config.py b/dsari/config.py
index 51a30fd..c7949a4 100644
--- a/dsari/config.py
+++ b/dsari/config.py
@@ -269,7 +269,11 @@ class ConfigLoader:
         )
         if job.schedule is not None:
             try:
-                utils.get_next_schedule_time(job.schedule, job.name)
+                utils.get_next_schedule_time(
+                    job.schedule,
+                    job.name,
+                    start_time=utils.dtnow(job.schedule_timezone),
+                )
             except Exception as e:
                 raise ConfigError(
                     "Job {}: Invalid schedule ({}): {}: {}".format(
diff --git a/dsari/utils.py b/dsari/utils.py
index d202c2d..77d1f48 100644
--- a/dsari/utils.py
+++ b/dsari/utils.py
@@ -10,6 +10,7 @@ import datetime
 import gzip
 import json
 import os
+import re
 
 try:
     import dateutil.rrule as dateutil_rrule
@@ -135,9 +136,17 @@ def validate_environment_dict(env_in):
     return env_out
 
 
+def until_to_utc(m, tz):
+    """UTC is the only form of UNTIL accepted with a time zone aware start."""
+    until = datetime.datetime.strptime(
+        m.group(1) + (m.group(2) or "T000000"), "%Y%m%dT%H%M%S"
+    ).replace(tzinfo=(utc if m.group(3) else tz))
+    return until.astimezone(utc).strftime("%Y%m%dT%H%M%SZ")
+
+
 def get_next_schedule_time(schedule, job_name, start_time=None):
     if start_time is None:
-        start_time = datetime.datetime.now()
+        start_time = dtnow()
     crc = binascii.crc32(job_name.encode("utf-8")) & 0xFFFFFFFF
     subsecond_offset = seconds_to_td(float(crc) / float(0xFFFFFFFF))
     # The offset is added below; an occurrence is after the start time if
@@ -149,7 +158,14 @@ def get_next_schedule_time(schedule, job_name, start_time=None):
         hashed_epoch = start_time - seconds_to_td(
             ((dt_to_epoch(start_time.replace(tzinfo=utc)) - crc) % 86400)
         )
-        rule = dateutil_rrule.rrulestr(schedule, dtstart=hashed_epoch)
+        rule = dateutil_rrule.rrulestr(
+            re.sub(
+                r"(?<=UNTIL=)(\d{8})(T\d{6})?(Z?)",
+                lambda m: until_to_utc(m, start_time.tzinfo),
+                schedule.upper(),
+            ),
+            dtstart=hashed_epoch,
+        )
         t = rule.after(start_time)
         # The rule compares wall clock times, of which one hour is repeated
         # at the end of DST
-- 
2.43.0


From 1b3e1bf3212d5b78fe219257cd15701558ee29be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:12 +0000
Subject: [PATCH 20/50] fix: follow DST changes of the local time zone

The default schedule_timezone was the UTC offset in force when the
configuration was loaded.
---
 dsari/__init__.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dsari/__init__.py b/dsari/__init__.py
index be07f6a..5809544 100644
--- a/dsari/__init__.py
+++ b/dsari/__init__.py
@@ -30,7 +30,10 @@ class Job(object):
         self.name = name
         self.command = []
         self.schedule = None
-        self.schedule_timezone = utils.dtnow().tzinfo
+        if isinstance(utils.dateutil_tz, ImportError):
+            self.schedule_timezone = utils.dtnow().tzinfo
+        else:
+            self.schedule_timezone = utils.dateutil_tz.tzlocal()
         self.concurrency_groups = []
         self.max_execution = None
         self.max_execution_grace = utils.seconds_to_td(60.0)
-- 
2.43.0


From 945d350816cddd9eb8c6126690b14cf7c9355ca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:27 +0000
Subject: [PATCH 21/50] fix: a random date which does not exist must not stop
 the daemon

With R for both day and month, sooner or later a date such as February 30 was
picked, for which croniter raises an exception.
---
 dsari/utils.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/dsari/utils.py b/dsari/utils.py
index 77d1f48..4b63920 100644
--- a/dsari/utils.py
+++ b/dsari/utils.py
@@ -178,13 +178,17 @@ def get_next_schedule_time(schedule, job_name, start_time=None):
         raise ImportError("croniter not available, manual triggers only")
     if len(schedule.split()) == 5:
         schedule = schedule + " H"
-    t = dt_add(
-        croniter_hash.croniter_hash(
-            schedule, start_time=start_time, hash_id=job_name
-        ).get_next(datetime.datetime),
-        subsecond_offset,
-    )
-    return t
+    for attempts_left in reversed(range(100)):
+        try:
+            t = croniter_hash.croniter_hash(
+                schedule, start_time=start_time, hash_id=job_name
+            ).get_next(datetime.datetime)
+            break
+        except croniter_hash.croniter.CroniterBadDateError:
+            # R may have picked a date which does not exist, e.g. February 30
+            if "R" not in schedule or attempts_left == 0:
+                raise
+    return dt_add(t, subsecond_offset)
 
 
 def json_pretty_print(v):
-- 
2.43.0


From 0255e99a9b225da01976f242327a38dd103a3d14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:27 +0000
Subject: [PATCH 22/50] fix: list runs which finish while dsari-info is reading

---
 dsari/info.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/dsari/info.py b/dsari/info.py
index eeaf0a7..66387fa 100644
--- a/dsari/info.py
+++ b/dsari/info.py
@@ -420,9 +420,16 @@ class Info:
     def cmd_list_runs(self):
         job_names = self.args.job
         run_ids = self.args.run
+        # A run may finish in between, so get the running runs first, and then
+        # let the finished run take precedence
+        runs_running = self.db.get_runs(
+            job_names=job_names, run_ids=run_ids, runs_running=True
+        )
         runs = self.db.get_runs(
             job_names=job_names, run_ids=run_ids, runs_running=False
-        ) + self.db.get_runs(job_names=job_names, run_ids=run_ids, runs_running=True)
+        )
+        finished_run_ids = set(run.id for run in runs)
+        runs += [run for run in runs_running if run.id not in finished_run_ids]
         if self.args.format in ("json", "yaml"):
             out = {}
             for run in runs:
@@ -537,6 +544,9 @@ class Info:
         runs = self.db.get_runs(run_ids=[run_id])
         if len(runs) == 0:
             runs = self.db.get_runs(run_ids=[run_id], runs_running=True)
+            if len(runs) == 0:
+                # It may have finished in between
+                runs = self.db.get_runs(run_ids=[run_id])
             if len(runs) == 0:
                 self.args.parser.error("Cannot find run ID {}".format(run_id))
         run = runs[0]
-- 
2.43.0


From c4fd07c8c9eea0b66eecb74bbc6f1bfcfebc1319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:49 +0000
Subject: [PATCH 23/50] fix: dsari-info run list with both --job and --run
 ignored --job

---
 dsari/info.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dsari/info.py b/dsari/info.py
index 66387fa..372297d 100644
--- a/dsari/info.py
+++ b/dsari/info.py
@@ -428,6 +428,10 @@ class Info:
         runs = self.db.get_runs(
             job_names=job_names, run_ids=run_ids, runs_running=False
         )
+        if job_names and run_ids:
+            # get_runs() only considers one of them
+            runs_running = [run for run in runs_running if run.job.name in job_names]
+            runs = [run for run in runs if run.job.name in job_names]
         finished_run_ids = set(run.id for run in runs)
         runs += [run for run in runs_running if run.id not in finished_run_ids]
         if self.args.format in ("json", "yaml"):
-- 
2.43.0


From ef209e2a8466a009335bf3f4c429f33693d20218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:49 +0000
Subject: [PATCH 24/50] fix: show output of runs which is missing or not valid
 UTF-8

dsari-info run output and dsari-render failed with an exception, the latter
for all later runs, too.
---
 dsari/info.py  | 3 ++-
 dsari/utils.py | 6 +++---
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/dsari/info.py b/dsari/info.py
index 372297d..a22529e 100644
--- a/dsari/info.py
+++ b/dsari/info.py
@@ -558,7 +558,8 @@ class Info:
             self.config.data_dir, "runs", run.job.name, run.id, "output.txt"
         )
         with AutoPager() as pager:
-            pager.write(dsari.utils.read_output(fn))
+            # There is no output file yet if the run has just been started
+            pager.write(dsari.utils.read_output(fn) or "")
 
     def cmd_tail_run_output(self):
         while True:
diff --git a/dsari/utils.py b/dsari/utils.py
index 4b63920..9909866 100644
--- a/dsari/utils.py
+++ b/dsari/utils.py
@@ -198,14 +198,14 @@ def json_pretty_print(v):
 def read_output(filename):
     if os.path.isfile(filename):
         with open(filename, "rb") as f:
-            return f.read().decode("utf-8")
+            return f.read().decode("utf-8", errors="replace")
     elif os.path.isfile("{}.gz".format(filename)):
         with gzip.open("{}.gz".format(filename), "rb") as f:
-            return f.read().decode("utf-8")
+            return f.read().decode("utf-8", errors="replace")
     elif (not isinstance(lzma, ImportError)) and os.path.isfile(
         "{}.xz".format(filename)
     ):
         with open("{}.xz".format(filename), "rb") as f:
-            return lzma.LZMADecompressor().decompress(f.read()).decode("utf-8")
+            return lzma.LZMADecompressor().decompress(f.read()).decode("utf-8", errors="replace")
     else:
         return None
-- 
2.43.0


From 82d2b32d0789e2c57b7ed71f897f510db28cd92f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:49 +0000
Subject: [PATCH 25/50] fix: the database type defaults to sqlite3, also if
 only the file is set

---
 dsari/database.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dsari/database.py b/dsari/database.py
index 4773ae9..e584f02 100644
--- a/dsari/database.py
+++ b/dsari/database.py
@@ -13,11 +13,11 @@ from dsari.utils import dt_to_epoch, epoch_to_dt
 
 
 def get_database(config):
-    if config.database["type"] == "postgresql":
+    if config.database.get("type") == "postgresql":
         return PostgreSQLDatabase(config)
-    elif config.database["type"] == "mysql":
+    elif config.database.get("type") == "mysql":
         return MySQLDatabase(config)
-    elif config.database["type"] == "mongodb":
+    elif config.database.get("type") == "mongodb":
         return MongoDBDatabase(config)
     else:
         return SQLite3Database(config)
-- 
2.43.0


From 7df98c267371ca07bacbf2b568c797942d4305f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:19 +0000
Subject: [PATCH 26/50] fix: times of runs in PostgreSQL, MySQL and MongoDB
 databases

They were read back without time zone, as another time unless the local time
zone (and in case of MySQL, the job's schedule_timezone) was UTC, and some
listings failed when comparing them with times which do have one.  They are
now stored as UTC, as documented.
---
 dsari/database.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/dsari/database.py b/dsari/database.py
index e584f02..d6cba2e 100644
--- a/dsari/database.py
+++ b/dsari/database.py
@@ -9,7 +9,7 @@ import json
 import os
 
 import dsari
-from dsari.utils import dt_to_epoch, epoch_to_dt
+from dsari.utils import dt_to_epoch, epoch_to_dt, utc
 
 
 def get_database(config):
@@ -66,7 +66,10 @@ class BaseSQLDatabase(BaseDatabase):
     def _build_insert(self, pairs):
         out = []
         for (k, v) in pairs:
-            if k in ("trigger_data", "run_data"):
+            if k in ("schedule_time", "start_time", "stop_time"):
+                # The columns have no time zone
+                out.append(v.astimezone(utc).replace(tzinfo=None))
+            elif k in ("trigger_data", "run_data"):
                 out.append(json.dumps(v))
             else:
                 out.append(v)
@@ -79,6 +82,8 @@ class BaseSQLDatabase(BaseDatabase):
                 continue
             if type(f[k]) in (int, float):
                 setattr(run, k, epoch_to_dt(f[k]).astimezone())
+            elif f[k].tzinfo is None:
+                setattr(run, k, f[k].replace(tzinfo=utc).astimezone())
             else:
                 setattr(run, k, f[k])
         if "exit_code" in f.keys():
@@ -615,6 +620,10 @@ class MongoDBDatabase(BaseDatabase):
         ):
             if k not in f:
                 continue
+            if k.endswith("_time") and f[k].tzinfo is None:
+                # MongoDB stores and returns UTC
+                setattr(run, k, f[k].replace(tzinfo=utc).astimezone())
+                continue
             setattr(run, k, f[k])
         return run
 
-- 
2.43.0


From aded77783b29d91ea63b6d714008def2f37b4987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:19 +0000
Subject: [PATCH 27/50] fix: get_runs() of an empty list of jobs or runs in
 PostgreSQL and MySQL

dsari-render failed if no job had reports enabled.
---
 dsari/database.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dsari/database.py b/dsari/database.py
index d6cba2e..51f73a9 100644
--- a/dsari/database.py
+++ b/dsari/database.py
@@ -290,6 +290,9 @@ class BaseSQLDatabase(BaseDatabase):
             table_name = "runs_running"
         else:
             table_name = "runs"
+        if where is not None and len(where_in) == 0:
+            # "IN ()" is a syntax error except in SQLite
+            return []
 
         sql_statement = """
             SELECT
-- 
2.43.0


From 63fdb1f577bfc3c0e485a292c8c99e26eeb103d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:19 +0000
Subject: [PATCH 28/50] fix: end read transactions

With MySQL (REPEATABLE READ), dsari-prometheus-exporter reported the data as
of its start for ever, and dsari-info run tail never noticed a run; with
PostgreSQL, their connections stayed idle in transaction.
---
 dsari/database.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dsari/database.py b/dsari/database.py
index 51f73a9..38efa2f 100644
--- a/dsari/database.py
+++ b/dsari/database.py
@@ -177,6 +177,7 @@ class BaseSQLDatabase(BaseDatabase):
         cur.execute(sql_statement, (job.name,))
         f = cur.fetchone()
         cur.close()
+        self.db_conn.commit()
         if f:
             previous_bad_run = self._build_run_from_result(job, f)
         else:
@@ -326,6 +327,8 @@ class BaseSQLDatabase(BaseDatabase):
                 fake_jobs[db_result["job_name"]] = job
             runs.append(self._build_run_from_result(job, db_result))
         cur.close()
+        # End the transaction, or else MySQL keeps returning the same data
+        self.db_conn.commit()
         return runs
 
 
-- 
2.43.0


From c0bb6543296d77fa93b172ca098cbb55d5e83e5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:29 +0000
Subject: [PATCH 29/50] fix: template_dir

---
 dsari/render.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dsari/render.py b/dsari/render.py
index 79727f7..6433649 100644
--- a/dsari/render.py
+++ b/dsari/render.py
@@ -94,8 +94,10 @@ class Renderer:
 
         if self.config.template_dir:
             loader = jinja2.ChoiceLoader(
-                jinja2.FileSystemLoader(self.config.template_dir),
-                jinja2.PackageLoader("dsari"),
+                [
+                    jinja2.FileSystemLoader(self.config.template_dir),
+                    jinja2.PackageLoader("dsari"),
+                ]
             )
         else:
             loader = jinja2.PackageLoader("dsari")
-- 
2.43.0


From a1eda2af251dd44618b74e209832de1f1c7c3a84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:57 +0000
Subject: [PATCH 30/50] fix: complete the reports after an interrupted
 dsari-render

A page which was only partly written, or a job page or index which was not
written after the page of a run, remained so until the next run of the job,
or for ever.
---
 dsari/render.py | 37 +++++++++++++++++++++++++++----------
 1 file changed, 27 insertions(+), 10 deletions(-)

diff --git a/dsari/render.py b/dsari/render.py
index 6433649..8eb5284 100644
--- a/dsari/render.py
+++ b/dsari/render.py
@@ -66,12 +66,15 @@ def parse_args():
 
 
 def write_html_file(filename, content):
+    # A page which exists is not written again, so it must not be incomplete
+    filename_tmp = "{}.tmp".format(filename)
     if filename.endswith(".gz"):
-        with gzip.open(filename, "wb") as f:
-            f.write(content.encode("utf-8"))
+        with gzip.open(filename_tmp, "wb") as f:
+            f.write(content.encode("utf-8", errors="replace"))
     else:
-        with open(filename, "wb") as f:
-            f.write(content.encode("utf-8"))
+        with open(filename_tmp, "wb") as f:
+            f.write(content.encode("utf-8", errors="replace"))
+    os.replace(filename_tmp, filename)
 
 
 class Renderer:
@@ -130,10 +133,15 @@ class Renderer:
             self.job_runs[job.name] = []
         self.runs = []
         self.jobs_written = []
+        self.runs_missing = []
 
+        # The pages of the runs come last, as the other pages are only written
+        # if one of them is missing
         self.render_runs()
         self.render_jobs()
         self.render_index()
+        for run in self.runs_missing:
+            self.write_run(run)
 
     def render_runs(self):
         self.run_template = self.templates.get_template("run.html")
@@ -148,14 +156,25 @@ class Renderer:
         job.last_run = run
         if run.exit_code == 0:
             job.last_successful_run = run
+        run_html_filename = self.get_run_html_filename(run)
+        if os.path.isfile(run_html_filename):
+            if not self.args.regenerate:
+                return
+        self.runs_missing.append(run)
+        if job not in self.jobs_written:
+            self.jobs_written.append(job)
+
+    def get_run_html_filename(self, run):
         run_html_filename = os.path.join(
-            self.config.data_dir, "html", job.name, run.id, "index.html"
+            self.config.data_dir, "html", run.job.name, run.id, "index.html"
         )
         if self.config.report_html_gz:
             run_html_filename = "{}.gz".format(run_html_filename)
-        if os.path.isfile(run_html_filename):
-            if not self.args.regenerate:
-                return
+        return run_html_filename
+
+    def write_run(self, run):
+        job = run.job
+        run_html_filename = self.get_run_html_filename(run)
         if not os.path.exists(
             os.path.join(self.config.data_dir, "html", job.name, run.id)
         ):
@@ -187,8 +206,6 @@ class Renderer:
         self.logger.info("Writing {}".format(run_html_filename))
         context = {"run": run}
         write_html_file(run_html_filename, self.run_template.render(context))
-        if job not in self.jobs_written:
-            self.jobs_written.append(job)
 
     def render_jobs(self):
         self.job_template = self.templates.get_template("job.html")
-- 
2.43.0


From 9c3fa7feb8009854163c0ddf5f1a2f80ea257288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:57 +0000
Subject: [PATCH 31/50] fix: do not show a missing output as None in reports

---
 dsari/render.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsari/render.py b/dsari/render.py
index 8eb5284..b28968c 100644
--- a/dsari/render.py
+++ b/dsari/render.py
@@ -202,7 +202,7 @@ class Renderer:
             if limit_end > 0:
                 run.output += raw_output[(0 - limit_end) :]
         else:
-            run.output = raw_output
+            run.output = "" if raw_output is None else raw_output
         self.logger.info("Writing {}".format(run_html_filename))
         context = {"run": run}
         write_html_file(run_html_filename, self.run_template.render(context))
-- 
2.43.0


From 98377fc0daa4b26612ab90f8cfc5ad6d95e8d3ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:19 +0000
Subject: [PATCH 32/50] fix: complete the style sheet after an interrupted
 dsari-render

---
 dsari/render.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/dsari/render.py b/dsari/render.py
index b28968c..b3fd3d2 100644
--- a/dsari/render.py
+++ b/dsari/render.py
@@ -239,8 +239,7 @@ class Renderer:
         css_filename = os.path.join(base_dir, "darkly.min.css")
         if not os.path.exists(css_filename):
             css_template = self.templates.get_template("darkly.min.css")
-            with open(css_filename, "wb") as f:
-                f.write(css_template.render({}).encode("utf-8"))
+            write_html_file(css_filename, css_template.render({}))
         self.index_template = self.templates.get_template("index.html")
         if (len(self.jobs_written) > 0) or self.args.regenerate:
             context = {
-- 
2.43.0


From 1df587d5881c5d24a34094dace8f719253fdb898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:19 +0000
Subject: [PATCH 33/50] fix: reload of dsari-prometheus-exporter

A SIGHUP during a scrape made the scrape fail, and an invalid configuration
ended the exporter.
---
 dsari/prometheus_exporter.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/dsari/prometheus_exporter.py b/dsari/prometheus_exporter.py
index 3bc4504..2d2e754 100644
--- a/dsari/prometheus_exporter.py
+++ b/dsari/prometheus_exporter.py
@@ -120,6 +120,7 @@ def entry(values, type="gauge", help=None):
 class Prometheus:
     def __init__(self, args):
         self.args = args
+        self.reload_requested = False
         self.load_config()
         self.db = dsari.database.get_database(self.config)
 
@@ -345,6 +346,16 @@ class Prometheus:
         exporter_start = dtnow()
         metrics = {}
 
+        # Not done by the signal handler, which may interrupt a scrape
+        if self.reload_requested:
+            self.reload_requested = False
+            try:
+                self.load_config()
+            except Exception as e:
+                logging.getLogger().error(
+                    "Cannot load configuration, keeping the previous one: {}".format(e)
+                )
+
         if (self.job_cache is None) or (
             (self.job_cache_time + seconds_to_td(self.args.job_cache_time)) < dtnow()
         ):
@@ -396,7 +407,7 @@ class PrometheusHandler:
     def signal_handler(self, signum, frame):
         if signum == signal.SIGHUP:
             self.logger.info("SIGHUP received, reloading")
-            self.prom.load_config()
+            self.prom.reload_requested = True
 
     def __call__(self, environ, start_response):
         self.environ = environ
-- 
2.43.0


From 1980a339c16a7ec4347d092e4e69102518c1b224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:45 +0000
Subject: [PATCH 34/50] fix: wake up for the next scheduled run of a job which
 has just been started

If it was due within 60 seconds and another run was in progress, it was
started up to 60 seconds late.
---
 dsari/daemon.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dsari/daemon.py b/dsari/daemon.py
index 7276137..03c303e 100644
--- a/dsari/daemon.py
+++ b/dsari/daemon.py
@@ -771,6 +771,7 @@ class Scheduler:
             run.trigger_type = "schedule"
             run.schedule_time = t
             self.scheduled_runs.append(run)
+            self.wakeups.append(t)
             self.logger.debug(
                 "[{} {}] Next scheduled run: {} ({})".format(
                     job.name, run.id, t, (t - now)
-- 
2.43.0


From c4163a241294dd0336d08a47e9f74ab9c9a561ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:45 +0000
Subject: [PATCH 35/50] fix: keep the return data of runs in progress if a
 reload changes data_dir

---
 dsari/daemon.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dsari/daemon.py b/dsari/daemon.py
index 03c303e..129665d 100644
--- a/dsari/daemon.py
+++ b/dsari/daemon.py
@@ -527,7 +527,7 @@ class Scheduler:
         return_data_file = None
         return_data_file_type = None
         for fn, fn_type in [("return_data.json", "json"), ("return_data.yaml", "yaml")]:
-            test_file = os.path.join(self.config.data_dir, "runs", job.name, run.id, fn)
+            test_file = os.path.join(run.data_dir, "runs", job.name, run.id, fn)
             if not os.path.isfile(test_file):
                 continue
             if fn_type == "yaml" and isinstance(yaml, ImportError):
@@ -732,6 +732,7 @@ class Scheduler:
             os.makedirs(os.path.join(self.config.data_dir, "runs", job.name, run.id))
 
         run.start_time = now
+        run.data_dir = self.config.data_dir
         run.max_execution = job.max_execution
         run.max_execution_grace = job.max_execution_grace
         run.term_sent = False
-- 
2.43.0


From 59bcc485d5c6fe4b6e3aea59389a11ca8f1a49f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:47 +0000
Subject: [PATCH 36/50] fix: reject concurrency_groups and job_names which are
 not lists

---
 dsari/config.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/dsari/config.py b/dsari/config.py
index c7949a4..9329ad2 100644
--- a/dsari/config.py
+++ b/dsari/config.py
@@ -217,6 +217,10 @@ class ConfigLoader:
                 raise ConfigError(
                     "Job group {}: job_names required".format(job_group_name)
                 )
+            if type(job_template["job_names"]) != list:
+                raise ConfigError(
+                    "Job group {}: job_names must be a list".format(job_group_name)
+                )
             for job_name in job_template["job_names"]:
                 jobs[job_name] = copy.deepcopy(job_template)
                 jobs[job_name]["job_group"] = job_group_name
@@ -286,6 +290,10 @@ class ConfigLoader:
     def build_job_concurrency_groups(self, job, job_dict):
         if "concurrency_groups" not in job_dict:
             return
+        if type(job_dict["concurrency_groups"]) != list:
+            raise ConfigError(
+                "Job {}: concurrency_groups must be a list".format(job.name)
+            )
         for concurrency_group_name in job_dict["concurrency_groups"]:
             if concurrency_group_name in self.config.concurrency_groups:
                 concurrency_group = self.config.concurrency_groups[
-- 
2.43.0


From 064069c7364833c1d3a97d205f44940ac96cfc27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:47 +0000
Subject: [PATCH 37/50] fix: reject empty commands

---
 dsari/config.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dsari/config.py b/dsari/config.py
index 9329ad2..40bade6 100644
--- a/dsari/config.py
+++ b/dsari/config.py
@@ -259,6 +259,8 @@ class ConfigLoader:
                 job_dict["command"] = shlex.split(job_dict["command"])
             except ValueError as e:
                 raise ConfigError("Job {}: Invalid command: {}".format(job_name, e))
+        if job_dict["command"] == []:
+            raise ConfigError("Job {}: command required".format(job_name))
         if type(job_dict["command"]) == list:
             for arg in job_dict["command"]:
                 if type(arg) != str or "\0" in arg:
-- 
2.43.0


From fc188fff174c9353d4a5f6235d34b0eb1384465f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:55 +0000
Subject: [PATCH 38/50] fix: H/n and H(a-b)/n which hash to the end of the
 range

---
 dsari/croniter_hash.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/dsari/croniter_hash.py b/dsari/croniter_hash.py
index 039dd8b..f8dd02f 100644
--- a/dsari/croniter_hash.py
+++ b/dsari/croniter_hash.py
@@ -66,6 +66,12 @@ class croniter_hash(croniter.croniter):
             expr_expanded.append(self._hash_expand_item(item, id, idx))
         return " ".join(expr_expanded)
 
+    def _range_step(self, begin, end, step):
+        if begin == end:
+            # croniter takes "30-30/10" as "0-59/10"
+            return str(begin)
+        return "{}-{}/{}".format(begin, end, step)
+
     def _hash_expand_item(self, item, id, idx):
         # Example: H -> 32
         if item in ("H", "R"):
@@ -74,7 +80,7 @@ class croniter_hash(croniter.croniter):
         # Example: H(30-59)/10 -> 34-59/10 (i.e. 34,44,54)
         m = re.match(r"^(H|R)\((\d+)-(\d+)\)\/(\d+)$", item)
         if m:
-            return "{}-{}/{}".format(
+            return self._range_step(
                 self._hash_do(
                     id,
                     idx,
@@ -98,7 +104,7 @@ class croniter_hash(croniter.croniter):
         # Example: H/15 -> 7-59/15 (i.e. 7,22,37,52)
         m = re.match(r"^(H|R)\/(\d+)$", item)
         if m:
-            return "{}-{}/{}".format(
+            return self._range_step(
                 self._hash_do(
                     id,
                     idx,
-- 
2.43.0


From 62ebba99deaadd8c166044ed8461cf9856c11c99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:03 +0000
Subject: [PATCH 39/50] fix: Sunday as 7 in cron schedules

---
 dsari/croniter_hash.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dsari/croniter_hash.py b/dsari/croniter_hash.py
index f8dd02f..2296e33 100644
--- a/dsari/croniter_hash.py
+++ b/dsari/croniter_hash.py
@@ -63,7 +63,11 @@ class croniter_hash(croniter.croniter):
         expr_expanded = []
         for item in expr_format.split():
             idx = len(expr_expanded)
-            expr_expanded.append(self._hash_expand_item(item, id, idx))
+            item = self._hash_expand_item(item, id, idx)
+            if idx == 4:
+                # croniter takes 7 for Sunday only if there are no seconds
+                item = re.sub(r"(^|[,-])7(?=$|[-,#/])", r"\g<1>0", item)
+            expr_expanded.append(item)
         return " ".join(expr_expanded)
 
     def _range_step(self, begin, end, step):
-- 
2.43.0


From 1af9e74d53d8bf60cab4d19f514c14d32fb8b679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:31 +0000
Subject: [PATCH 40/50] fix: wake up for the next run during the change of DST

---
 dsari/daemon.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dsari/daemon.py b/dsari/daemon.py
index 129665d..df54cc4 100644
--- a/dsari/daemon.py
+++ b/dsari/daemon.py
@@ -782,7 +782,8 @@ class Scheduler:
     def process_wakeups(self):
         self.next_wakeup = dtnow() + seconds_to_td(60.0)
         for wakeup in self.wakeups:
-            if wakeup < self.next_wakeup:
+            # Not the wall clock times, of which one hour is repeated at the end of DST
+            if dt_to_epoch(wakeup) < dt_to_epoch(self.next_wakeup):
                 self.next_wakeup = wakeup
         if self.pending_signals:
             self.next_wakeup = dtnow()
-- 
2.43.0


From d758c72ed14a4b10eafe984c3ec41c9be065dc14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:02 +0000
Subject: [PATCH 41/50] fix: do not lose a signal sent to a run before its exec

Between fork and the reset of the handlers, the child ran the handler of
the daemon, so a SIGTERM at this moment (for example a shutdown right
after the start of a run) was lost.
---
 dsari/daemon.py | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/dsari/daemon.py b/dsari/daemon.py
index df54cc4..695f341 100644
--- a/dsari/daemon.py
+++ b/dsari/daemon.py
@@ -41,6 +41,14 @@ from dsari.utils import (
 
 __version__ = dsari.__version__
 
+HANDLED_SIGNALS = (
+    signal.SIGHUP,
+    signal.SIGINT,
+    signal.SIGTERM,
+    signal.SIGQUIT,
+    signal.SIGUSR1,
+)
+
 
 def wait_deadline(pid, options, deadline, interval=0.05):
     while True:
@@ -136,13 +144,7 @@ class Scheduler:
 
         self.reset_jobs()
 
-        for signum in (
-            signal.SIGHUP,
-            signal.SIGINT,
-            signal.SIGTERM,
-            signal.SIGQUIT,
-            signal.SIGUSR1,
-        ):
+        for signum in HANDLED_SIGNALS:
             signal.signal(signum, self.signal_handler)
 
         self.logger.info("Scheduler running")
@@ -365,8 +367,9 @@ class Scheduler:
 
     def run_child_executor(self, run):
         # Reset all handled signals to default
-        for signum in (signal.SIGHUP, signal.SIGINT, signal.SIGTERM, signal.SIGQUIT):
+        for signum in HANDLED_SIGNALS:
             signal.signal(signum, signal.SIG_DFL)
+        signal.pthread_sigmask(signal.SIG_UNBLOCK, HANDLED_SIGNALS)
 
         # Put the child in its own process group to prevent SIGINT from
         # propagating to the children
@@ -740,10 +743,13 @@ class Scheduler:
 
         self.db.insert_running_run(run)
 
+        # A signal for the child must not end up in the handler it inherits
+        signal.pthread_sigmask(signal.SIG_BLOCK, HANDLED_SIGNALS)
         child_pid = os.fork()
         if child_pid == 0:
             self.run_child_executor(run)
             raise OSError("run_child_executor returned, when it should not have")
+        signal.pthread_sigmask(signal.SIG_UNBLOCK, HANDLED_SIGNALS)
         run.pid = child_pid
         self.logger.info(
             "[{} {}] Running PID {}: {}".format(
-- 
2.43.0


From 278d416392ab5023031798d1ab84b94f39daa907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:23 +0000
Subject: [PATCH 42/50] fix: do not let runs ignore SIGXFSZ

Like SIGPIPE, it is ignored by Python, and runs inherited this.
---
 dsari/daemon.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dsari/daemon.py b/dsari/daemon.py
index 695f341..15f000b 100644
--- a/dsari/daemon.py
+++ b/dsari/daemon.py
@@ -469,6 +469,7 @@ class Scheduler:
 
         # Set STDIN to /dev/null, and STDOUT/STDERR to the output file
         signal.signal(signal.SIGPIPE, signal.SIG_DFL)
+        signal.signal(signal.SIGXFSZ, signal.SIG_DFL)
         out_f = open(
             os.path.join(self.config.data_dir, "runs", job.name, run.id, "output.txt"),
             "w",
-- 
2.43.0


From 1bcb08a59097975880b5cd35cb92f7701f36de4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:25 +0000
Subject: [PATCH 43/50] fix: show the latest run of a job on the index page

The back ends return runs in no particular order (MySQL by primary key),
so the last run shown for a job could be any of its runs.
---
 dsari/render.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dsari/render.py b/dsari/render.py
index b3fd3d2..e64e7db 100644
--- a/dsari/render.py
+++ b/dsari/render.py
@@ -146,7 +146,8 @@ class Renderer:
     def render_runs(self):
         self.run_template = self.templates.get_template("run.html")
         runs = self.db.get_runs(job_names=[job.name for job in self.jobs])
-        for run in runs:
+        # The back ends return them in any order
+        for run in sorted(runs, key=lambda run: run.stop_time):
             self.render_run(run)
 
     def render_run(self, run):
-- 
2.43.0


From 8608bb95ac80500f62d3d9d852547f776e830fc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:26 +0000
Subject: [PATCH 44/50] fix: do not take a job name with a colon for a URL in
 the index page

---
 dsari/templates/index.html | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dsari/templates/index.html b/dsari/templates/index.html
index 214902a..c8a81ed 100644
--- a/dsari/templates/index.html
+++ b/dsari/templates/index.html
@@ -21,7 +21,7 @@
 </tr>
 {% for run in failed_runs %}
 <tr{% if run.exit_code != 0 %} class="danger"{% endif %}>
-    <td><a href="{{ run.job.name }}/{{ run.id }}/">{{ strip_ms(run.stop_time) }}</a></td>
+    <td><a href="./{{ run.job.name }}/{{ run.id }}/">{{ strip_ms(run.stop_time) }}</a></td>
     <td>{{ run.job.name }}</td>
     <td>{{ strip_ms(run.stop_time - run.start_time) }}</td>
     <td>{{ run.exit_code }}</td>
@@ -38,7 +38,7 @@
 </tr>
 {% for run in runs %}
 <tr{% if run.exit_code != 0 %} class="danger"{% endif %}>
-    <td><a href="{{ run.job.name }}/{{ run.id }}/">{{ strip_ms(run.stop_time) }}</a></td>
+    <td><a href="./{{ run.job.name }}/{{ run.id }}/">{{ strip_ms(run.stop_time) }}</a></td>
     <td>{{ run.job.name }}</td>
     <td>{{ strip_ms(run.stop_time - run.start_time) }}</td>
     <td>{{ run.exit_code }}</td>
@@ -55,7 +55,7 @@
 </tr>
 {% for job in jobs %}
 <tr{% if job.last_run.start_time != job.last_successful_run.start_time %} class="danger"{% endif %}>
-    <td><a href="{{ job.name }}/">{{ job.name }}</a></td>
+    <td><a href="./{{ job.name }}/">{{ job.name }}</a></td>
     <td>{{ strip_ms(job.last_run.start_time) }}</td>
     <td>{% if job.last_run.start_time %}{{ strip_ms(job.last_run.stop_time - job.last_run.start_time) }}{% endif %}</td>
     <td>{{ strip_ms(job.last_successful_run.start_time) }}</td>
-- 
2.43.0


From f0d8f36d109c864e1d54758de9d58c1d81c1e84b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:18 +0000
Subject: [PATCH 45/50] fix: dsari-info shell: the variables were missing
 without IPython

---
 dsari/info.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/dsari/info.py b/dsari/info.py
index a22529e..3b0132b 100644
--- a/dsari/info.py
+++ b/dsari/info.py
@@ -620,9 +620,8 @@ class Info:
             class DsariConsole(code.InteractiveConsole):
                 pass
 
-            console_vars = vars.copy().update(
-                {"__name__": "__console__", "__doc__": None}
-            )
+            console_vars = vars.copy()
+            console_vars.update({"__name__": "__console__", "__doc__": None})
             print(banner, end="")
             DsariConsole(locals=console_vars).interact()
 
-- 
2.43.0


From 7c427067e1678ff840335229cd39fcf0cd604488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:38 +0000
Subject: [PATCH 46/50] fix: render: text was repeated in the excerpt of an
 output shorter than both limits together

---
 dsari/render.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/dsari/render.py b/dsari/render.py
index e64e7db..9f6cbd1 100644
--- a/dsari/render.py
+++ b/dsari/render.py
@@ -190,11 +190,7 @@ class Renderer:
         if (
             (raw_output is not None)
             and (limit_start > 0 or limit_end > 0)
-            and (
-                raw_len > limit_combined
-                or (raw_len > limit_start and limit_start > 0)
-                or (raw_len > limit_end and limit_end > 0)
-            )
+            and raw_len > limit_combined
         ):
             run.output = ""
             if limit_start > 0:
-- 
2.43.0


From 21ac0d274bcd1bdb0e32820869d8e4915aa73b22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:26:09 +0000
Subject: [PATCH 47/50] fix: MySQL: jobs whose names differ only in case shared
 their history

---
 dsari/database.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dsari/database.py b/dsari/database.py
index 38efa2f..ab03043 100644
--- a/dsari/database.py
+++ b/dsari/database.py
@@ -440,7 +440,7 @@ class MySQLDatabase(BaseSQLDatabase):
         if not runs_exists:
             sql_statement = """
                 CREATE TABLE runs (
-                    job_name varchar(255) NOT NULL,
+                    job_name varchar(255) CHARACTER SET utf8mb4 COLLATE utf8mb4_bin NOT NULL,
                     run_id char(36) PRIMARY KEY,
                     schedule_time datetime(6) NOT NULL,
                     start_time datetime(6) NOT NULL,
@@ -474,7 +474,7 @@ class MySQLDatabase(BaseSQLDatabase):
         if not runs_running_exists:
             sql_statement = """
                 CREATE TABLE runs_running (
-                    job_name varchar(255) NOT NULL,
+                    job_name varchar(255) CHARACTER SET utf8mb4 COLLATE utf8mb4_bin NOT NULL,
                     run_id char(36) PRIMARY KEY,
                     schedule_time datetime(6) NOT NULL,
                     start_time datetime(6) NOT NULL,
-- 
2.43.0


From 7a5bf246b52c526f5afe1a86558138097301f7bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:26:09 +0000
Subject: [PATCH 48/50] fix: MySQL: trigger or return data of more than 64 KiB
 could not be stored

---
 dsari/database.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dsari/database.py b/dsari/database.py
index ab03043..cde5390 100644
--- a/dsari/database.py
+++ b/dsari/database.py
@@ -447,8 +447,8 @@ class MySQLDatabase(BaseSQLDatabase):
                     stop_time datetime(6) NOT NULL,
                     exit_code tinyint unsigned NOT NULL,
                     trigger_type varchar(127) NOT NULL,
-                    trigger_data text NOT NULL,
-                    run_data text NOT NULL
+                    trigger_data longtext NOT NULL,
+                    run_data longtext NOT NULL
                 )
             """
             cur = self.db_conn.cursor()
@@ -479,8 +479,8 @@ class MySQLDatabase(BaseSQLDatabase):
                     schedule_time datetime(6) NOT NULL,
                     start_time datetime(6) NOT NULL,
                     trigger_type varchar(127) NOT NULL,
-                    trigger_data text NOT NULL,
-                    run_data text NOT NULL
+                    trigger_data longtext NOT NULL,
+                    run_data longtext NOT NULL
                 )
             """
             cur = self.db_conn.cursor()
-- 
2.43.0


From 74f08744cb23736b58f603b4e144703ac724cca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:26:09 +0000
Subject: [PATCH 49/50] fix: PostgreSQL: the daemon died on trigger or return
 data with NaN or Infinity

---
 dsari/database.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/dsari/database.py b/dsari/database.py
index cde5390..d8a3ce1 100644
--- a/dsari/database.py
+++ b/dsari/database.py
@@ -342,6 +342,17 @@ class PostgreSQLDatabase(BaseSQLDatabase):
         self.db_conn.cursor_factory = psycopg2.extras.DictCursor
         self.populate_schema()
 
+    def _build_insert(self, pairs):
+        out = super()._build_insert(pairs)
+        for i, (k, v) in enumerate(pairs):
+            if k in ("trigger_data", "run_data"):
+                try:
+                    json.dumps(v, allow_nan=False)
+                except ValueError:
+                    # NaN and Infinity are not accepted by the json type
+                    out[i] = json.dumps(out[i])
+        return out
+
     def populate_schema(self):
         sql_statement = """
             SELECT
-- 
2.43.0


From 0b0dfea6085e6ae3d1c9645d822092fa94540396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:26:09 +0000
Subject: [PATCH 50/50] fix: MongoDB: the daemon died on trigger or return data
 which BSON cannot hold

---
 dsari/database.py | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/dsari/database.py b/dsari/database.py
index d8a3ce1..5d9f87d 100644
--- a/dsari/database.py
+++ b/dsari/database.py
@@ -641,9 +641,26 @@ class MongoDBDatabase(BaseDatabase):
                 # MongoDB stores and returns UTC
                 setattr(run, k, f[k].replace(tzinfo=utc).astimezone())
                 continue
+            if k in ("trigger_data", "run_data") and type(f[k]) == str:
+                setattr(run, k, json.loads(f[k]))
+                continue
             setattr(run, k, f[k])
         return run
 
+    def _insert(self, collection, doc):
+        try:
+            collection.insert_one(doc)
+        except (
+            self.pymongo.errors.InvalidDocument,
+            self.pymongo.errors.WriteError,
+            OverflowError,
+            UnicodeError,
+        ):
+            # Not everything in JSON or YAML can be a BSON document
+            for k in ("trigger_data", "run_data"):
+                doc[k] = json.dumps(doc[k])
+            collection.insert_one(doc)
+
     def get_previous_runs(self, job):
         result = (
             self.db.runs.find({"job_name": job.name})
@@ -678,7 +695,8 @@ class MongoDBDatabase(BaseDatabase):
         return (previous_run, previous_good_run, previous_bad_run)
 
     def insert_running_run(self, run):
-        self.db.runs_running.insert_one(
+        self._insert(
+            self.db.runs_running,
             {
                 "job_name": run.job.name,
                 "run_id": run.id,
@@ -691,7 +709,8 @@ class MongoDBDatabase(BaseDatabase):
         )
 
     def insert_run(self, run):
-        self.db.runs.insert_one(
+        self._insert(
+            self.db.runs,
             {
                 "job_name": run.job.name,
                 "run_id": run.id,
-- 
2.43.0

