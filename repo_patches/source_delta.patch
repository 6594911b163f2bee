From 0c1d3ae32734c19da0ba694a836bc81806236dd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:53:15 +0000
Subject: [PATCH 01/45] fix: log the run id of runs ended by scheduler
 exceptions or failed setup

log_success got the run as the return value and the thread/process
fallbacks logged the failure without the run, thus these records had no
run_id.
---
 rocketry/core/task.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/rocketry/core/task.py b/rocketry/core/task.py
index a3bd0b3..b8a4e7c 100644
--- a/rocketry/core/task.py
+++ b/rocketry/core/task.py
@@ -603,7 +603,7 @@ class Task(RedBase, BaseModel):
             self.process_success(output)
         except (SchedulerRestart, SchedulerExit):
             # SchedulerRestart is considered as successful task
-            self.log_success(task_run)
+            self.log_success(task_run=task_run)
             status = "succeeded"
             self.process_success(None)
             exc_info = sys.exc_info()
@@ -683,7 +683,7 @@ class Task(RedBase, BaseModel):
             # Logging failed
             task_run.exception = exc
             try:
-                self.log_failure()
+                self.log_failure(task_run)
             except Exception:
                 pass
             # Note that we don't raise the error as there is nothing
@@ -697,7 +697,7 @@ class Task(RedBase, BaseModel):
         except Exception:
             # Task crashed before actually running the execute.
             try:
-                self.log_failure()
+                self.log_failure(task_run)
             except TaskLoggingError as exc:
                 task_run.exception = exc
 
@@ -776,7 +776,7 @@ class Task(RedBase, BaseModel):
             output = self._run_as_main(params=params, direct_params=direct_params, task_run=task_run, execution="process", hooks=exec_hooks)
         except Exception as exc:
             # Task crashed before running execute (silence=True)
-            self.log_failure()
+            self.log_failure(task_run)
 
             # There is nothing to raise it
             # to :(
-- 
2.43.0


From 4a17aa8503af9fb293a7675cf9abd0c42bd88aae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:53:15 +0000
Subject: [PATCH 02/45] fix: don't log a failure after success for scheduler
 exceptions in threads and processes

---
 rocketry/core/task.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/rocketry/core/task.py b/rocketry/core/task.py
index b8a4e7c..39cb9cd 100644
--- a/rocketry/core/task.py
+++ b/rocketry/core/task.py
@@ -694,6 +694,10 @@ class Task(RedBase, BaseModel):
 
         try:
             output = self._run_as_main(params=params, direct_params=direct_params, task_run=task_run, execution="thread")
+        except (SchedulerRestart, SchedulerExit):
+            # Already logged as success and cannot be
+            # relayed to the main thread
+            pass
         except Exception:
             # Task crashed before actually running the execute.
             try:
@@ -774,6 +778,10 @@ class Task(RedBase, BaseModel):
             # NOTE: The parameters are "materialized"
             # here in the actual process that runs the task
             output = self._run_as_main(params=params, direct_params=direct_params, task_run=task_run, execution="process", hooks=exec_hooks)
+        except (SchedulerRestart, SchedulerExit):
+            # Already logged as success and cannot be
+            # relayed to the main process
+            pass
         except Exception as exc:
             # Task crashed before running execute (silence=True)
             self.log_failure(task_run)
-- 
2.43.0


From bb2123ff9b5b218ce0fa5f52b337ef43db2b1adb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:53:15 +0000
Subject: [PATCH 03/45] fix: log failure of an async run that crashed before
 its execution

The status of the task stayed as 'run' if a hook or an argument raised.
---
 rocketry/core/task.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/rocketry/core/task.py b/rocketry/core/task.py
index 39cb9cd..cbd4742 100644
--- a/rocketry/core/task.py
+++ b/rocketry/core/task.py
@@ -583,14 +583,22 @@ class Task(RedBase, BaseModel):
         else:
             hooks = self.session.hooks.task_execute
         hooker = _Hooker(hooks)
-        hooker.prerun(task=self)
 
         status = None
         output = None
         exc_info = (None, None, None)
-        params = self.postfilter_params(params)
-        params = Parameters(params) | Parameters(direct_params)
-        params = params.materialize(task=self, session=self.session)
+        try:
+            hooker.prerun(task=self)
+            params = self.postfilter_params(params)
+            params = Parameters(params) | Parameters(direct_params)
+            params = params.materialize(task=self, session=self.session)
+        except Exception:
+            if execution != "async":
+                raise
+            # Nothing awaits an async run thus the failure
+            # would be left unnoticed
+            self.log_failure(task_run)
+            return None
 
         try:
             if inspect.iscoroutinefunction(self.execute):
-- 
2.43.0


From c4d31e73567eb6065fd15b26f22c528ec10f5c82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:56:36 +0000
Subject: [PATCH 04/45] fix: don't execute a main or async run whose run record
 could not be logged

The coroutine was scheduled before logging thus it was still executed
(and logged as success) after the run was already logged as failed.
---
 rocketry/core/task.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rocketry/core/task.py b/rocketry/core/task.py
index cbd4742..b5bdf11 100644
--- a/rocketry/core/task.py
+++ b/rocketry/core/task.py
@@ -486,6 +486,9 @@ class Task(RedBase, BaseModel):
 
             # Run the actual task
             if execution in ("main", "async"):
+                # NOTE: the run is logged before it's scheduled so that
+                # a run that could not be logged won't be executed
+                self.log_running(task_run)
                 async_task = asyncio.create_task(
                     self._run_as_async(
                         params=params,
@@ -497,7 +500,6 @@ class Task(RedBase, BaseModel):
                 if execution == "async":
                     task_run.task = async_task
                 self._run_stack.append(task_run)
-                self.log_running(task_run)
                 if execution == "main":
                     await async_task
                 if _IS_WINDOWS:
-- 
2.43.0


From 3c25548290841452101f413e23dc9477c371f4e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:25:05 +0000
Subject: [PATCH 05/45] fix: don't log a termination for a run that had already
 ended

---
 rocketry/core/task.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rocketry/core/task.py b/rocketry/core/task.py
index b5bdf11..918882e 100644
--- a/rocketry/core/task.py
+++ b/rocketry/core/task.py
@@ -1036,7 +1036,9 @@ class Task(RedBase, BaseModel):
     async def _terminate_all(self, reason=None):
         "Terminate the whole run stack"
         for run in self._run_stack:
-            await self._terminate_run(run, reason=reason)
+            if run.is_alive():
+                # A run that already ended has (or will have) its own end record
+                await self._terminate_run(run, reason=reason)
         self._clean_run_stack()
         self.force_termination = False
         #self._run_stack = [] # Does not work with threads
-- 
2.43.0


From b61c49979744eb94f07222596dcda490e786dd47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:36:10 +0000
Subject: [PATCH 06/45] fix: a forced exit doesn't force the exits of later
 sessions

---
 rocketry/core/schedule.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rocketry/core/schedule.py b/rocketry/core/schedule.py
index 3adb3fc..672e090 100644
--- a/rocketry/core/schedule.py
+++ b/rocketry/core/schedule.py
@@ -110,6 +110,7 @@ class Scheduler(RedBase):
         session."""
         # Unsetting some flags
         self._flag_shutdown.clear()
+        self._flag_force_exit.clear()
         self._flag_restart.clear()
         self._flag_enabled.set()
 
-- 
2.43.0


From 3bd83c2805fe023e5034d1a441859f9d5144c330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:38:11 +0000
Subject: [PATCH 07/45] fix: run the creation hooks of the task's own session

---
 rocketry/core/task.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/rocketry/core/task.py b/rocketry/core/task.py
index 918882e..fa6befa 100644
--- a/rocketry/core/task.py
+++ b/rocketry/core/task.py
@@ -304,12 +304,14 @@ class Task(RedBase, BaseModel):
 
     def __init__(self, **kwargs):
 
-        hooker = _Hooker(self.session.hooks.task_init)
-        hooker.prerun(task=self)
-
         if kwargs.get("session") is None:
             warnings.warn("Task's session not defined. Creating new.", UserWarning)
             kwargs['session'] = _create_session()
+
+        # NOTE: self.session is not yet set (it's the default session)
+        hooker = _Hooker(kwargs['session'].hooks.task_init)
+        hooker.prerun(task=self)
+
         kwargs['name'] = self._get_name(**kwargs)
 
         if "permanent_task" in kwargs:
-- 
2.43.0


From 7e05f7312f9f9fa5dc373ada56c3f350ce51ef51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:46:39 +0000
Subject: [PATCH 08/45] fix: comparing a condition doesn't change the compared
 condition

---
 rocketry/core/condition/base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rocketry/core/condition/base.py b/rocketry/core/condition/base.py
index 1c0cc50..c3950dd 100644
--- a/rocketry/core/condition/base.py
+++ b/rocketry/core/condition/base.py
@@ -337,7 +337,8 @@ class BaseComparable(BaseCondition):
 
     def _set_comparison(self, key, val):
         obj = copy(self)
-        obj._comps[key] = val
+        # NOTE: copy is shallow and the comparisons must not be shared
+        obj._comps = {**self._comps, key: val}
         return obj
 
     @classmethod
-- 
2.43.0


From adaf7c10cf8a1a613973f148165d579c6272ca95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:47:27 +0000
Subject: [PATCH 09/45] fix: ParamExists can be observed (used as a condition
 of a task)

---
 rocketry/conditions/parameter.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/rocketry/conditions/parameter.py b/rocketry/conditions/parameter.py
index 326bee2..a343c1b 100644
--- a/rocketry/conditions/parameter.py
+++ b/rocketry/conditions/parameter.py
@@ -83,7 +83,10 @@ class ParamExists(BaseCondition):
         self.param_values = kwargs
 
     def __bool__(self):
-        params = self.session.parameters
+        return self.get_state(session=self.session)
+
+    def get_state(self, session=Session()):
+        params = session.parameters
         for key in self.param_keys:
             if key not in params:
                 return False
-- 
2.43.0


From 85c7a51f499928334030f04d8de52b8cf09ba009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:48:17 +0000
Subject: [PATCH 10/45] fix: the period of a task whose start condition is
 about a task's success or finish

---
 rocketry/core/task.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/rocketry/core/task.py b/rocketry/core/task.py
index fa6befa..2988eca 100644
--- a/rocketry/core/task.py
+++ b/rocketry/core/task.py
@@ -1374,15 +1374,21 @@ class Task(RedBase, BaseModel):
         cond = self.start_cond
         session = self.session
 
+        def is_about_self(stmt):
+            if stmt.task is None:
+                return True
+            return stmt.task in session and session[stmt.task] is self
+
         if isinstance(cond, (TaskSucceeded, TaskFinished)):
-            if session[cond.kwargs["task"]] is self:
+            if is_about_self(cond):
                 return cond.period
 
         elif isinstance(cond, All):
             task_periods = []
             for sub_stmt in cond:
-                if isinstance(sub_stmt, (TaskFinished, TaskFinished)) and session[sub_stmt.kwargs["task"]] is self:
-                    task_periods.append(sub_stmt.period)
+                if isinstance(sub_stmt, (TaskFinished, TaskFinished)) and is_about_self(sub_stmt):
+                    if sub_stmt.period is not None:
+                        task_periods.append(sub_stmt.period)
             if task_periods:
                 return AllTime(*task_periods)
 
-- 
2.43.0


From 47059342130d9fd8f49c20e585ad745a09381fb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:48:53 +0000
Subject: [PATCH 11/45] fix: status conditions use the log reading setting of
 the observed session

---
 rocketry/conditions/task/task.py  | 2 +-
 rocketry/conditions/task/utils.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/rocketry/conditions/task/task.py b/rocketry/conditions/task/task.py
index 2e49de3..a6e2268 100644
--- a/rocketry/conditions/task/task.py
+++ b/rocketry/conditions/task/task.py
@@ -167,7 +167,7 @@ class TaskRunning(BaseComparable):
     def get_measurement(self, task=Task(default=None), session=Session()):
         task = session[self.task] if self.task is not None else task
 
-        allow_optimization = not self.session.config.force_status_from_logs
+        allow_optimization = not session.config.force_status_from_logs
         start, end = get_period_span(self.period, session=session)
         if allow_optimization:
             task = session[self.task] if self.task is not None else task
diff --git a/rocketry/conditions/task/utils.py b/rocketry/conditions/task/utils.py
index 637e424..9439526 100644
--- a/rocketry/conditions/task/utils.py
+++ b/rocketry/conditions/task/utils.py
@@ -63,7 +63,7 @@ class TaskStatusMixin(BaseComparable):
         task = session[self.task] if self.task is not None else task
         _start_, _end_ = get_period_span(self.period if self.period is not None else task.period, session=session)
 
-        allow_optimization = not self.session.config.force_status_from_logs
+        allow_optimization = not session.config.force_status_from_logs
 
         if allow_optimization:
 
-- 
2.43.0


From edd8a4f8d460d4ecc4b14454654123d50f6362d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:01:11 +0000
Subject: [PATCH 12/45] fix: conditions without a period in sessions with a
 timezone

---
 rocketry/core/time/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rocketry/core/time/utils.py b/rocketry/core/time/utils.py
index b27e6c4..5592a9b 100644
--- a/rocketry/core/time/utils.py
+++ b/rocketry/core/time/utils.py
@@ -11,7 +11,8 @@ def get_period_span(period:'TimePeriod', session=None) -> Tuple[datetime.datetim
     from rocketry.parse import parse_time
 
     if period is None:
-        return TimePeriod.min, TimePeriod.max
+        tz = session.config.timezone if session is not None else None
+        return TimePeriod.min.replace(tzinfo=tz), TimePeriod.max.replace(tzinfo=tz)
     if isinstance(period, str):
         period = parse_time(period)
 
-- 
2.43.0


From 9cdf515b705b460c4bc96e4c2eb83fc4e1272f72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:01:11 +0000
Subject: [PATCH 13/45] fix: static intervals and times with a timezone

---
 rocketry/core/time/base.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/rocketry/core/time/base.py b/rocketry/core/time/base.py
index de57461..a2f4a06 100644
--- a/rocketry/core/time/base.py
+++ b/rocketry/core/time/base.py
@@ -509,18 +509,21 @@ class StaticInterval(TimePeriod):
         start = to_datetime(self.start, timezone=tz)
         if start > dt:
             # The actual interval is in the future
-            return Interval(self.min, self.min)
+            dt_min = self.min.replace(tzinfo=tz)
+            return Interval(dt_min, dt_min)
         end = to_datetime(self.end, timezone=tz)
         end = min(end, dt)
         return Interval(start, end)
 
     def rollforward(self, dt):
         dt = to_datetime(dt)
-        end = to_datetime(self.end)
+        tz = dt.tzinfo
+        end = to_datetime(self.end, timezone=tz)
         if end < dt:
             # The actual interval is already gone
-            return Interval(self.max, self.max)
-        start = max(self.start, dt)
+            dt_max = self.max.replace(tzinfo=tz)
+            return Interval(dt_max, dt_max)
+        start = max(to_datetime(self.start, timezone=tz), dt)
         return Interval(start, end)
 
     @property
-- 
2.43.0


From 6d3d4ff23b9bebed5360e04a88d3ac489bcc4437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:12:20 +0000
Subject: [PATCH 14/45] fix: keep the return values of processes finishing
 while another is starting

---
 rocketry/core/task.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/rocketry/core/task.py b/rocketry/core/task.py
index 2988eca..d85dc85 100644
--- a/rocketry/core/task.py
+++ b/rocketry/core/task.py
@@ -1081,6 +1081,11 @@ class Task(RedBase, BaseModel):
 
                 #self.logger.debug(f"Inserting record for '{record.task_name}' ({record.action})")
                 task = self.session[record.task_name]
+                if record.action == "success":
+                    # Another task finished meanwhile, its record
+                    # carries the return value
+                    task._handle_return(record.__return__)
+                    del record.__return__
                 try:
                     task.log_record(record)
                 except Exception as exc:
-- 
2.43.0


From 622f0a15b066e93ce6a859881cbd668163ad6c5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:26:16 +0000
Subject: [PATCH 15/45] fix: raise the logging errors of threads also if the
 failure could be logged

---
 rocketry/core/task.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/rocketry/core/task.py b/rocketry/core/task.py
index d85dc85..62a6ce2 100644
--- a/rocketry/core/task.py
+++ b/rocketry/core/task.py
@@ -710,7 +710,10 @@ class Task(RedBase, BaseModel):
             # Already logged as success and cannot be
             # relayed to the main thread
             pass
-        except Exception:
+        except Exception as exc:
+            if isinstance(exc, TaskLoggingError):
+                # Logging the outcome failed (raised in the main thread)
+                task_run.exception = exc
             # Task crashed before actually running the execute.
             try:
                 self.log_failure(task_run)
-- 
2.43.0


From 737298c46de92e64ee52743033c6ad760ff9b24f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:28:08 +0000
Subject: [PATCH 16/45] fix: raise the errors in logging the outcome of an
 async run

---
 rocketry/core/task.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/rocketry/core/task.py b/rocketry/core/task.py
index 62a6ce2..2257c4b 100644
--- a/rocketry/core/task.py
+++ b/rocketry/core/task.py
@@ -491,8 +491,9 @@ class Task(RedBase, BaseModel):
                 # NOTE: the run is logged before it's scheduled so that
                 # a run that could not be logged won't be executed
                 self.log_running(task_run)
+                run_func = self._run_as_async_task if execution == "async" else self._run_as_async
                 async_task = asyncio.create_task(
-                    self._run_as_async(
+                    run_func(
                         params=params,
                         direct_params=direct_params,
                         task_run=task_run,
@@ -578,6 +579,14 @@ class Task(RedBase, BaseModel):
     def _run_as_main(self, **kwargs):
         return asyncio.run(self._run_as_async(**kwargs))
 
+    async def _run_as_async_task(self, task_run:TaskRun, **kwargs):
+        "Run the task in an asyncio task that nothing awaits for"
+        try:
+            return await self._run_as_async(task_run=task_run, **kwargs)
+        except TaskLoggingError as exc:
+            # Raised later by the scheduler
+            task_run.exception = exc
+
     async def _run_as_async(self, params:Parameters, direct_params:Parameters, task_run:TaskRun, execution=None, **kwargs):
         """Run the task on the current thread and process"""
         # NOTE: Assumed that self.log_running() has been already called.
-- 
2.43.0


From b7952f9d6c8b0c54eda0713c06bd8841dd4a3464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:40:01 +0000
Subject: [PATCH 17/45] fix: session parameters of tasks other than functions
 get the values for that task

---
 rocketry/core/utils/meta.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rocketry/core/utils/meta.py b/rocketry/core/utils/meta.py
index 30b5b2b..327a37c 100644
--- a/rocketry/core/utils/meta.py
+++ b/rocketry/core/utils/meta.py
@@ -7,7 +7,8 @@ def filter_keyword_args(_func, _params:dict=None, **kwargs):
     """Filter only keyword arguments that the
     function requires."""
     if _params:
-        kwargs.update(_params)
+        # NOTE: items so that arguments are not turned to values (of no task)
+        kwargs.update(_params.items())
     sig = inspect.signature(_func)
 
     kw_args = [
-- 
2.43.0


From c1e457cd15b160a6d8bd4920928e7101ee89818c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:40:01 +0000
Subject: [PATCH 18/45] fix: parameters named as the arguments of Parameters

---
 rocketry/core/parameters/parameters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rocketry/core/parameters/parameters.py b/rocketry/core/parameters/parameters.py
index dbb0ec0..43f3174 100644
--- a/rocketry/core/parameters/parameters.py
+++ b/rocketry/core/parameters/parameters.py
@@ -157,7 +157,7 @@ class Parameters(RedBase, Mapping): # Mapping so that mytask(**Parameters(...))
         right = other._params if isinstance(other, Parameters) else other
 
         params = {**left, **right}
-        return type(self)(**params)
+        return type(self)(params)
 
     def __eq__(self, other):
         "Whether parameters are equal"
-- 
2.43.0


From 415ed67fc7de8d513c7bba85ccf25223e452ad44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:44:17 +0000
Subject: [PATCH 19/45] fix: restore the tasks after session.run if a task was
 created meanwhile

---
 rocketry/session.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/rocketry/session.py b/rocketry/session.py
index 8c315d3..9c9b9b7 100644
--- a/rocketry/session.py
+++ b/rocketry/session.py
@@ -290,7 +290,7 @@ class Session(RedBase):
         orig_vals = {}
         for task in self.tasks:
             name = task.name
-            orig_vals[name] = {
+            orig_vals[task] = {
                 attr: val for attr, val in task.__dict__.items()
                 if attr not in ("status", "last_run", "last_success", "last_fail", "last_terminate")
             }
@@ -309,8 +309,9 @@ class Session(RedBase):
         finally:
             self.config.shut_cond = orig_shut_cond
             # Set back the disabled, execution etc.
-            for task in self.tasks:
-                task.__dict__.update(orig_vals[task.name])
+            # NOTE: there may be new tasks (created by the run)
+            for task, vals in orig_vals.items():
+                task.__dict__.update(vals)
 
     def restart(self):
         """Restart the scheduler
-- 
2.43.0


From c780a4660892748eeb247cd15b98ac059b52a58b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:48:18 +0000
Subject: [PATCH 20/45] fix: log the failure of a task that cannot be pickled
 once

---
 rocketry/core/task.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/rocketry/core/task.py b/rocketry/core/task.py
index 2257c4b..d33c4fa 100644
--- a/rocketry/core/task.py
+++ b/rocketry/core/task.py
@@ -1361,8 +1361,7 @@ class Task(RedBase, BaseModel):
                 #       - There is another func with same name in the file
                 #       - The function is lambda or decorated func
                 unpicklable = {key: val for key, val in state.items() if not is_pickleable(val)}
-                self.log_running()
-                self.logger.critical(f"Task '{self.name}' crashed in pickling. Cannot pickle: {unpicklable}", extra={"action": "fail", "task_name": self.name})
+                # NOTE: the run and its failure are logged in start_async
                 raise PicklingError(f"Task {self.name} could not be pickled. Cannot pickle: {unpicklable}")
             # Is pickled by something else than task execution
             return state
-- 
2.43.0


From a7e642030a22e859c1e097d84310c24358b38c9e Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 11:00:37 +0000
Subject: [PATCH 21/45] fix: intersections of periods with no common time left
 (or of always only)

---
 rocketry/core/time/base.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/rocketry/core/time/base.py b/rocketry/core/time/base.py
index a2f4a06..034bda8 100644
--- a/rocketry/core/time/base.py
+++ b/rocketry/core/time/base.py
@@ -292,8 +292,15 @@ class All(TimePeriod):
             else:
                 periods.append(arg)
 
+        if not periods:
+            # Consists of only always
+            periods = [always]
+
         object.__setattr__(self, "periods", frozenset(periods))
 
+    def __contains__(self, dt):
+        return all(dt in period for period in self.periods)
+
     def rollback(self, dt):
 
         # We solve this iteratively
@@ -306,6 +313,10 @@ class All(TimePeriod):
             period.rollback(dt)
             for period in self.periods
         ]
+        for interval in intervals:
+            if interval.is_empty:
+                # One of the periods has no time left
+                return interval
         all_overlaps = all(a.overlaps(b) for a, b in itertools.combinations(intervals, 2))
         if all_overlaps:
             return reduce(lambda a, b: a & b, intervals)
@@ -339,6 +350,10 @@ class All(TimePeriod):
             period.rollforward(dt)
             for period in self.periods
         ]
+        for interval in intervals:
+            if interval.is_empty:
+                # One of the periods has no time left
+                return interval
         all_overlaps = all(a.overlaps(b) for a, b in itertools.combinations(intervals, 2))
         if all_overlaps:
             return reduce(lambda a, b: a & b, intervals)
-- 
2.43.0


From 302a9f554d6801741004528c5a0212f2e0110a21 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 11:00:37 +0000
Subject: [PATCH 22/45] fix: the span of a union of periods doesn't depend on
 the order of the parts

---
 rocketry/core/time/base.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/rocketry/core/time/base.py b/rocketry/core/time/base.py
index 034bda8..0b9b446 100644
--- a/rocketry/core/time/base.py
+++ b/rocketry/core/time/base.py
@@ -414,11 +414,16 @@ class Any(TimePeriod):
 
         object.__setattr__(self, "periods", frozenset(periods))
 
+    def __contains__(self, dt):
+        return any(dt in period for period in self.periods)
+
     def rollback(self, dt):
         intervals = [
             period.rollback(dt)
             for period in self.periods
         ]
+        # Ignoring periods that have no time left (if others do)
+        intervals = [interv for interv in intervals if not interv.is_empty] or intervals
 
         # Example:
         # Current time           |
@@ -456,8 +461,6 @@ class Any(TimePeriod):
             extends = interv.left < curr_interval.left
             if extends and interv.overlaps(curr_interval):
                 curr_interval = interv
-            else:
-                break
 
         return Interval(
             curr_interval.left,
@@ -469,6 +472,8 @@ class Any(TimePeriod):
             period.rollforward(dt)
             for period in self.periods
         ]
+        # Ignoring periods that have no time left (if others do)
+        intervals = [interv for interv in intervals if not interv.is_empty] or intervals
 
         # We solve the problem iteratively
         # 1. Find the interval that starts closest to the dt
@@ -485,8 +490,6 @@ class Any(TimePeriod):
             extends = interv.right > curr_interval.right
             if extends and interv.overlaps(curr_interval):
                 curr_interval = interv
-            else:
-                break
 
         return Interval(
             start_interval.left,
-- 
2.43.0


From 96bba075792621f57e1af9e8a21fdbf5a13f3601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:02:44 +0000
Subject: [PATCH 23/45] fix: unlimited time span deltas with a timezone

---
 rocketry/time/delta.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/rocketry/time/delta.py b/rocketry/time/delta.py
index 12ce7b5..3bffabc 100644
--- a/rocketry/time/delta.py
+++ b/rocketry/time/delta.py
@@ -27,23 +27,23 @@ class TimeSpanDelta(TimeDelta):
         "Check whether the dt is period"
         reference = self.get_reference()
         if reference >= dt:
-            start = reference - self.far if self.far is not None else self.min
+            start = reference - self.far if self.far is not None else self.min.replace(tzinfo=reference.tzinfo)
             end = reference - self.near
         else:
             start = reference + self.near
-            end = reference + self.far if self.far is not None else self.max
+            end = reference + self.far if self.far is not None else self.max.replace(tzinfo=reference.tzinfo)
         return start <= dt <= end
 
     def rollback(self, dt):
         "Get previous interval (including currently ongoing)"
-        start = dt - self.far if self.far is not None else self.min
+        start = dt - self.far if self.far is not None else self.min.replace(tzinfo=dt.tzinfo)
         end = dt - self.near
         return Interval(start, end)
 
     def rollforward(self, dt):
         "Get next interval (including currently ongoing)"
         start = dt + self.near
-        end = dt + self.far if self.far is not None else self.max
+        end = dt + self.far if self.far is not None else self.max.replace(tzinfo=dt.tzinfo)
         return Interval(start, end)
 
     def __eq__(self, other):
-- 
2.43.0


From 1cec9a858205b3209553264fbedb3851714c8657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:05:25 +0000
Subject: [PATCH 24/45] fix: step ranges and lists with any value in cron
 expressions

---
 rocketry/time/cron.py | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/rocketry/time/cron.py b/rocketry/time/cron.py
index bc51434..8f19e20 100644
--- a/rocketry/time/cron.py
+++ b/rocketry/time/cron.py
@@ -1,7 +1,7 @@
 from typing import Callable
 from dataclasses import dataclass
 
-from rocketry.core.time.base import TimePeriod, always
+from rocketry.core.time.base import Any, TimePeriod, always
 
 from .interval import TimeOfHour, TimeOfDay, TimeOfMinute, TimeOfWeek, TimeOfMonth, TimeOfYear
 
@@ -42,7 +42,7 @@ class Cron(TimePeriod):
         for expr in exprs:
             if expr == "*":
                 # Any
-                continue
+                return default
             if "/" in expr:
                 expr, step = expr.split("/")
                 step_period = cls.create_range(step=int(step))
@@ -52,21 +52,22 @@ class Cron(TimePeriod):
             if "-" in expr:
                 # From to
                 start, end = expr.split("-")
-                if start.isdigit():
-                    start = conv(int(start))
-                if end.isdigit():
-                    end = conv(int(end))
 
                 if step is not None:
                     # Unlike in traditional Python ranges,
-                    # cron includes also the endpoint thus
-                    # we convert to int (if needed) and add
-                    # one
-                    if isinstance(end, str):
-                        end = cls._unit_mapping[end.lower()]
-                    end += 1
-                    period = cls.create_range(start, end, step=int(step))
+                    # cron includes also the endpoint. The
+                    # units that have names start from one
+                    # (ie. Monday and January are 1)
+                    start, end = (
+                        int(value) if value.isdigit() else cls._unit_mapping[value.lower()] + 1
+                        for value in (start, end)
+                    )
+                    period = Any(*(cls.at(conv(i)) for i in range(start, end + 1, int(step))))
                 else:
+                    if start.isdigit():
+                        start = conv(int(start))
+                    if end.isdigit():
+                        end = conv(int(end))
                     period = cls(start, end)
             else:
                 # At
-- 
2.43.0


From 78a30b5f688a9d8b45aab7e4644275082077359d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:05:25 +0000
Subject: [PATCH 25/45] fix: times that match no occurrence of a cron
 expression

---
 rocketry/time/cron.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rocketry/time/cron.py b/rocketry/time/cron.py
index 8f19e20..6d0eb50 100644
--- a/rocketry/time/cron.py
+++ b/rocketry/time/cron.py
@@ -26,6 +26,9 @@ class Cron(TimePeriod):
         # -: range of values
         # /: step values
 
+    def __contains__(self, dt):
+        return dt in self.get_subperiod()
+
     def rollforward(self, dt):
         "Get previous time interval of the period."
         return self.get_subperiod().rollforward(dt)
-- 
2.43.0


From 66991dcacbb37f066d1a86e4117a1508f3aaf2d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:19:59 +0000
Subject: [PATCH 26/45] fix: cycles starting at a given day in text conditions
 span the whole cycle

---
 rocketry/time/construct.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rocketry/time/construct.py b/rocketry/time/construct.py
index 9685ce4..564caf0 100644
--- a/rocketry/time/construct.py
+++ b/rocketry/time/construct.py
@@ -50,4 +50,6 @@ def get_on(type_, start):
 def get_full_cycle(type_, start=None):
     type_ = type_.lower()
     cls = TIME_CLASSES[type_]
-    return cls(start, start)
+    if start is None:
+        return cls()
+    return cls.starting(start)
-- 
2.43.0


From 34d60471068dc1ab605dedbfc57e08aba212d044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:19:59 +0000
Subject: [PATCH 27/45] fix: text condition on the existence of a parameter
 with a long name

---
 rocketry/conditions/parameter.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rocketry/conditions/parameter.py b/rocketry/conditions/parameter.py
index a343c1b..3af1ddc 100644
--- a/rocketry/conditions/parameter.py
+++ b/rocketry/conditions/parameter.py
@@ -99,7 +99,9 @@ class ParamExists(BaseCondition):
         return True
 
     @classmethod
-    def _from_list(cls, l:Union[tuple, list]):
+    def _from_list(cls, l:Union[str, tuple, list]):
+        if isinstance(l, str):
+            return cls(l)
         return cls(*l)
 
     @classmethod
-- 
2.43.0


From c82cec207a41ae1d607d721393de9dc8c823e4a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:19:59 +0000
Subject: [PATCH 28/45] fix: constant periods (always, never) as text
 conditions

---
 rocketry/parse/_setup_cond_parsers.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/rocketry/parse/_setup_cond_parsers.py b/rocketry/parse/_setup_cond_parsers.py
index 856e21d..25ccbda 100644
--- a/rocketry/parse/_setup_cond_parsers.py
+++ b/rocketry/parse/_setup_cond_parsers.py
@@ -11,6 +11,7 @@ from rocketry.time import TimeDelta
 
 from rocketry.session import Session
 from rocketry.core.condition import Not
+from rocketry.core.time import TimePeriod
 
 from rocketry.conds import (
     secondly, minutely, hourly, daily, weekly, monthly, every,
@@ -43,7 +44,11 @@ def _from_period_task_has(cls, span_type=None, inverse=False, **kwargs):
 def _set_is_period_parsing():
 
     def _get_is_period(period_constructor, *args, **kwargs):
-        period = period_constructor(*args, **kwargs)
+        if isinstance(period_constructor, TimePeriod):
+            # Constant period, ie. "always"
+            period = period_constructor
+        else:
+            period = period_constructor(*args, **kwargs)
         return IsPeriod(period=period)
 
     cond_parsers = Session._cls_cond_parsers
-- 
2.43.0


From ea5aa3aad33a685b5757faadad96edbf44616e4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:23:07 +0000
Subject: [PATCH 29/45] fix: running a command task with parameters doesn't
 change its command

---
 rocketry/tasks/command.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rocketry/tasks/command.py b/rocketry/tasks/command.py
index d58a45c..1a0cf92 100644
--- a/rocketry/tasks/command.py
+++ b/rocketry/tasks/command.py
@@ -79,7 +79,8 @@ class CommandTask(Task):
             if isinstance(command, str):
                 command += f" {param} \"{val}\""
             else:
-                command += [param] + [val]
+                # New list: the command of the task must not change
+                command = command + [param] + [val]
 
         # https://stackoverflow.com/a/5469427/13696660
         pipe = subprocess.Popen(command, **self.get_kwargs_popen())
-- 
2.43.0


From df344a7e4d890586c45b839ce91ee7aaf719187a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:23:07 +0000
Subject: [PATCH 30/45] fix: parameters of command tasks without argform

---
 rocketry/tasks/command.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rocketry/tasks/command.py b/rocketry/tasks/command.py
index 1a0cf92..9c3accc 100644
--- a/rocketry/tasks/command.py
+++ b/rocketry/tasks/command.py
@@ -58,7 +58,7 @@ class CommandTask(Task):
         kwargs.update(self.kwds_popen)
         return kwargs
 
-    @validator('argform')
+    @validator('argform', always=True)
     def parse_argform(cls, value):
         return {
             "long": "--",
-- 
2.43.0


From ff230a369ff4a06f3bf23f77f89a897d03413811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:23:53 +0000
Subject: [PATCH 31/45] fix: command tasks with a timeout

---
 rocketry/tasks/command.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/rocketry/tasks/command.py b/rocketry/tasks/command.py
index 9c3accc..1b293a1 100644
--- a/rocketry/tasks/command.py
+++ b/rocketry/tasks/command.py
@@ -1,4 +1,5 @@
 
+import datetime
 import subprocess
 from typing import List, Optional, Union
 
@@ -83,9 +84,11 @@ class CommandTask(Task):
                 command = command + [param] + [val]
 
         # https://stackoverflow.com/a/5469427/13696660
+        no_timeout = self.timeout is None or self.timeout == datetime.timedelta.max
+        timeout = None if no_timeout else self.timeout.total_seconds()
         pipe = subprocess.Popen(command, **self.get_kwargs_popen())
         try:
-            outs, errs = pipe.communicate(timeout=self.timeout)
+            outs, errs = pipe.communicate(timeout=timeout)
         except subprocess.TimeoutExpired:
             # https://docs.python.org/3.3/library/subprocess.html#subprocess.Popen.communicate
             pipe.kill()
-- 
2.43.0


From e647d22ad4d1741c8b7ff473428cb2bbb75331a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:32:37 +0000
Subject: [PATCH 32/45] fix: outcome records of overlapping runs have the start
 of their own run

---
 rocketry/core/task.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rocketry/core/task.py b/rocketry/core/task.py
index d33c4fa..a7714f8 100644
--- a/rocketry/core/task.py
+++ b/rocketry/core/task.py
@@ -1200,7 +1200,8 @@ class Task(RedBase, BaseModel):
             }
             # self._last_run = now
         else:
-            start_time = self._get_last_action("run")
+            # The task may have started again since (multilaunch): using the start of this run
+            start_time = task_run.start if task_run is not None else self._get_last_action("run")
             runtime = time_now - start_time if start_time is not None else None
             extra = {"action": action, "start": start_time, "end": time_now, "runtime": runtime}
 
-- 
2.43.0


From fcc074c3aa7f942b811f6ef3ca6c09c2ba86061f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:41:03 +0000
Subject: [PATCH 33/45] fix: creation times of records are of the session
 started last, not of the first with time_func

The task logger was wrapped only once: records of sessions started later (also ones without time_func) were stamped with the clock of the first session.
---
 rocketry/session.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/rocketry/session.py b/rocketry/session.py
index 9c9b9b7..b622ad9 100644
--- a/rocketry/session.py
+++ b/rocketry/session.py
@@ -372,12 +372,17 @@ class Session(RedBase):
         from rocketry.core.log import TaskAdapter
         if logger is None:
             logger = logging.getLogger(self.config.task_logger_basename)
+        # NOTE: the logger may have been wrapped for another session
         attr = '__rocketry_wrapped__'
-        is_wrapped = getattr(logger, attr, False)
-        wrap_logger = self.config.time_func is not None and not is_wrapped
-        if wrap_logger:
-            logger.makeRecord = TaskAdapter._modify_record(logger.makeRecord, session=self)
-            setattr(logger, attr, True)
+        make_record = getattr(logger, attr, None)
+        if make_record is None and self.config.time_func is not None:
+            make_record = logger.makeRecord
+            setattr(logger, attr, make_record)
+        if make_record is not None:
+            logger.makeRecord = (
+                make_record if self.config.time_func is None
+                else TaskAdapter._modify_record(make_record, session=self)
+            )
 
     def get_tasks(self) -> list:
         """Get session tasks as list.
-- 
2.43.0


From 4b537296d2bd7726bc779ad88f6c5ba8308ca622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:41:19 +0000
Subject: [PATCH 34/45] fix: Session.get_current_time is a reading of the clock
 of the session

---
 rocketry/session.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rocketry/session.py b/rocketry/session.py
index b622ad9..227f11b 100644
--- a/rocketry/session.py
+++ b/rocketry/session.py
@@ -609,7 +609,7 @@ class Session(RedBase):
         This method is used internally thoroughout
         the package.
         """
-        return self._format_timestamp(time.time())
+        return self._get_datetime_now()
 
     def get_time(self) -> float:
         if self.config.time_func is not None:
-- 
2.43.0


From 4a3a71b8fe6d96ead45215848ad0807c6aab6246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:14 +0000
Subject: [PATCH 35/45] fix: periods of month and year roll by the calendar
 also with short months and years

---
 rocketry/time/interval.py | 66 ++++++++++++++++++++++++++++++++-------
 1 file changed, 54 insertions(+), 12 deletions(-)

diff --git a/rocketry/time/interval.py b/rocketry/time/interval.py
index ab8bb66..5f08631 100644
--- a/rocketry/time/interval.py
+++ b/rocketry/time/interval.py
@@ -1,5 +1,6 @@
 import calendar
 import datetime
+import itertools
 import re
 from dataclasses import dataclass
 from typing import ClassVar, List
@@ -8,7 +9,7 @@ import dateutil
 
 from rocketry.core.time.anchor import AnchoredInterval
 from rocketry.core.time.base import TimeInterval
-from rocketry.pybox.time import datetime_to_dict, to_microseconds
+from rocketry.pybox.time import datetime_to_dict, to_microseconds, to_timedelta
 from rocketry.pybox.time.interval import Interval
 
 @dataclass(frozen=True, init=False)
@@ -216,8 +217,49 @@ class TimeOfWeek(AnchoredInterval):
         return to_microseconds(**d) + dayofweek * to_microseconds(day=1)
 
 
+class CalendarMixin:
+    """Mixin for intervals anchored to cycles that
+    are not equally long (months and years)"""
+
+    def get_timepoint(self, dt, n, ms):
+        "Get the time at ms in the nth cycle from the cycle of dt"
+        raise NotImplementedError
+
+    def iter_occurrences(self, dt, step):
+        "Get starts and ends of the period around dt, onwards (step=1) or backwards (step=-1)"
+        # The end is on the next cycle if over the turn of the cycle
+        n_over = int(self._start >= self._end)
+        for n in itertools.count(-2 * step, step):
+            start = self.get_timepoint(dt, n, self._start)
+            end = self.get_timepoint(dt, n + n_over, self._end)
+            if start < end:
+                # The cycle is long enough to have the period
+                yield start, end
+
+    def next_start(self, dt):
+        "Get next start point of the period"
+        return next(start for start, _ in self.iter_occurrences(dt, 1) if start > dt)
+
+    def next_end(self, dt):
+        "Get next end point of the period"
+        return next(end for _, end in self.iter_occurrences(dt, 1) if end > dt)
+
+    def prev_start(self, dt):
+        "Get previous start point of the period"
+        return next(start for start, _ in self.iter_occurrences(dt, -1) if start <= dt)
+
+    def prev_end(self, dt):
+        "Get previous end point of the period"
+        return next(end for _, end in self.iter_occurrences(dt, -1) if end <= dt)
+
+    def _get_timepoint_of_month(self, dt, year, month, ms):
+        "Get the time at ms in the month (or the end of the month if it is shorter)"
+        month_start = dt.replace(year=year, month=month, day=1, hour=0, minute=0, second=0, microsecond=0)
+        n_days = calendar.monthrange(year, month)[1]
+        return month_start + min(to_timedelta(ms, unit="microsecond"), datetime.timedelta(days=n_days))
+
 @dataclass(frozen=True, init=False)
-class TimeOfMonth(AnchoredInterval):
+class TimeOfMonth(CalendarMixin, AnchoredInterval):
     """Time interval anchored to day cycle of a clock
 
     min: first day of month, 0 hours, 0 minutes, 0 seconds, 0 microsecond
@@ -286,18 +328,12 @@ class TimeOfMonth(AnchoredInterval):
 
         return to_microseconds(**d)
 
-    def get_scope_forward(self, dt):
-        n_days = calendar.monthrange(dt.year, dt.month)[1]
-        return to_microseconds(day=1) * n_days
-
-    def get_scope_back(self, dt):
-        month = 12 if dt.month == 1 else dt.month - 1
-        year = dt.year - 1 if dt.month == 1 else dt.year
-        n_days = calendar.monthrange(year, month)[1]
-        return to_microseconds(day=1) * n_days
+    def get_timepoint(self, dt, n, ms):
+        n_months = dt.year * 12 + dt.month - 1 + n
+        return self._get_timepoint_of_month(dt, n_months // 12, n_months % 12 + 1, ms)
 
 @dataclass(frozen=True, init=False)
-class TimeOfYear(AnchoredInterval):
+class TimeOfYear(CalendarMixin, AnchoredInterval):
     """Time interval anchored to day cycle of a clock
 
     min: 1st Jan, 0 hours, 0 minutes, 0 seconds, 0 microsecond
@@ -401,6 +437,12 @@ class TimeOfYear(AnchoredInterval):
             d["day"] = d["day"] - 1
         return self._month_start_mapping[nth_month] + to_microseconds(**d)
 
+    def get_timepoint(self, dt, n, ms):
+        # NOTE: ms is from the start of a leap year
+        nth_month = max(i for i in range(12) if self._month_start_mapping[i] <= ms)
+        ms_month = ms - self._month_start_mapping[nth_month]
+        return self._get_timepoint_of_month(dt, dt.year + n, nth_month + 1, ms_month)
+
 
 @dataclass(frozen=True, init=False)
 class RelativeDay(TimeInterval):
-- 
2.43.0


From 07856ebb4a2765ada917dfab0c552a05c9b97f59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:30:22 +0000
Subject: [PATCH 36/45] fix: sys_paths of function tasks are importable (Path
 objects in sys.path are ignored)

---
 rocketry/tasks/func.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rocketry/tasks/func.py b/rocketry/tasks/func.py
index 101912f..86e4bf2 100644
--- a/rocketry/tasks/func.py
+++ b/rocketry/tasks/func.py
@@ -237,7 +237,7 @@ class FuncTask(Task):
             root = str(Path(self.path).parent.absolute()) if not pkg_path else str(pkg_path)
 
             # _task_func is cached to faster performance
-            with TempSysPath([root] + self.sys_paths):
+            with TempSysPath([root] + [str(path) for path in self.sys_paths]):
                 task_module = get_module(self.path, pkg_path=pkg_path)
             task_func = getattr(task_module, self.func_name)
 
-- 
2.43.0


From a35746e06c8de78716f54448d72c0653e90c5489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:30:22 +0000
Subject: [PATCH 37/45] fix: importing the function of a task leaves the order
 of sys.path as it was

---
 rocketry/tasks/func.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/rocketry/tasks/func.py b/rocketry/tasks/func.py
index 86e4bf2..ee76886 100644
--- a/rocketry/tasks/func.py
+++ b/rocketry/tasks/func.py
@@ -33,7 +33,6 @@ def get_module(path, pkg_path=None):
 
 class TempSysPath:
     # TODO: To utils.
-    sys_path = sys.path
     def __init__(self, paths:list):
         self.paths = paths
 
@@ -43,10 +42,11 @@ class TempSysPath:
 
     def __exit__(self, exc_type, exc_val, exc_tb):
         for path in self.paths:
-            try:
-                self.sys_path.remove(path)
-            except ValueError:
-                pass
+            # Remove what was appended (the path may have been there already before)
+            for i in reversed(range(len(sys.path))):
+                if sys.path[i] == path:
+                    del sys.path[i]
+                    break
 
 class FuncTask(Task):
     """Task that executes a function or callable.
-- 
2.43.0


From fbd88249cc33a168ce4fa45430e481eb041133a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:30:22 +0000
Subject: [PATCH 38/45] fix: function of a file is looked up again also after a
 run that failed before executing it

---
 rocketry/core/task.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rocketry/core/task.py b/rocketry/core/task.py
index a7714f8..587e67e 100644
--- a/rocketry/core/task.py
+++ b/rocketry/core/task.py
@@ -606,6 +606,7 @@ class Task(RedBase, BaseModel):
             params = Parameters(params) | Parameters(direct_params)
             params = params.materialize(task=self, session=self.session)
         except Exception:
+            self.process_finish(status="failed")
             if execution != "async":
                 raise
             # Nothing awaits an async run thus the failure
-- 
2.43.0


From 1e48b32b2ad2a5f1d136a87944321681572ae0be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:14:29 +0000
Subject: [PATCH 39/45] fix: a run failing in setup while an earlier run is
 alive is logged with its run record

---
 rocketry/core/task.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/rocketry/core/task.py b/rocketry/core/task.py
index 587e67e..76c6c71 100644
--- a/rocketry/core/task.py
+++ b/rocketry/core/task.py
@@ -479,6 +479,7 @@ class Task(RedBase, BaseModel):
         #   - Then params and direct_params are fed to the execute method
         execution = self.get_execution()
         task_run = TaskRun(start=self.session.get_time(), task=None)
+        is_run_logged = False
         try:
             self.force_run = False
             params = self.get_extra_params(params, execution=execution)
@@ -491,6 +492,7 @@ class Task(RedBase, BaseModel):
                 # NOTE: the run is logged before it's scheduled so that
                 # a run that could not be logged won't be executed
                 self.log_running(task_run)
+                is_run_logged = True
                 run_func = self._run_as_async_task if execution == "async" else self._run_as_async
                 async_task = asyncio.create_task(
                     run_func(
@@ -536,7 +538,9 @@ class Task(RedBase, BaseModel):
             # and it did not reach to log_running
             if task_run.run_id is None:
                 task_run.run_id = self.get_run_id(task_run)
-            if self.status != "run":
+            if not is_run_logged:
+                # NOTE: the status cannot tell as it may be
+                # of an earlier run still alive (multilaunch)
                 self.log_running(task_run)
             self.log_failure(task_run)
             raise TaskSetupError("Task failed before logging") from exc
-- 
2.43.0


From 2dcffaf5ed64b1ac6fbb97199585f1d8d919dd75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:14:29 +0000
Subject: [PATCH 40/45] fix: a task process that dies in setup leaves one
 failure in the log

---
 rocketry/core/task.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rocketry/core/task.py b/rocketry/core/task.py
index 76c6c71..76f9a0b 100644
--- a/rocketry/core/task.py
+++ b/rocketry/core/task.py
@@ -1092,7 +1092,7 @@ class Task(RedBase, BaseModel):
             except Empty:
                 if not self.is_alive():
                     # There will be no "run" log record thus ending the task gracefully
-                    self.logger.critical(f"Task '{self.name}' crashed in setup", extra={"action": "fail"})
+                    # (the run and its failure are logged in start_async)
                     raise TaskSetupError(f"Task '{self.name}' process crashed silently")
             else:
 
-- 
2.43.0


From 976ca3150dc4b3a44e06d4bf8d7843177632e6f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:15:49 +0000
Subject: [PATCH 41/45] fix: starting a process that dies in setup does not
 wait for earlier runs of the task

---
 rocketry/core/task.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rocketry/core/task.py b/rocketry/core/task.py
index 76f9a0b..803cb9b 100644
--- a/rocketry/core/task.py
+++ b/rocketry/core/task.py
@@ -768,7 +768,7 @@ class Task(RedBase, BaseModel):
         process.start()
         self._mark_running = False
 
-        self._lock_to_run_log(log_queue)
+        self._lock_to_run_log(log_queue, task_run)
         return log_queue
 
     def _run_as_process(self, params:Parameters, direct_params:Parameters, task_run, queue, config, exec_hooks):
@@ -1075,7 +1075,7 @@ class Task(RedBase, BaseModel):
                 self.log_termination(reason=reason, task_run=run)
 
 # Logging
-    def _lock_to_run_log(self, log_queue):
+    def _lock_to_run_log(self, log_queue, task_run:TaskRun):
         "Handle next run log to make sure the task started running before continuing (otherwise may cause accidential multiple launches)"
         action = None
         timeout = 10 # Seconds allowed the setup to take before declaring setup to crash
@@ -1090,7 +1090,7 @@ class Task(RedBase, BaseModel):
             try:
                 record = log_queue.get(block=True, timeout=timeout)
             except Empty:
-                if not self.is_alive():
+                if not task_run.is_alive():
                     # There will be no "run" log record thus ending the task gracefully
                     # (the run and its failure are logged in start_async)
                     raise TaskSetupError(f"Task '{self.name}' process crashed silently")
-- 
2.43.0


From dfb57dc366f7160a550f41946eafd088bac8809b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:29:41 +0000
Subject: [PATCH 42/45] fix: union of periods rolled back to the start of an
 occurrence is not empty

---
 rocketry/core/time/base.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rocketry/core/time/base.py b/rocketry/core/time/base.py
index 0b9b446..55c6dcd 100644
--- a/rocketry/core/time/base.py
+++ b/rocketry/core/time/base.py
@@ -464,7 +464,9 @@ class Any(TimePeriod):
 
         return Interval(
             curr_interval.left,
-            end_interval.right
+            end_interval.right,
+            # An occurrence that starts at the given time is a single point
+            closed="both" if end_interval.closed in ("right", "both") else "left"
         )
 
     def rollforward(self, dt):
-- 
2.43.0


From 82fb7712c6ea606771c7b35891b3609e9b5fd027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:18:54 +0000
Subject: [PATCH 43/45] fix: termination flag of tasks executed as the session
 says is a flag

---
 rocketry/args/builtin.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rocketry/args/builtin.py b/rocketry/args/builtin.py
index 90b53b2..cdc21ed 100644
--- a/rocketry/args/builtin.py
+++ b/rocketry/args/builtin.py
@@ -262,8 +262,8 @@ class FuncArg(BaseArgument):
 class TerminationFlag(BaseArgument):
 
     def get_value(self, task=None, session=None, terminate_event=None, **kwargs) -> Any:
-        execution = task.execution
-        if execution in ("process", "main"):
+        execution = task.get_execution()
+        if execution != "thread":
             warnings.warn(f"Termination flag passed to non-threaded task. Task with 'execution_type={execution}' cannot use termination flag.")
             return threading.Event()
         return terminate_event
-- 
2.43.0


From dbf07c426960eb7213eb6ae672edd59901d24820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:18:54 +0000
Subject: [PATCH 44/45] fix: restarting as a fresh process passes the arguments
 to Python, not to the shell

---
 rocketry/core/schedule.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/rocketry/core/schedule.py b/rocketry/core/schedule.py
index 672e090..5becba0 100644
--- a/rocketry/core/schedule.py
+++ b/rocketry/core/schedule.py
@@ -460,8 +460,9 @@ class Scheduler(RedBase):
             if platform.system() == "Windows":
                 subprocess.Popen([python, *sys.argv], shell=False, close_fds=True, creationflags=subprocess.CREATE_NEW_CONSOLE)
             else:
-                # Linux does not have CREATE_NEW_CONSOLE creation flag but shell=True is pretty close
-                subprocess.Popen([python, *sys.argv], shell=True, close_fds=True)
+                # Linux does not have CREATE_NEW_CONSOLE creation flag but a new session is pretty close
+                # (NOTE: with shell=True the arguments would be passed to the shell and not to Python)
+                subprocess.Popen([python, *sys.argv], shell=False, close_fds=True, start_new_session=True)
         elif restarting == "recall":
             # Mostly useful for testing.
             # Restart by calling the self.__call__ again
-- 
2.43.0


From e796678c70ce22446c3c2dea8336a5eb626b4306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:55:37 +0000
Subject: [PATCH 45/45] fix: hooks of a run that failed in set-up are finished

---
 rocketry/core/task.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/rocketry/core/task.py b/rocketry/core/task.py
index 803cb9b..20168e9 100644
--- a/rocketry/core/task.py
+++ b/rocketry/core/task.py
@@ -610,13 +610,18 @@ class Task(RedBase, BaseModel):
             params = Parameters(params) | Parameters(direct_params)
             params = params.materialize(task=self, session=self.session)
         except Exception:
-            self.process_finish(status="failed")
-            if execution != "async":
-                raise
-            # Nothing awaits an async run thus the failure
-            # would be left unnoticed
-            self.log_failure(task_run)
-            return None
+            exc_info = sys.exc_info()
+            try:
+                self.process_finish(status="failed")
+                if execution != "async":
+                    raise
+                # Nothing awaits an async run thus the failure
+                # would be left unnoticed
+                self.log_failure(task_run)
+                return None
+            finally:
+                # The hooks that began must be finished
+                hooker.postrun(*exc_info)
 
         try:
             if inspect.iscoroutinefunction(self.execute):
-- 
2.43.0

