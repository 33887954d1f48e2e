From ecf589f6d4e681e0b3bf544cf699cfc1419929f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:21 +0000
Subject: [PATCH 01/63] fix: release scheduler and file locks when the
 protected block raises

---
 asyncz/file_locking.py | 6 ++++--
 asyncz/locks.py        | 8 +++++---
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/asyncz/file_locking.py b/asyncz/file_locking.py
index c5705f0..c2724e7 100644
--- a/asyncz/file_locking.py
+++ b/asyncz/file_locking.py
@@ -123,5 +123,7 @@ else:
 @contextmanager
 def with_lock(f: IO, flags: int) -> Generator[IO, None, None]:
     lock(f, flags)
-    yield f
-    unlock(f)
+    try:
+        yield f
+    finally:
+        unlock(f)
diff --git a/asyncz/locks.py b/asyncz/locks.py
index d9412a0..ad0e088 100644
--- a/asyncz/locks.py
+++ b/asyncz/locks.py
@@ -36,9 +36,11 @@ class LockProtected(LockProtectedProtocol):
         self, blocking: bool = False, timeout: Optional[int] = None
     ) -> Generator[bool, None, None]:
         locked = self.lock.acquire(blocking, -1 if timeout is None else timeout)
-        yield locked
-        if locked:
-            self.lock.release()
+        try:
+            yield locked
+        finally:
+            if locked:
+                self.lock.release()
 
 
 class RLockProtected(LockProtected):
-- 
2.43.0


From 18bef34c9f9e91e893bc717cef7dbf2015abea5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:21 +0000
Subject: [PATCH 02/63] fix: interval triggers restored from a store can
 compute their next run time again

---
 asyncz/triggers/interval.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/asyncz/triggers/interval.py b/asyncz/triggers/interval.py
index 6573031..5e121fd 100644
--- a/asyncz/triggers/interval.py
+++ b/asyncz/triggers/interval.py
@@ -83,7 +83,9 @@ class IntervalTrigger(BaseTrigger):
             next_trigger_time = start_at
         else:
             time_difference_seconds = timedelta_seconds(now - start_at)
-            next_interval_number = int(ceil(time_difference_seconds / self.interval_size))
+            # derived from interval, a restored (unpickled) trigger has no interval_size
+            interval_size = timedelta_seconds(self.interval)
+            next_interval_number = int(ceil(time_difference_seconds / interval_size))
             next_trigger_time = start_at + self.interval * next_interval_number
 
         if self.jitter is not None:
-- 
2.43.0


From 0b01a9d613b099076c639ec2b64634e0a8f70b6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:21 +0000
Subject: [PATCH 03/63] fix: restore pickled triggers without a dedicated state
 class (shutdown trigger)

---
 asyncz/state.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/asyncz/state.py b/asyncz/state.py
index ae4b0ba..6437054 100644
--- a/asyncz/state.py
+++ b/asyncz/state.py
@@ -14,6 +14,10 @@ class BaseState(BaseModel):
         """
         Retrieves the data pickled and sets the state for Pydantic compatible fashion.
         """
+        if isinstance(state, dict):
+            # default pydantic state, there is no dedicated state class
+            super().__setstate__(state)
+            return self
         state.model_config.update(self.model_config)
         object_setattr(self, "__dict__", state.__dict__)
         object_setattr(self, "__pydantic_fields_set__", state.__pydantic_fields_set__)
-- 
2.43.0


From 67797141c3da022236a063bec0d8d294405dd2c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:21 +0000
Subject: [PATCH 04/63] fix: tasks with a fractional mistrigger_grace_time can
 be persisted

---
 asyncz/datastructures.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asyncz/datastructures.py b/asyncz/datastructures.py
index afcac42..4de6e22 100644
--- a/asyncz/datastructures.py
+++ b/asyncz/datastructures.py
@@ -67,7 +67,7 @@ class TaskState(BaseDatastructureState):  # type: ignore
     coalesce: Optional[bool] = None
     trigger: Optional[TriggerType] = None
     executor: Optional[str] = None
-    mistrigger_grace_time: Optional[int] = None
+    mistrigger_grace_time: Optional[Union[int, float]] = None
     max_instances: Optional[int] = None
     next_run_time: Optional[datetime] = None
     scheduler: Optional[Any] = None
-- 
2.43.0


From 5c0cf86fd88bdd74ec97fd2879bf02101778cb55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:23 +0000
Subject: [PATCH 05/63] fix: shutdown of a stopped scheduler keeps the
 reference counter and shutdown reports if it stopped the scheduler

---
 asyncz/schedulers/asyncio.py | 12 +++++++-----
 asyncz/schedulers/base.py    |  7 ++++---
 2 files changed, 11 insertions(+), 8 deletions(-)

diff --git a/asyncz/schedulers/asyncio.py b/asyncz/schedulers/asyncio.py
index bc75208..edbaca3 100644
--- a/asyncz/schedulers/asyncio.py
+++ b/asyncz/schedulers/asyncio.py
@@ -6,6 +6,7 @@ from collections.abc import Sequence
 from threading import Event, Thread
 from typing import TYPE_CHECKING, Any, Optional
 
+from asyncz.exceptions import SchedulerNotRunningError
 from asyncz.executors.asyncio import AsyncIOExecutor
 from asyncz.schedulers.base import BaseScheduler
 from asyncz.schedulers.utils import run_in_event_loop
@@ -70,8 +71,10 @@ class AsyncIOScheduler(BaseScheduler):
     def shutdown(self, wait: bool = True) -> bool:
         # not decremented yet so +1
         result = self.ref_counter
+        if result <= 0:
+            raise SchedulerNotRunningError()
         self._shutdown(wait)
-        return result > 1
+        return result == 1
 
     def _setup(self, config: Any) -> None:
         self.event_loop = maybe_ref(config.pop("event_loop", None))
@@ -129,9 +132,8 @@ class NativeAsyncIOScheduler(AsyncIOScheduler):
             self._shutdown_handle = None
 
     async def shutdown(self, wait: bool = True) -> bool:  # type: ignore
-        # not decremented yet so +1
-        result = self.ref_counter
-        if super(AsyncIOScheduler, self).shutdown(wait):
+        result = super(AsyncIOScheduler, self).shutdown(wait)
+        if result:
             handle = self._shutdown_handle
             if handle is not None:
                 self._shutdown_handle = None
@@ -142,7 +144,7 @@ class NativeAsyncIOScheduler(AsyncIOScheduler):
                 self.event_loop.stop()
                 self.event_loop = self.event_loop_thread = None
                 await asyncio.to_thread(thread.join)
-        return result > 1
+        return result
 
     def _setup(self, config: Any) -> None:
         self.isolated_event_loop = bool(config.pop("isolated_event_loop", False))
diff --git a/asyncz/schedulers/base.py b/asyncz/schedulers/base.py
index b8f0695..dd512af 100644
--- a/asyncz/schedulers/base.py
+++ b/asyncz/schedulers/base.py
@@ -269,12 +269,13 @@ class BaseScheduler(SchedulerType):
         Args:
             wait: True to wait until all currently executing tasks have finished.
         """
-        if not self.decr_refcount():
-            return False
-
+        # check first, a failing shutdown must not influence the reference counter
         if self.state == SchedulerState.STATE_STOPPED:
             raise SchedulerNotRunningError()
 
+        if not self.decr_refcount():
+            return False
+
         self.state = SchedulerState.STATE_STOPPED
         self.last_seen_at = datetime.now(self.timezone)
         self.started_at = None
-- 
2.43.0


From dfa97e81403be3a67e1f9b68d84d754eda2d8f08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:48 +0000
Subject: [PATCH 06/63] fix: nested start of the native asyncio scheduler keeps
 its loop, isolated loops are stopped thread-safe

---
 asyncz/schedulers/asyncio.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/asyncz/schedulers/asyncio.py b/asyncz/schedulers/asyncio.py
index edbaca3..4800357 100644
--- a/asyncz/schedulers/asyncio.py
+++ b/asyncz/schedulers/asyncio.py
@@ -115,13 +115,17 @@ class NativeAsyncIOScheduler(AsyncIOScheduler):
     _shutdown_handle: Any = None
 
     async def start(self, paused: bool = False) -> bool:  # type: ignore
-        if self.isolated_event_loop:
-            event = Event()
-            self.event_loop_thread = Thread(target=self._init_new_loop, args=[event], daemon=True)
-            self.event_loop_thread.start()
-            await asyncio.to_thread(event.wait)
-        else:
-            self.event_loop = asyncio.get_running_loop()
+        # a nested start must keep the event loop of the running scheduler
+        if self.ref_counter <= 0:
+            if self.isolated_event_loop:
+                event = Event()
+                self.event_loop_thread = Thread(
+                    target=self._init_new_loop, args=[event], daemon=True
+                )
+                self.event_loop_thread.start()
+                await asyncio.to_thread(event.wait)
+            else:
+                self.event_loop = asyncio.get_running_loop()
 
         return super(AsyncIOScheduler, self).start(paused)
 
@@ -141,7 +145,7 @@ class NativeAsyncIOScheduler(AsyncIOScheduler):
             self.stop_timer()
             thread = self.event_loop_thread
             if thread:
-                self.event_loop.stop()
+                self.event_loop.call_soon_threadsafe(self.event_loop.stop)
                 self.event_loop = self.event_loop_thread = None
                 await asyncio.to_thread(thread.join)
         return result
-- 
2.43.0


From 84a7886716156fc0a2d2038ccf1986866a85fbf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:54 +0000
Subject: [PATCH 07/63] fix: a failed start does not leak a reference, so the
 scheduler can be started again

---
 asyncz/schedulers/base.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/asyncz/schedulers/base.py b/asyncz/schedulers/base.py
index dd512af..1ac7888 100644
--- a/asyncz/schedulers/base.py
+++ b/asyncz/schedulers/base.py
@@ -198,6 +198,18 @@ class BaseScheduler(SchedulerType):
         """
         if not self.inc_refcount():
             return False
+        try:
+            self._start(paused)
+        except BaseException:
+            # not started, so a later start must not be handled as nested start
+            self.decr_refcount()
+            raise
+
+        if not paused:
+            self.wakeup()
+        return True
+
+    def _start(self, paused: bool) -> None:
         # should not happen, ref_counter should protect
         assert self.state == SchedulerState.STATE_STOPPED
 
@@ -231,10 +243,6 @@ class BaseScheduler(SchedulerType):
         self.loggers[self.logger_name].info("Scheduler started.")
         self.dispatch_event(SchedulerEvent(code=SCHEDULER_START))
 
-        if not paused:
-            self.wakeup()
-        return True
-
     def _shutdown_fn_helper(self, task: TaskType) -> None:
         assert task.fn is not None
         try:
-- 
2.43.0


From 6b3246432f7c38393c03eb0051a931fa56646cea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:40 +0000
Subject: [PATCH 08/63] fix: a wakeup queued before shutdown does not process
 tasks of the stopped scheduler

---
 asyncz/schedulers/base.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/asyncz/schedulers/base.py b/asyncz/schedulers/base.py
index 1ac7888..eac9fad 100644
--- a/asyncz/schedulers/base.py
+++ b/asyncz/schedulers/base.py
@@ -1662,6 +1662,10 @@ class BaseScheduler(SchedulerType):
         If the get_due_tasks() call raises an exception, a new wakeup is scheduled in at least
         store_retry_interval seconds.
         """
+        if self.state == SchedulerState.STATE_STOPPED:
+            # e.g. a wakeup which was still queued when the scheduler was shut down
+            return None
+
         if self.state == SchedulerState.STATE_PAUSED:
             self.loggers[self.logger_name].debug("Scheduler is paused. Not processing tasks.")
             return None
-- 
2.43.0


From 2c111b4e64eac310147ab78e1b7325f88bb81fd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:06 +0000
Subject: [PATCH 09/63] fix: an error while processing one due task does not
 stop the scheduler

---
 asyncz/schedulers/base.py | 31 ++++++++++++++++++++++++++++---
 1 file changed, 28 insertions(+), 3 deletions(-)

diff --git a/asyncz/schedulers/base.py b/asyncz/schedulers/base.py
index eac9fad..40f4123 100644
--- a/asyncz/schedulers/base.py
+++ b/asyncz/schedulers/base.py
@@ -1593,7 +1593,7 @@ class BaseScheduler(SchedulerType):
                     next_wakeup_time = retry_wakeup_time
                 return next_wakeup_time
 
-            for task in due_tasks:
+            def process_due_task(task: TaskType) -> None:
                 try:
                     executor = self.lookup_executor(task.executor)  # type: ignore
                 except Exception:
@@ -1601,7 +1601,7 @@ class BaseScheduler(SchedulerType):
                         f"Executor lookup ('{task.executor}') failed for task '{task}'. Removing it from the store."
                     )
                     self.delete_task(task.id, store_alias)
-                    continue
+                    return
 
                 run_times = task.get_run_times(self.timezone, now)
                 run_times, coalesced_run_count = self._coalesce_run_times(task, run_times)
@@ -1647,7 +1647,32 @@ class BaseScheduler(SchedulerType):
                     else:
                         self.delete_task(task.id, store_alias)
 
-            store_next_run_time = store.get_next_run_time()
+            # a problem with one task must neither affect other tasks nor stop the processing
+            failed = False
+            for due_task in due_tasks:
+                try:
+                    process_due_task(due_task)
+                except TaskLookupError:
+                    # removed in the meantime, e.g. by its own run or by another process
+                    self.loggers[self.logger_name].debug(
+                        f"Task '{due_task}' is already gone from the store '{store_alias}'."
+                    )
+                except Exception as e:
+                    failed = True
+                    self.loggers[self.logger_name].exception(
+                        f"Error processing task '{due_task}' of the store '{store_alias}': {e}"
+                    )
+
+            store_next_run_time: Optional[datetime] = None
+            try:
+                store_next_run_time = store.get_next_run_time()
+            except Exception as e:
+                failed = True
+                self.loggers[self.logger_name].warning(
+                    f'Error getting the next run time from the store "{store_alias}": {e}.'
+                )
+            if failed and (store_next_run_time is None or store_next_run_time <= now):
+                store_next_run_time = now + timedelta(seconds=self.store_retry_interval)
             if store_next_run_time and (
                 next_wakeup_time is None or store_next_run_time < next_wakeup_time
             ):
-- 
2.43.0


From 82f0de4372086b6a06c97c0e1e0e285001bcf8ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:33 +0000
Subject: [PATCH 10/63] fix: updating a removed task in the memory store does
 not bring it back

---
 asyncz/stores/memory.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/asyncz/stores/memory.py b/asyncz/stores/memory.py
index abe9303..6cdf9a4 100644
--- a/asyncz/stores/memory.py
+++ b/asyncz/stores/memory.py
@@ -68,11 +68,8 @@ class MemoryStore(BaseStore):
         new_timestamp = datetime_to_utc_timestamp(task.next_run_time or None)
 
         if old_task is None:
-            # Not present yet: be tolerant and insert it (dashboard flows may update before first commit)
-            index = self.get_task_index(new_timestamp, task.id)
-            self.tasks.insert(index, (task, new_timestamp))
-            self.tasks_index[task.id] = (task, new_timestamp)
-            return
+            # like the other stores: an update must not bring back a removed task
+            raise TaskLookupError(task.id)
 
         old_index = self.get_task_index(old_timestamp, old_task.id)  # type: ignore
         if old_timestamp == new_timestamp:
-- 
2.43.0


From ccfe1a90d3c52bdd14bdf9be7038487727902d8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:43 +0000
Subject: [PATCH 11/63] fix: manual runs adjust the timer and do not conflict
 with concurrent edits

---
 asyncz/schedulers/base.py | 31 +++++++++++++++++++++++++------
 1 file changed, 25 insertions(+), 6 deletions(-)

diff --git a/asyncz/schedulers/base.py b/asyncz/schedulers/base.py
index 40f4123..f9de091 100644
--- a/asyncz/schedulers/base.py
+++ b/asyncz/schedulers/base.py
@@ -789,7 +789,23 @@ class BaseScheduler(SchedulerType):
             TaskLookupError: If the task cannot be found.
             KeyError: If the configured executor cannot be found.
         """
+        # the lock prevents that a concurrent edit is overwritten with stale task data
+        with self.store_lock:
+            task = self._run_task(task_id, store, force=force, remove_finished=remove_finished)
 
+        # the next run time changed, so the timer must be adjusted
+        if self.state == SchedulerState.STATE_RUNNING:
+            self.wakeup()
+        return task
+
+    def _run_task(
+        self,
+        task_id: Union[TaskType, str],
+        store: Optional[str],
+        *,
+        force: bool,
+        remove_finished: bool,
+    ) -> Union[TaskType, None]:
         if self.state == SchedulerState.STATE_STOPPED:
             raise SchedulerNotRunningError()
 
@@ -860,14 +876,17 @@ class BaseScheduler(SchedulerType):
             # not create zero-delay feedback loops in tests or dashboards.
             next_run_time = now + timedelta(milliseconds=1)
 
-        if next_run_time is None and remove_finished:
-            self.delete_task(task_id, store_alias)
-            return None
+        try:
+            if next_run_time is None and remove_finished:
+                self.delete_task(task_id, store_alias)
+                return None
 
-        task.update_task(next_run_time=next_run_time)
-        if store_alias is not None:
-            with self.store_lock:
+            task.update_task(next_run_time=next_run_time)
+            if store_alias is not None:
                 self.lookup_store(store_alias).update_task(task)
+        except TaskLookupError:
+            # the task was removed by its own run
+            return None
 
         return task
 
-- 
2.43.0


From 0f1ddab04ca54f8d3ef69bd720d0769d4e40af47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:16 +0000
Subject: [PATCH 12/63] fix: task objects are accepted when updating, pausing
 or rescheduling tasks

---
 asyncz/schedulers/base.py | 17 ++---------------
 1 file changed, 2 insertions(+), 15 deletions(-)

diff --git a/asyncz/schedulers/base.py b/asyncz/schedulers/base.py
index f9de091..2ee7384 100644
--- a/asyncz/schedulers/base.py
+++ b/asyncz/schedulers/base.py
@@ -667,25 +667,12 @@ class BaseScheduler(SchedulerType):
         """
         if isinstance(task_id, TaskType):
             assert task_id.id, "Cannot update a decorator type Task"
-            new_updates = self.shape.dump(
-                task_id,
-                context=ShapeContext(
-                    entity="task",
-                    operation="dump",
-                    scheduler_identity=self.identity,
-                ),
-            )
-            if not isinstance(new_updates, Mapping):
-                raise TypeError("Task snapshots must dump to a mapping.")
-            new_updates = dict(new_updates)
-            new_updates.update(**updates)
+            # only used as reference, the object may be outdated
             task_id = task_id.id
-        else:
-            new_updates = updates
 
         with self.store_lock:
             task, store = self.lookup_task(task_id, store)
-            task.update_task(scheduler=self, **new_updates)
+            task.update_task(scheduler=self, **updates)
 
             if store:
                 self.lookup_store(store).update_task(task)
-- 
2.43.0


From 6757695c412f803880c6aa14145566e7e959f596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:56 +0000
Subject: [PATCH 13/63] fix: a broken process pool is replaced instead of
 failing every later submission

---
 asyncz/executors/pool.py         | 5 ++++-
 asyncz/executors/process_pool.py | 1 +
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/asyncz/executors/pool.py b/asyncz/executors/pool.py
index 2931f97..9efa5ab 100644
--- a/asyncz/executors/pool.py
+++ b/asyncz/executors/pool.py
@@ -43,7 +43,9 @@ class BasePoolExecutor(BaseExecutor):
             self.scheduler.loggers[self.logger_name].warning(
                 "Process pool is broken. Replacing pool with a new instance."
             )
-            self.pool = self.pool.__class__(self.pool.max_workers)
+            self.pool = self.pool.__class__(
+                self.pool._max_workers, **getattr(self, "pool_kwargs", {})
+            )
             fn = self.pool.submit(run_task, task, task.store_alias, run_times, self.logger)
 
         fn.add_done_callback(callback)
@@ -67,3 +69,4 @@ class ThreadPoolExecutor(BasePoolExecutor):
         pool_kwargs = pool_kwargs or {}
         pool = concurrent.futures.ThreadPoolExecutor(int(max_workers), **pool_kwargs)
         super().__init__(pool, **kwargs)
+        self.pool_kwargs = pool_kwargs
diff --git a/asyncz/executors/process_pool.py b/asyncz/executors/process_pool.py
index dadc051..286052e 100644
--- a/asyncz/executors/process_pool.py
+++ b/asyncz/executors/process_pool.py
@@ -66,6 +66,7 @@ class ProcessPoolExecutor(BasePoolExecutor):
         pool_kwargs = pool_kwargs or {}
         pool = concurrent.futures.ProcessPoolExecutor(int(max_workers), **pool_kwargs)
         super().__init__(pool, **kwargs)
+        self.pool_kwargs = pool_kwargs
 
     def start(self, scheduler: "SchedulerType", alias: str) -> None:
         super().start(scheduler, alias)
-- 
2.43.0


From ece81915689fa6bedf9a0661dc531277ce2b8223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:52 +0000
Subject: [PATCH 14/63] fix: cancelled pool runs release their instance slot

---
 asyncz/executors/pool.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/asyncz/executors/pool.py b/asyncz/executors/pool.py
index 9efa5ab..acd8c6d 100644
--- a/asyncz/executors/pool.py
+++ b/asyncz/executors/pool.py
@@ -27,6 +27,10 @@ class BasePoolExecutor(BaseExecutor):
         assert task_id is not None, "Cannot send decorator type task"
 
         def callback(fn: Any) -> None:
+            if fn.cancelled():
+                # never started because of cancel_futures, the slot must be released
+                self.run_task_error(task_id)
+                return
             exc, _ = (
                 fn.exception_info()
                 if hasattr(fn, "exception_info")
-- 
2.43.0


From cef70dee3dd26c5b108e99fbf448d112dff462b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:16 +0000
Subject: [PATCH 15/63] fix: the file store writes records atomically,
 concurrent readers and crashes do not lose tasks

---
 asyncz/stores/file.py | 63 ++++++++++++++++++++++++++++++++-----------
 1 file changed, 47 insertions(+), 16 deletions(-)

diff --git a/asyncz/stores/file.py b/asyncz/stores/file.py
index 0bbb060..eed0da7 100644
--- a/asyncz/stores/file.py
+++ b/asyncz/stores/file.py
@@ -4,10 +4,12 @@ import glob
 import os
 import pickle
 import shutil
-from contextlib import suppress
+from collections.abc import Generator
+from contextlib import contextmanager, suppress
 from datetime import datetime
 from pathlib import Path
 from typing import TYPE_CHECKING, Any, Optional, Union, cast
+from uuid import uuid4
 
 from asyncz.exceptions import ConflictIdError, TaskLookupError
 from asyncz.file_locking import LOCK_EX, LOCK_SH, with_lock
@@ -77,6 +79,8 @@ class FileStore(BaseStore):
         try:
             with open(task_path, "rb") as read_ob, with_lock(read_ob, LOCK_SH):
                 task = self.rebuild_task(read_ob.read())
+        except FileNotFoundError:
+            task = None
         except Exception:
             task_path.unlink(missing_ok=True)
             task = None
@@ -101,7 +105,10 @@ class FileStore(BaseStore):
         tasks: list[tuple[TaskType, os.stat_result]] = []
         with os.scandir(self.directory) as scanner:
             for entry in scanner:
-                if not entry.name.endswith(self.suffix) or not entry.is_file():
+                # hidden files are unfinished writes
+                if entry.name.startswith(".") or not entry.name.endswith(self.suffix):
+                    continue
+                if not entry.is_file():
                     continue
                 try:
                     with open(entry.path, "rb") as read_ob, with_lock(read_ob, LOCK_SH):
@@ -138,35 +145,59 @@ class FileStore(BaseStore):
     def add_task(self, task: TaskType) -> None:
         self.check_task_id(task.id)
         task_path = self.directory / f"{task.id}{self.suffix}"
+        with self.written_task_file(task) as new_path:
+            try:
+                # publish the complete record, fails if there is already one
+                os.link(new_path, task_path)
+            except FileExistsError:
+                raise ConflictIdError(task.id) from None
+
+    @contextmanager
+    def written_task_file(self, task: TaskType) -> Generator[Path, None, None]:
+        """
+        Write the record of the task to a temporary file first, so neither other processes nor
+        a crash can ever expose a partially written record.
+        """
+        new_path = self.directory / f".{uuid4().hex}.tmp"
         try:
-            with task_path.open("xb") as write_ob, with_lock(write_ob, LOCK_EX):
+            with new_path.open("xb") as write_ob:
                 write_ob.write(
                     self.conditional_encrypt(
                         pickle.dumps(self.serialize_task_state(task), self.pickle_protocol)
                     )
                 )
-        except FileExistsError:
-            raise ConflictIdError(task.id) from None
+            yield new_path
+        finally:
+            new_path.unlink(missing_ok=True)
+
+    @contextmanager
+    def locked_task_file(self, task_path: Path) -> Generator[None, None, None]:
+        """
+        Lock the current record, so updates and deletions are serialized.
+        """
+        while True:
+            with open(task_path, "rb") as lock_ob, with_lock(lock_ob, LOCK_EX):
+                # the record could be replaced while waiting for the lock
+                if os.path.samestat(os.fstat(lock_ob.fileno()), os.stat(task_path)):
+                    yield
+                    return
 
     def update_task(self, task: TaskType) -> None:
         self.check_task_id(task.id)
         task_path = self.directory / f"{task.id}{self.suffix}"
-        try:
-            with task_path.open("r+b") as write_ob, with_lock(write_ob, LOCK_EX):
-                write_ob.truncate()
-                write_ob.write(
-                    self.conditional_encrypt(
-                        pickle.dumps(self.serialize_task_state(task), self.pickle_protocol)
-                    )
-                )
-        except FileNotFoundError:
-            raise TaskLookupError(task.id) from None
+        with self.written_task_file(task) as new_path:
+            try:
+                with self.locked_task_file(task_path):
+                    os.replace(new_path, task_path)
+            except FileNotFoundError:
+                raise TaskLookupError(task.id) from None
 
     def delete_task(self, task_id: str) -> None:
         self.check_task_id(task_id)
         task_path = self.directory / f"{task_id}{self.suffix}"
         try:
-            task_path.unlink(missing_ok=False)
+            with self.locked_task_file(task_path):
+                task_path.unlink(missing_ok=False)
         except FileNotFoundError:
             raise TaskLookupError(task_id) from None
 
-- 
2.43.0


From 6e6e6b013c8278ea3b1e0a5ea653a840aa9e6c49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:18 +0000
Subject: [PATCH 16/63] fix: transient read errors do not delete the records of
 the file store

---
 asyncz/stores/file.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/asyncz/stores/file.py b/asyncz/stores/file.py
index eed0da7..b9666d6 100644
--- a/asyncz/stores/file.py
+++ b/asyncz/stores/file.py
@@ -81,6 +81,9 @@ class FileStore(BaseStore):
                 task = self.rebuild_task(read_ob.read())
         except FileNotFoundError:
             task = None
+        except OSError:
+            # not readable right now (e.g. too many open files), the record itself is not broken
+            raise
         except Exception:
             task_path.unlink(missing_ok=True)
             task = None
@@ -114,6 +117,12 @@ class FileStore(BaseStore):
                     with open(entry.path, "rb") as read_ob, with_lock(read_ob, LOCK_SH):
                         task = self.rebuild_task(read_ob.read())
                     tasks.append((task, entry.stat()))
+                except FileNotFoundError:
+                    # removed in the meantime
+                    continue
+                except OSError:
+                    # not readable right now (e.g. too many open files), keep the record
+                    raise
                 except Exception:
                     with suppress(FileNotFoundError):
                         os.unlink(entry.path)
-- 
2.43.0


From 13061e0e06a2da89dcbdc92cdf2d1f6ae88c6f4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:43 +0000
Subject: [PATCH 17/63] fix: shutting down one process does not break the file
 lock of other processes

---
 asyncz/locks.py | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/asyncz/locks.py b/asyncz/locks.py
index ad0e088..d064ca8 100644
--- a/asyncz/locks.py
+++ b/asyncz/locks.py
@@ -68,12 +68,28 @@ class FileLockProtected(LockProtectedProtocol):
             if not blocking:
                 flags |= LOCK_NB
             locked = lock(file, flags)
+            if locked and not self.is_current(file):
+                # the lock file was removed by a shutdown, another process may hold a new one
+                unlock(file)
+                locked = False
             try:
                 yield locked
             finally:
                 if locked:
                     unlock(file)
 
+    def is_current(self, file: Any) -> bool:
+        try:
+            return os.path.samestat(os.fstat(file.fileno()), os.stat(self.file_path))
+        except FileNotFoundError:
+            return False
+
     def shutdown(self) -> None:
-        with suppress(FileNotFoundError):
-            os.remove(self.file_path)
+        # only remove the lock file when nobody is in the protected block
+        with suppress(FileNotFoundError), open(self.file_path) as file:
+            if lock(file, LOCK_EX | LOCK_NB):
+                try:
+                    if self.is_current(file):
+                        os.remove(self.file_path)
+                finally:
+                    unlock(file)
-- 
2.43.0


From 4df8da9edda9771041e4246c6da818755cd4f1a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:24 +0000
Subject: [PATCH 18/63] fix: and triggers find their next common time after the
 previous run instead of looping forever

---
 asyncz/triggers/combination.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/asyncz/triggers/combination.py b/asyncz/triggers/combination.py
index 7fa2244..34bc09d 100644
--- a/asyncz/triggers/combination.py
+++ b/asyncz/triggers/combination.py
@@ -1,4 +1,4 @@
-from datetime import datetime, tzinfo
+from datetime import datetime, timedelta, tzinfo
 from typing import ClassVar, Optional, Union
 
 from asyncz.triggers.base import BaseCombinationTrigger
@@ -21,6 +21,11 @@ class AndTrigger(BaseCombinationTrigger):
     ) -> Union[datetime, None]:
         if now is None:
             now = datetime.now(timezone)
+        if previous_time is not None:
+            # Search for the first common time after the previous one. The children would not
+            # respect the moved lower bound if they just continue from previous_time.
+            now = previous_time + timedelta(microseconds=1)
+            previous_time = None
         while True:
             trigger_times = []
             for trigger in self.triggers:
@@ -31,6 +36,9 @@ class AndTrigger(BaseCombinationTrigger):
                 trigger_times.append(next_trigger_time)
             if min(trigger_times) == max(trigger_times):
                 return self.apply_jitter(trigger_times[0], self.jitter, now)
+            elif min(trigger_times) < now:
+                # one of the triggers has no run time left (e.g. a date in the past)
+                return None
             else:
                 # recheck
                 now = max(trigger_times)
-- 
2.43.0


From 4307f08c23fa0e57e287f181514180d0d7274ec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:37 +0000
Subject: [PATCH 19/63] fix: interval runs are neither skipped nor early when
 the clock is set back

---
 asyncz/schedulers/base.py   |  9 ++++++---
 asyncz/stores/file.py       |  3 ++-
 asyncz/tasks/base.py        |  3 ++-
 asyncz/triggers/interval.py | 14 +++++++++++---
 4 files changed, 21 insertions(+), 8 deletions(-)

diff --git a/asyncz/schedulers/base.py b/asyncz/schedulers/base.py
index 2ee7384..e4f0fa4 100644
--- a/asyncz/schedulers/base.py
+++ b/asyncz/schedulers/base.py
@@ -11,6 +11,7 @@ from abc import abstractmethod
 from collections import defaultdict
 from collections.abc import Callable, Mapping, Sequence
 from datetime import datetime, timedelta
+from datetime import timezone as dttz
 from importlib import import_module
 from inspect import isawaitable
 from threading import TIMEOUT_MAX, Lock, RLock
@@ -1682,7 +1683,7 @@ class BaseScheduler(SchedulerType):
             if store_next_run_time and (
                 next_wakeup_time is None or store_next_run_time < next_wakeup_time
             ):
-                next_wakeup_time = store_next_run_time.astimezone(self.timezone)
+                next_wakeup_time = store_next_run_time.astimezone(dttz.utc)
             return next_wakeup_time
 
     def process_tasks(self) -> Optional[float]:
@@ -1702,7 +1703,8 @@ class BaseScheduler(SchedulerType):
             return None
 
         self.loggers[self.logger_name].debug("Looking for tasks to run.")
-        now = datetime.now(self.timezone)
+        # UTC because the wall clock is ambiguous when it is set back
+        now = datetime.now(dttz.utc)
         next_wakeup_time: Optional[datetime] = None
         events: list[SchedulerEvent] = []
 
@@ -1738,6 +1740,7 @@ class BaseScheduler(SchedulerType):
         else:
             wait_seconds = min(max(timedelta_seconds(next_wakeup_time - now), 0), TIMEOUT_MAX)
             self.loggers[self.logger_name].debug(
-                f"Next wakeup is due at {next_wakeup_time} (in {wait_seconds} seconds)."
+                f"Next wakeup is due at {next_wakeup_time.astimezone(self.timezone)} "
+                f"(in {wait_seconds} seconds)."
             )
         return wait_seconds
diff --git a/asyncz/stores/file.py b/asyncz/stores/file.py
index b9666d6..c65c90d 100644
--- a/asyncz/stores/file.py
+++ b/asyncz/stores/file.py
@@ -101,7 +101,8 @@ class FileStore(BaseStore):
         return [
             task
             for task in self.get_all_tasks()
-            if task.next_run_time is not None and task.next_run_time <= now
+            if task.next_run_time is not None
+            and task.next_run_time.timestamp() <= now.timestamp()
         ]
 
     def get_tasks(self) -> list[TaskType]:
diff --git a/asyncz/tasks/base.py b/asyncz/tasks/base.py
index 20ffc8f..eb1cdef 100644
--- a/asyncz/tasks/base.py
+++ b/asyncz/tasks/base.py
@@ -68,7 +68,8 @@ class Task(BaseState, TaskType):  # type: ignore
         run_times = []
         next_run_time = self.next_run_time
         assert self.trigger
-        while next_run_time and next_run_time <= now:
+        # compare the points in time, the wall clock is ambiguous when it is set back
+        while next_run_time and next_run_time.timestamp() <= now.timestamp():
             run_times.append(next_run_time)
             next_run_time = self.trigger.get_next_trigger_time(timezone, next_run_time, now)
         return run_times
diff --git a/asyncz/triggers/interval.py b/asyncz/triggers/interval.py
index 5e121fd..1371bea 100644
--- a/asyncz/triggers/interval.py
+++ b/asyncz/triggers/interval.py
@@ -1,4 +1,5 @@
 from datetime import datetime, timedelta, tzinfo
+from datetime import timezone as dttz
 from math import ceil
 from typing import Any, ClassVar, Optional, Union
 
@@ -62,6 +63,11 @@ class IntervalTrigger(BaseTrigger):
         self.start_at = to_datetime(start_at, self.timezone, "start_at", require_tz=False)
         self.end_at = to_datetime(end_at, self.timezone, "end_at", require_tz=False)
 
+    @staticmethod
+    def add_absolute(value: datetime, delta: timedelta) -> datetime:
+        # datetime arithmetic uses the wall clock, which would skip runs when it is set back
+        return (value.astimezone(dttz.utc) + delta).astimezone(value.tzinfo)
+
     def get_next_trigger_time(
         self,
         timezone: tzinfo,
@@ -78,15 +84,17 @@ class IntervalTrigger(BaseTrigger):
             else self.start_at
         )
         if previous_time:
-            next_trigger_time = previous_time + self.interval
+            next_trigger_time = self.add_absolute(previous_time, self.interval)
         elif start_at > now:
             next_trigger_time = start_at
         else:
-            time_difference_seconds = timedelta_seconds(now - start_at)
+            time_difference_seconds = timedelta_seconds(
+                now.astimezone(dttz.utc) - start_at.astimezone(dttz.utc)
+            )
             # derived from interval, a restored (unpickled) trigger has no interval_size
             interval_size = timedelta_seconds(self.interval)
             next_interval_number = int(ceil(time_difference_seconds / interval_size))
-            next_trigger_time = start_at + self.interval * next_interval_number
+            next_trigger_time = self.add_absolute(start_at, self.interval * next_interval_number)
 
         if self.jitter is not None:
             next_trigger_time = self.apply_jitter(
-- 
2.43.0


From 51e54128bee75df6cf13cbdc03e32854de14b59b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:05 +0000
Subject: [PATCH 20/63] fix: pausing a task before the scheduler starts is not
 undone by the start

---
 asyncz/schedulers/base.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/asyncz/schedulers/base.py b/asyncz/schedulers/base.py
index e4f0fa4..5caba71 100644
--- a/asyncz/schedulers/base.py
+++ b/asyncz/schedulers/base.py
@@ -677,6 +677,16 @@ class BaseScheduler(SchedulerType):
 
             if store:
                 self.lookup_store(store).update_task(task)
+            elif "next_run_time" in updates:
+                # a pending task which is paused must not be scheduled by the start
+                self.pending_tasks = [
+                    (
+                        pending,
+                        replace_existing,
+                        task.next_run_time is not None if pending is task else start_task,
+                    )
+                    for pending, replace_existing, start_task in self.pending_tasks
+                ]
 
         self.dispatch_event(TaskEvent(code=TASK_MODIFIED, task_id=task_id, store=store))
 
-- 
2.43.0


From a37fc06f7af57cd8a39cbb36c150179d2ccf8658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:05 +0000
Subject: [PATCH 21/63] fix: a run on the debug executor counts as instance
 while it is in progress

---
 asyncz/executors/base.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/asyncz/executors/base.py b/asyncz/executors/base.py
index eef1cae..787ba06 100644
--- a/asyncz/executors/base.py
+++ b/asyncz/executors/base.py
@@ -65,8 +65,15 @@ class BaseExecutor(ExecutorType):
             if self.instances[task.id] >= task.max_instances:
                 raise MaximumInstancesError(task.id, task.max_instances)
 
-            self.do_send_task(task, run_times)
+            # count first, the debug executor runs the task (which may submit itself) at once
             self.instances[task.id] += 1
+            try:
+                self.do_send_task(task, run_times)
+            except BaseException:
+                self.instances[task.id] -= 1
+                if self.instances[task.id] == 0:
+                    del self.instances[task.id]
+                raise
 
     def run_task_success(self, task_id: str, events: list[TaskExecutionEvent]) -> None:
         """
-- 
2.43.0


From 8c400f5eb79392ce7f6a51ce7df362e156dd1abe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:06 +0000
Subject: [PATCH 22/63] fix: the wait after a round does not include the time
 the round took

---
 asyncz/schedulers/base.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/asyncz/schedulers/base.py b/asyncz/schedulers/base.py
index 5caba71..8ef7107 100644
--- a/asyncz/schedulers/base.py
+++ b/asyncz/schedulers/base.py
@@ -1748,7 +1748,9 @@ class BaseScheduler(SchedulerType):
                 self.loggers[self.logger_name].debug("No tasks. Waiting until task is added.")
 
         else:
-            wait_seconds = min(max(timedelta_seconds(next_wakeup_time - now), 0), TIMEOUT_MAX)
+            # the round itself takes time, e.g. when an executor runs tasks directly
+            remaining = timedelta_seconds(next_wakeup_time - datetime.now(dttz.utc))
+            wait_seconds = min(max(remaining, 0), TIMEOUT_MAX)
             self.loggers[self.logger_name].debug(
                 f"Next wakeup is due at {next_wakeup_time.astimezone(self.timezone)} "
                 f"(in {wait_seconds} seconds)."
-- 
2.43.0


From 8cd19e219ed286dc26ec20360e976e3ef64a5859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:06 +0000
Subject: [PATCH 23/63] fix: a failed start keeps the not added tasks pending
 as they were

---
 asyncz/schedulers/base.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/asyncz/schedulers/base.py b/asyncz/schedulers/base.py
index 8ef7107..02311fe 100644
--- a/asyncz/schedulers/base.py
+++ b/asyncz/schedulers/base.py
@@ -233,10 +233,12 @@ class BaseScheduler(SchedulerType):
             for alias, store in self.stores.items():
                 store.start(self, alias)
 
-            for task, replace_existing, start_task in self.pending_tasks:
+            # when adding one fails, the added ones are no longer pending
+            while self.pending_tasks:
+                task, replace_existing, start_task = self.pending_tasks[0]
                 with contextlib.suppress(ConflictIdError):
                     self.real_add_task(task, replace_existing, start_task, min_dtime)
-            del self.pending_tasks[:]
+                del self.pending_tasks[0]
 
         self.state = SchedulerState.STATE_PAUSED if paused else SchedulerState.STATE_RUNNING
         self.started_at = datetime.now(self.timezone)
@@ -1480,10 +1482,10 @@ class BaseScheduler(SchedulerType):
         elif isinstance(task.next_run_time, datetime) and min_dtime is not None:
             replacements["next_run_time"] = max(min_dtime, task.next_run_time)
 
+        store = self.lookup_store(task.store_alias)
         # Apply replacements
         task.update_task(**replacements)
         # Add the task to the given store
-        store = self.lookup_store(task.store_alias)
         try:
             store.add_task(task)
         except ConflictIdError as exc:
-- 
2.43.0


From 2ff00a3072560d899567545664f32c1af0a9284e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:31 +0000
Subject: [PATCH 24/63] fix: cron triggers never go back when the clock is set
 back and keep their start and days with other utc offset

---
 asyncz/triggers/cron/trigger.py | 29 ++++++++++++++++++++---------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/asyncz/triggers/cron/trigger.py b/asyncz/triggers/cron/trigger.py
index b828db1..61039ad 100644
--- a/asyncz/triggers/cron/trigger.py
+++ b/asyncz/triggers/cron/trigger.py
@@ -1,5 +1,6 @@
 from datetime import datetime, timedelta, tzinfo
-from typing import Any, ClassVar, Optional, Union
+from datetime import timezone as dttz
+from typing import Any, ClassVar, Optional, Union, cast
 
 from asyncz.datastructures import CronState
 from asyncz.triggers.base import BaseTrigger
@@ -202,8 +203,13 @@ class CronTrigger(BaseTrigger):
                     values[field.name] = value + 1
                     count += 1
 
-        difference = datetime(**values) - dateval.replace(tzinfo=None)
-        return normalize(dateval + difference), field_number
+        target = datetime(**values)
+        next_date = normalize(dateval + (target - dateval.replace(tzinfo=None)))
+        # pytz keeps the utc offset of dateval in calculations, the target may have another one
+        local_target = normalize(localize(target, cast(tzinfo, dateval.tzinfo)))
+        if dateval < local_target < next_date:
+            next_date = local_target
+        return next_date, field_number
 
     def set_field_value(
         self, dateval: datetime, field_number: int, new_value: Any, timezone: tzinfo
@@ -236,17 +242,19 @@ class CronTrigger(BaseTrigger):
             if self.end_at and self.end_at.tzinfo is None
             else self.end_at
         )
+        # UTC because the wall clock is ambiguous when it is set back
+        start_at = now.astimezone(dttz.utc)
         if previous_time:
-            start_at = min(now, previous_time + timedelta(microseconds=1))
+            previous_time = previous_time.astimezone(dttz.utc)
+            start_at = min(start_at, previous_time + timedelta(microseconds=1))
             if start_at == previous_time:
                 start_at += timedelta(microseconds=1)
-        else:
-            start_at = max(now, start_at_field) if start_at_field else now
-        if start_at.tzinfo != timezone:
-            start_at = start_at.astimezone(timezone)
+        if start_at_field:
+            start_at = max(start_at, start_at_field.astimezone(dttz.utc))
+        start_at = datetime_ceil(start_at).astimezone(timezone)
 
         fieldnum = 0
-        next_date = datetime_ceil(start_at)
+        next_date = start_at
 
         while 0 <= fieldnum < len(self.fields):
             field = self.fields[fieldnum]
@@ -268,6 +276,9 @@ class CronTrigger(BaseTrigger):
                 return None
 
         if fieldnum >= 0:
+            if next_date.timestamp() < start_at.timestamp():
+                # the clock was set back, the time is meant when it occurs again
+                next_date = next_date.replace(fold=1)
             next_date = self.apply_jitter(next_date, self.jitter, now)
             return min(next_date, end_at_field) if end_at_field else next_date
         return None
-- 
2.43.0


From 6c575f5a9609007a237055d58cfb4e02cfddd2f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:32 +0000
Subject: [PATCH 25/63] fix: interval triggers with fractional intervals do not
 skip a run which is due now

---
 asyncz/triggers/interval.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/asyncz/triggers/interval.py b/asyncz/triggers/interval.py
index 1371bea..fd1e70e 100644
--- a/asyncz/triggers/interval.py
+++ b/asyncz/triggers/interval.py
@@ -1,6 +1,5 @@
 from datetime import datetime, timedelta, tzinfo
 from datetime import timezone as dttz
-from math import ceil
 from typing import Any, ClassVar, Optional, Union
 
 from asyncz.datastructures import IntervalState
@@ -88,12 +87,9 @@ class IntervalTrigger(BaseTrigger):
         elif start_at > now:
             next_trigger_time = start_at
         else:
-            time_difference_seconds = timedelta_seconds(
-                now.astimezone(dttz.utc) - start_at.astimezone(dttz.utc)
-            )
-            # derived from interval, a restored (unpickled) trigger has no interval_size
-            interval_size = timedelta_seconds(self.interval)
-            next_interval_number = int(ceil(time_difference_seconds / interval_size))
+            # exact (floats are not), rounded up
+            time_difference = now.astimezone(dttz.utc) - start_at.astimezone(dttz.utc)
+            next_interval_number = -(-time_difference // self.interval)
             next_trigger_time = self.add_absolute(start_at, self.interval * next_interval_number)
 
         if self.jitter is not None:
-- 
2.43.0


From cc77a873b7cd0c2de6ddfea3b3b4c598ba4f48f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:56 +0000
Subject: [PATCH 26/63] fix: or triggers keep the run times of every part, also
 inside of and triggers

---
 asyncz/triggers/combination.py | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/asyncz/triggers/combination.py b/asyncz/triggers/combination.py
index 34bc09d..61ec201 100644
--- a/asyncz/triggers/combination.py
+++ b/asyncz/triggers/combination.py
@@ -30,15 +30,19 @@ class AndTrigger(BaseCombinationTrigger):
             trigger_times = []
             for trigger in self.triggers:
                 next_trigger_time = trigger.get_next_trigger_time(timezone, previous_time, now)
+                # skip run times in the past (e.g. of a date)
+                while next_trigger_time is not None and next_trigger_time < now:
+                    past_time = next_trigger_time
+                    next_trigger_time = trigger.get_next_trigger_time(timezone, past_time, now)
+                    if next_trigger_time is not None and next_trigger_time <= past_time:
+                        # no progress, there is nothing left
+                        return None
                 # bail out early
                 if next_trigger_time is None:
                     return None
                 trigger_times.append(next_trigger_time)
             if min(trigger_times) == max(trigger_times):
                 return self.apply_jitter(trigger_times[0], self.jitter, now)
-            elif min(trigger_times) < now:
-                # one of the triggers has no run time left (e.g. a date in the past)
-                return None
             else:
                 # recheck
                 now = max(trigger_times)
@@ -61,9 +65,19 @@ class OrTrigger(BaseCombinationTrigger):
     ) -> Union[datetime, None]:
         if now is None:
             now = datetime.now(timezone)
+        if previous_time is not None:
+            # The previous time may be of another child. Children which just continue from it
+            # would leave their own run times.
+            now = previous_time + timedelta(microseconds=1)
         trigger_times = []
         for trigger in self.triggers:
-            next_trigger_time = trigger.get_next_trigger_time(timezone, previous_time, now)
+            next_trigger_time = trigger.get_next_trigger_time(timezone, None, now)
+            if (
+                previous_time is not None
+                and next_trigger_time is not None
+                and next_trigger_time <= previous_time
+            ):
+                next_trigger_time = trigger.get_next_trigger_time(timezone, previous_time, now)
             if next_trigger_time is not None:
                 trigger_times.append(next_trigger_time)
 
-- 
2.43.0


From 169585368f23e9cc32cf7e606d0fcb4dc73c89d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:16 +0000
Subject: [PATCH 27/63] fix: compare points in time instead of ambiguous wall
 clock times when the clock is set back

---
 asyncz/schedulers/base.py      | 29 +++++++++++++++++++++--------
 asyncz/stores/file.py          |  5 +++--
 asyncz/stores/redis.py         |  2 +-
 asyncz/triggers/base.py        |  9 ++++++++-
 asyncz/triggers/combination.py | 26 ++++++++++++++++++--------
 asyncz/triggers/interval.py    | 11 ++++++++---
 6 files changed, 59 insertions(+), 23 deletions(-)

diff --git a/asyncz/schedulers/base.py b/asyncz/schedulers/base.py
index 02311fe..2dd827a 100644
--- a/asyncz/schedulers/base.py
+++ b/asyncz/schedulers/base.py
@@ -59,7 +59,13 @@ from asyncz.tasks.inspection import TaskInfo, TaskRunPreview
 from asyncz.tasks.types import TaskType
 from asyncz.triggers.types import TriggerType
 from asyncz.typing import Undefined, undefined
-from asyncz.utils import maybe_ref, timedelta_seconds, to_datetime, to_timezone_with_fallback
+from asyncz.utils import (
+    datetime_to_utc_timestamp,
+    maybe_ref,
+    timedelta_seconds,
+    to_datetime,
+    to_timezone_with_fallback,
+)
 
 if TYPE_CHECKING:
     from asyncz.protocols import LockProtectedProtocol
@@ -224,7 +230,8 @@ class BaseScheduler(SchedulerType):
         #
         min_dtime = None
         if self.lock_path:
-            min_dtime = datetime.now(self.timezone) + timedelta(seconds=self.startup_delay)
+            min_dtime = datetime.now(dttz.utc) + timedelta(seconds=self.startup_delay)
+            min_dtime = min_dtime.astimezone(self.timezone)
 
         with self.store_lock:
             if "default" not in self.stores:
@@ -871,10 +878,12 @@ class BaseScheduler(SchedulerType):
             now,
         )
 
-        if next_run_time is not None and next_run_time <= now:
+        # compare the points in time, the wall clock is ambiguous when it is set back
+        if next_run_time is not None and next_run_time.timestamp() <= now.timestamp():
             # Manual runs must always advance strictly forward so admin actions do
             # not create zero-delay feedback loops in tests or dashboards.
-            next_run_time = now + timedelta(milliseconds=1)
+            next_run_time = datetime.now(dttz.utc) + timedelta(milliseconds=1)
+            next_run_time = next_run_time.astimezone(self.timezone)
 
         try:
             if next_run_time is None and remove_finished:
@@ -1025,14 +1034,14 @@ class BaseScheduler(SchedulerType):
             "name": lambda info: ((info.name or "").lower(), (info.id or "").lower()),
             "next_run_time": lambda info: (
                 info.next_run_time is None,
-                info.next_run_time or datetime.max.replace(tzinfo=self.timezone),
+                datetime_to_utc_timestamp(info.next_run_time) or 0,
                 (info.name or "").lower(),
                 (info.id or "").lower(),
             ),
             "schedule_state": lambda info: (
                 info.schedule_state.value,
                 info.next_run_time is None,
-                info.next_run_time or datetime.max.replace(tzinfo=self.timezone),
+                datetime_to_utc_timestamp(info.next_run_time) or 0,
                 (info.id or "").lower(),
             ),
             "executor": lambda info: ((info.executor or "").lower(), (info.id or "").lower()),
@@ -1478,9 +1487,13 @@ class BaseScheduler(SchedulerType):
                 self.timezone, None, now
             )
             if min_dtime is not None and isinstance(replacements["next_run_time"], datetime):
-                replacements["next_run_time"] = max(min_dtime, replacements["next_run_time"])
+                replacements["next_run_time"] = max(
+                    min_dtime, replacements["next_run_time"], key=datetime.timestamp
+                )
         elif isinstance(task.next_run_time, datetime) and min_dtime is not None:
-            replacements["next_run_time"] = max(min_dtime, task.next_run_time)
+            replacements["next_run_time"] = max(
+                min_dtime, task.next_run_time, key=datetime.timestamp
+            )
 
         store = self.lookup_store(task.store_alias)
         # Apply replacements
diff --git a/asyncz/stores/file.py b/asyncz/stores/file.py
index c65c90d..6fcf8d7 100644
--- a/asyncz/stores/file.py
+++ b/asyncz/stores/file.py
@@ -16,6 +16,7 @@ from asyncz.file_locking import LOCK_EX, LOCK_SH, with_lock
 from asyncz.stores.base import BaseStore
 from asyncz.tasks import Task
 from asyncz.tasks.types import TaskType
+from asyncz.utils import datetime_to_utc_timestamp
 
 if TYPE_CHECKING:
     from asyncz.schedulers.types import SchedulerType
@@ -133,7 +134,7 @@ class FileStore(BaseStore):
                     tasks,
                     key=lambda task_stat: (
                         int(task_stat[0].next_run_time is None),
-                        task_stat[0].next_run_time,
+                        datetime_to_utc_timestamp(task_stat[0].next_run_time),
                         # sort for task creation not update
                         task_stat[1].st_ctime,
                     ),
@@ -145,7 +146,7 @@ class FileStore(BaseStore):
         for task in self.get_all_tasks():
             if task.next_run_time is None:
                 break
-            if next_run_time is None or next_run_time >= task.next_run_time:
+            if next_run_time is None or next_run_time.timestamp() >= task.next_run_time.timestamp():
                 next_run_time = task.next_run_time
         return next_run_time
 
diff --git a/asyncz/stores/redis.py b/asyncz/stores/redis.py
index 3bfb0df..2de91f1 100644
--- a/asyncz/stores/redis.py
+++ b/asyncz/stores/redis.py
@@ -104,7 +104,7 @@ class RedisStore(BaseStore):
         states: list[tuple[str, Any]] = self.redis.hgetall(self.tasks_key)  # type: ignore
         tasks = self.rebuild_tasks(states.items())
         paused_sort_key = datetime(9999, 12, 31, tzinfo=tz.utc)
-        return sorted(tasks, key=lambda task: task.next_run_time or paused_sort_key)
+        return sorted(tasks, key=lambda task: (task.next_run_time or paused_sort_key).timestamp())
 
     def add_task(self, task: "TaskType") -> None:
         assert task.id
diff --git a/asyncz/triggers/base.py b/asyncz/triggers/base.py
index 278db54..be258f8 100644
--- a/asyncz/triggers/base.py
+++ b/asyncz/triggers/base.py
@@ -1,5 +1,6 @@
 import random
 from datetime import datetime, timedelta
+from datetime import timezone as dttz
 from typing import Any, Optional, Union, overload
 
 from asyncz.datastructures import CombinationState
@@ -36,7 +37,13 @@ class BaseTrigger(BaseStateExtra, TriggerType):
         """
         if next_trigger_time is None or not jitter:
             return next_trigger_time
-        return next_trigger_time + timedelta(seconds=random.uniform(0, jitter))
+        delay = timedelta(seconds=random.uniform(0, jitter))
+        if next_trigger_time.tzinfo is None:
+            return next_trigger_time + delay
+        # datetime arithmetic uses the wall clock, which is ambiguous when it is set back
+        return (next_trigger_time.astimezone(dttz.utc) + delay).astimezone(
+            next_trigger_time.tzinfo
+        )
 
 
 class BaseCombinationTrigger(BaseTrigger):
diff --git a/asyncz/triggers/combination.py b/asyncz/triggers/combination.py
index 61ec201..87edfe2 100644
--- a/asyncz/triggers/combination.py
+++ b/asyncz/triggers/combination.py
@@ -1,9 +1,15 @@
 from datetime import datetime, timedelta, tzinfo
+from datetime import timezone as dttz
 from typing import ClassVar, Optional, Union
 
 from asyncz.triggers.base import BaseCombinationTrigger
 
 
+def in_utc(value: datetime) -> datetime:
+    # for comparisons and calculations, the wall clock is ambiguous when it is set back
+    return value.astimezone(dttz.utc)
+
+
 class AndTrigger(BaseCombinationTrigger):
     """
     Always returns the earliest next trigger time that all the passed triggers agree on.
@@ -21,31 +27,35 @@ class AndTrigger(BaseCombinationTrigger):
     ) -> Union[datetime, None]:
         if now is None:
             now = datetime.now(timezone)
+        now = in_utc(now)
         if previous_time is not None:
             # Search for the first common time after the previous one. The children would not
             # respect the moved lower bound if they just continue from previous_time.
-            now = previous_time + timedelta(microseconds=1)
+            now = in_utc(previous_time) + timedelta(microseconds=1)
             previous_time = None
         while True:
             trigger_times = []
             for trigger in self.triggers:
                 next_trigger_time = trigger.get_next_trigger_time(timezone, previous_time, now)
                 # skip run times in the past (e.g. of a date)
-                while next_trigger_time is not None and next_trigger_time < now:
+                while next_trigger_time is not None and in_utc(next_trigger_time) < now:
                     past_time = next_trigger_time
                     next_trigger_time = trigger.get_next_trigger_time(timezone, past_time, now)
-                    if next_trigger_time is not None and next_trigger_time <= past_time:
+                    if next_trigger_time is not None and in_utc(next_trigger_time) <= in_utc(
+                        past_time
+                    ):
                         # no progress, there is nothing left
                         return None
                 # bail out early
                 if next_trigger_time is None:
                     return None
                 trigger_times.append(next_trigger_time)
-            if min(trigger_times) == max(trigger_times):
+            latest = max(in_utc(trigger_time) for trigger_time in trigger_times)
+            if all(in_utc(trigger_time) == latest for trigger_time in trigger_times):
                 return self.apply_jitter(trigger_times[0], self.jitter, now)
             else:
                 # recheck
-                now = max(trigger_times)
+                now = latest
 
 
 class OrTrigger(BaseCombinationTrigger):
@@ -68,20 +78,20 @@ class OrTrigger(BaseCombinationTrigger):
         if previous_time is not None:
             # The previous time may be of another child. Children which just continue from it
             # would leave their own run times.
-            now = previous_time + timedelta(microseconds=1)
+            now = in_utc(previous_time) + timedelta(microseconds=1)
         trigger_times = []
         for trigger in self.triggers:
             next_trigger_time = trigger.get_next_trigger_time(timezone, None, now)
             if (
                 previous_time is not None
                 and next_trigger_time is not None
-                and next_trigger_time <= previous_time
+                and in_utc(next_trigger_time) <= in_utc(previous_time)
             ):
                 next_trigger_time = trigger.get_next_trigger_time(timezone, previous_time, now)
             if next_trigger_time is not None:
                 trigger_times.append(next_trigger_time)
 
         if trigger_times:
-            return self.apply_jitter(min(trigger_times), self.jitter, now)
+            return self.apply_jitter(min(trigger_times, key=in_utc), self.jitter, now)
         else:
             return None
diff --git a/asyncz/triggers/interval.py b/asyncz/triggers/interval.py
index fd1e70e..8a48514 100644
--- a/asyncz/triggers/interval.py
+++ b/asyncz/triggers/interval.py
@@ -58,7 +58,10 @@ class IntervalTrigger(BaseTrigger):
         else:
             self.timezone = None
 
-        start_at = start_at or (datetime.now(self.timezone) + self.interval)
+        # naive times are later interpreted in the timezone of the scheduler
+        start_at = start_at or self.add_absolute(
+            datetime.now(self.timezone or dttz.utc), self.interval
+        )
         self.start_at = to_datetime(start_at, self.timezone, "start_at", require_tz=False)
         self.end_at = to_datetime(end_at, self.timezone, "end_at", require_tz=False)
 
@@ -80,11 +83,13 @@ class IntervalTrigger(BaseTrigger):
         start_at = (
             self.start_at.replace(tzinfo=timezone)
             if self.start_at and self.start_at.tzinfo is None
+            else self.start_at.astimezone(timezone)
+            if self.timezone is None
             else self.start_at
         )
         if previous_time:
             next_trigger_time = self.add_absolute(previous_time, self.interval)
-        elif start_at > now:
+        elif start_at.astimezone(dttz.utc) > now.astimezone(dttz.utc):
             next_trigger_time = start_at
         else:
             # exact (floats are not), rounded up
@@ -102,7 +107,7 @@ class IntervalTrigger(BaseTrigger):
             else self.end_at
         )
 
-        if not end_at or next_trigger_time <= end_at:
+        if not end_at or next_trigger_time.astimezone(dttz.utc) <= end_at.astimezone(dttz.utc):
             return normalize(value=next_trigger_time)
         return None
 
-- 
2.43.0


From ca6f87b57cc5e1ab411b992ac97e9b544bfcc347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:49 +0000
Subject: [PATCH 28/63] fix: executors which were not started yet can be
 removed

---
 asyncz/executors/asyncio.py      | 4 ++++
 asyncz/executors/process_pool.py | 3 ++-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/asyncz/executors/asyncio.py b/asyncz/executors/asyncio.py
index e88a40a..acecd1e 100644
--- a/asyncz/executors/asyncio.py
+++ b/asyncz/executors/asyncio.py
@@ -26,6 +26,10 @@ class AsyncIOExecutor(BaseExecutor):
         self.pending_futures: set[Any] = set()
 
     def shutdown(self, wait: bool = True) -> None:
+        if not hasattr(self, "pending_futures"):
+            # never started
+            return
+
         for f in self.pending_futures:
             if not f.done():
                 f.cancel()
diff --git a/asyncz/executors/process_pool.py b/asyncz/executors/process_pool.py
index 286052e..487a13c 100644
--- a/asyncz/executors/process_pool.py
+++ b/asyncz/executors/process_pool.py
@@ -79,4 +79,5 @@ class ProcessPoolExecutor(BasePoolExecutor):
     def shutdown(self, wait: bool = True) -> None:
         super().shutdown(wait=wait)
         self.send_pipe.close()
-        self.logger_receiver.join()
+        if hasattr(self, "logger_receiver"):
+            self.logger_receiver.join()
-- 
2.43.0


From a908fcbd0f428067391067451948f0352ac2f279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:14 +0000
Subject: [PATCH 29/63] fix: looking up a record which cannot be restored does
 not raise in the redis and mongodb stores

---
 asyncz/stores/mongo.py | 6 +++---
 asyncz/stores/redis.py | 7 +++++--
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/asyncz/stores/mongo.py b/asyncz/stores/mongo.py
index 10327c0..9415b55 100644
--- a/asyncz/stores/mongo.py
+++ b/asyncz/stores/mongo.py
@@ -62,8 +62,8 @@ class MongoDBStore(BaseStore):
         self.collection.create_index("next_run_time", sparse=True)
 
     def lookup_task(self, task_id: str) -> Optional["TaskType"]:
-        document = self.collection.find_one(task_id, ["state"])
-        return self.rebuild_task(document["state"]) if document else None
+        tasks = self.get_tasks({"_id": task_id})
+        return tasks[0] if tasks else None
 
     def rebuild_task(self, state: Any) -> "TaskType":
         state = self.deserialize_task_state(pickle.loads(self.conditional_decrypt(state)))
@@ -86,7 +86,7 @@ class MongoDBStore(BaseStore):
         ):
             try:
                 tasks.append(self.rebuild_task(document["state"]))
-            except BaseException:
+            except Exception:
                 doc_id = document["_id"]
                 cast("SchedulerType", self.scheduler).loggers[self.logger_name].exception(
                     f"Unable to restore task '{doc_id}'. Removing it..."
diff --git a/asyncz/stores/redis.py b/asyncz/stores/redis.py
index 2de91f1..991e53c 100644
--- a/asyncz/stores/redis.py
+++ b/asyncz/stores/redis.py
@@ -55,7 +55,10 @@ class RedisStore(BaseStore):
 
     def lookup_task(self, task_id: str) -> Optional["TaskType"]:
         state = self.redis.hget(self.tasks_key, task_id)
-        return self.rebuild_task(state) if state else None
+        if state is None:
+            return None
+        tasks = self.rebuild_tasks([(task_id, state)])
+        return tasks[0] if tasks else None
 
     def rebuild_task(self, state: Any) -> "TaskType":
         state = self.deserialize_task_state(pickle.loads(self.conditional_decrypt(state)))
@@ -80,7 +83,7 @@ class RedisStore(BaseStore):
         for task_id, state in states:
             try:
                 tasks.append(self.rebuild_task(state))
-            except BaseException:
+            except Exception:
                 cast("SchedulerType", self.scheduler).loggers[self.logger_name].exception(
                     f"Unable to restore task '{task_id}'. Removing it..."
                 )
-- 
2.43.0


From 434d447e8e1f60e13b7c18fbdafb0ad96680d4b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:14 +0000
Subject: [PATCH 30/63] fix: run times before 1970 are due in the redis store

---
 asyncz/stores/redis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asyncz/stores/redis.py b/asyncz/stores/redis.py
index 991e53c..e22cc1c 100644
--- a/asyncz/stores/redis.py
+++ b/asyncz/stores/redis.py
@@ -70,7 +70,7 @@ class RedisStore(BaseStore):
 
     def get_due_tasks(self, now: datetime) -> list["TaskType"]:
         timestamp = datetime_to_utc_timestamp(now)
-        ids: list[str] = self.redis.zrangebyscore(self.run_times_key, 0, timestamp)  # type: ignore
+        ids: list[str] = self.redis.zrangebyscore(self.run_times_key, "-inf", timestamp)  # type: ignore
         if not ids:
             return []
         states: list[Any] = self.redis.hmget(self.tasks_key, ids)  # type: ignore
-- 
2.43.0


From 0c8c642ef98bbb22892ab58cc6d02cf63f7b7be6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:08 +0000
Subject: [PATCH 31/63] fix: records of the file store which fail to decode
 with an OSError are handled as broken and only the read record is removed

---
 asyncz/stores/file.py | 52 +++++++++++++++++++++++++------------------
 1 file changed, 30 insertions(+), 22 deletions(-)

diff --git a/asyncz/stores/file.py b/asyncz/stores/file.py
index 6fcf8d7..c6ae878 100644
--- a/asyncz/stores/file.py
+++ b/asyncz/stores/file.py
@@ -34,6 +34,8 @@ class FileStore(BaseStore):
     """
 
     forbidden_characters: set[str] = {"/", "\\", "\0", ":"}
+    # unfinished writes, task ids cannot start with a dot
+    temporary_prefix: str = ".asyncz-"
 
     def __init__(
         self,
@@ -78,17 +80,28 @@ class FileStore(BaseStore):
         self.check_task_id(task_id)
         task_path = self.directory / f"{task_id}{self.suffix}"
         try:
-            with open(task_path, "rb") as read_ob, with_lock(read_ob, LOCK_SH):
-                task = self.rebuild_task(read_ob.read())
+            return self.read_task(task_path)
         except FileNotFoundError:
-            task = None
-        except OSError:
-            # not readable right now (e.g. too many open files), the record itself is not broken
-            raise
-        except Exception:
-            task_path.unlink(missing_ok=True)
-            task = None
-        return task
+            return None
+
+    def read_task(self, task_path: Path) -> Optional[TaskType]:
+        """
+        Read and restore one task, a record which cannot be restored is removed.
+
+        OSErrors are passed on, when the file is not readable right now (e.g. too many open files)
+        the record is not broken.
+        """
+        with open(task_path, "rb") as read_ob:
+            with with_lock(read_ob, LOCK_SH):
+                state = read_ob.read()
+            try:
+                return self.rebuild_task(state)
+            except Exception:
+                # only remove the record which was read, it could be replaced in the meantime
+                with suppress(FileNotFoundError), self.locked_task_file(task_path):
+                    if os.path.samestat(os.fstat(read_ob.fileno()), os.stat(task_path)):
+                        task_path.unlink()
+                return None
 
     def rebuild_task(self, state: Any) -> TaskType:
         state = self.deserialize_task_state(pickle.loads(self.conditional_decrypt(state)))
@@ -110,24 +123,19 @@ class FileStore(BaseStore):
         tasks: list[tuple[TaskType, os.stat_result]] = []
         with os.scandir(self.directory) as scanner:
             for entry in scanner:
-                # hidden files are unfinished writes
-                if entry.name.startswith(".") or not entry.name.endswith(self.suffix):
+                if entry.name.startswith(self.temporary_prefix) or not entry.name.endswith(
+                    self.suffix
+                ):
                     continue
                 if not entry.is_file():
                     continue
                 try:
-                    with open(entry.path, "rb") as read_ob, with_lock(read_ob, LOCK_SH):
-                        task = self.rebuild_task(read_ob.read())
-                    tasks.append((task, entry.stat()))
+                    task = self.read_task(Path(entry.path))
+                    if task is not None:
+                        tasks.append((task, entry.stat()))
                 except FileNotFoundError:
                     # removed in the meantime
                     continue
-                except OSError:
-                    # not readable right now (e.g. too many open files), keep the record
-                    raise
-                except Exception:
-                    with suppress(FileNotFoundError):
-                        os.unlink(entry.path)
             return [
                 task
                 for task, _ in sorted(
@@ -169,7 +177,7 @@ class FileStore(BaseStore):
         Write the record of the task to a temporary file first, so neither other processes nor
         a crash can ever expose a partially written record.
         """
-        new_path = self.directory / f".{uuid4().hex}.tmp"
+        new_path = self.directory / f"{self.temporary_prefix}{uuid4().hex}"
         try:
             with new_path.open("xb") as write_ob:
                 write_ob.write(
-- 
2.43.0


From 18252bbd2c592c828d867133382391865acde734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:48 +0000
Subject: [PATCH 32/63] fix: removing all tasks of the file store does not race
 with updates

---
 asyncz/stores/file.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/asyncz/stores/file.py b/asyncz/stores/file.py
index c6ae878..3585057 100644
--- a/asyncz/stores/file.py
+++ b/asyncz/stores/file.py
@@ -222,7 +222,9 @@ class FileStore(BaseStore):
 
     def remove_all_tasks(self) -> None:
         for task_path in self.directory.glob(f"*{glob.escape(self.suffix)}"):
-            task_path.unlink(missing_ok=True)
+            # with lock, otherwise a concurrent update could bring back the task
+            with suppress(FileNotFoundError), self.locked_task_file(task_path):
+                task_path.unlink()
 
     def __repr__(self) -> str:
         return f"<{self.__class__.__name__} (directory={self.directory})>"
-- 
2.43.0


From a890fda6994d546965468cc74d610935af5113e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:14 +0000
Subject: [PATCH 33/63] fix: a forked child does not keep the file lock of its
 dead parent

---
 asyncz/locks.py | 37 ++++++++++++++++++++++++++++---------
 1 file changed, 28 insertions(+), 9 deletions(-)

diff --git a/asyncz/locks.py b/asyncz/locks.py
index d064ca8..f60518d 100644
--- a/asyncz/locks.py
+++ b/asyncz/locks.py
@@ -4,7 +4,7 @@ import os
 from collections.abc import Generator
 from contextlib import contextmanager, suppress
 from threading import Lock, RLock
-from typing import Any, Optional
+from typing import IO, Any, Optional
 
 from .file_locking import LOCK_EX, LOCK_NB, lock, unlock
 from .protocols import LockProtectedProtocol
@@ -48,6 +48,21 @@ class RLockProtected(LockProtected):
         return RLock()
 
 
+# The locks are shared with forked children, e.g. the workers of a process pool. A child must not
+# keep them when its parent dies.
+_locked_files: set[IO] = set()
+
+
+def _close_locked_files() -> None:
+    for file in _locked_files:
+        file.close()
+    _locked_files.clear()
+
+
+if hasattr(os, "register_at_fork"):
+    os.register_at_fork(after_in_child=_close_locked_files)
+
+
 class FileLockProtected(LockProtectedProtocol):
     file_path: str
 
@@ -67,16 +82,20 @@ class FileLockProtected(LockProtectedProtocol):
             flags = LOCK_EX
             if not blocking:
                 flags |= LOCK_NB
-            locked = lock(file, flags)
-            if locked and not self.is_current(file):
-                # the lock file was removed by a shutdown, another process may hold a new one
-                unlock(file)
-                locked = False
+            _locked_files.add(file)
             try:
-                yield locked
-            finally:
-                if locked:
+                locked = lock(file, flags)
+                if locked and not self.is_current(file):
+                    # the lock file was removed by a shutdown, another process may hold a new one
                     unlock(file)
+                    locked = False
+                try:
+                    yield locked
+                finally:
+                    if locked and not file.closed:
+                        unlock(file)
+            finally:
+                _locked_files.discard(file)
 
     def is_current(self, file: Any) -> bool:
         try:
-- 
2.43.0


From 57036b0103fe87afe5d19a676c2de5479112cbac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:48 +0000
Subject: [PATCH 34/63] fix: a store that cannot be locked does not end the
 processing

---
 asyncz/schedulers/base.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/asyncz/schedulers/base.py b/asyncz/schedulers/base.py
index 2dd827a..34c5872 100644
--- a/asyncz/schedulers/base.py
+++ b/asyncz/schedulers/base.py
@@ -1739,9 +1739,18 @@ class BaseScheduler(SchedulerType):
                 # threading lock
                 with self.store_lock:
                     for store_alias, store in self.stores.items():
-                        next_wakeup_time = self._process_tasks_of_store(
-                            now, next_wakeup_time, store_alias, store, events
-                        )
+                        try:
+                            next_wakeup_time = self._process_tasks_of_store(
+                                now, next_wakeup_time, store_alias, store, events
+                            )
+                        except Exception as e:
+                            # e.g. the lock file cannot be opened
+                            self.loggers[self.logger_name].warning(
+                                f'Error processing the store "{store_alias}": {e}.'
+                            )
+                            retry_wakeup_time = now + timedelta(seconds=self.store_retry_interval)
+                            if not next_wakeup_time or next_wakeup_time > retry_wakeup_time:
+                                next_wakeup_time = retry_wakeup_time
             else:
                 retry_wakeup_time = now + timedelta(seconds=self.store_retry_interval)
                 if not next_wakeup_time or next_wakeup_time > retry_wakeup_time:
-- 
2.43.0


From d84a64e34b8f5315beb3f50c08f860ad34dbeccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:25 +0000
Subject: [PATCH 35/63] fix: the remote client passes on options that are None

A task added with next_run_time=None (paused) or mistrigger_grace_time=None (no limit) got
the defaults instead.
---
 asyncz/contrib/dashboard/remote.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asyncz/contrib/dashboard/remote.py b/asyncz/contrib/dashboard/remote.py
index ec53e29..6fd4c0c 100644
--- a/asyncz/contrib/dashboard/remote.py
+++ b/asyncz/contrib/dashboard/remote.py
@@ -862,7 +862,7 @@ class RemoteSchedulerClient:
             "store": store,
             "executor": executor,
         }.items():
-            if value is not undefined and value is not None:
+            if value is not undefined:
                 payload[key] = value
         data = self._request("POST", "/tasks", payload)
         task = self._task_from_data(data)
-- 
2.43.0


From 354f9886b3b6679c7375060ef1cef4bec55839d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:25 +0000
Subject: [PATCH 36/63] fix: update tasks with triggers and callables through
 the remote client

Their encoding raised PydanticSerializationError in the client.
---
 asyncz/contrib/dashboard/remote.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/asyncz/contrib/dashboard/remote.py b/asyncz/contrib/dashboard/remote.py
index 6fd4c0c..d265bca 100644
--- a/asyncz/contrib/dashboard/remote.py
+++ b/asyncz/contrib/dashboard/remote.py
@@ -463,11 +463,12 @@ def create_remote_scheduler_app(scheduler: SchedulerType, *, token: str | None =
         if response := _require_token(request, token):
             return response
         task_id = request.path_params["task_id"]
-        body = await _json_body(request)
         try:
-            task = scheduler.update_task(
-                task_id, body.get("store"), **dict(body.get("updates") or {})
-            )
+            body = await _json_body(request)
+            updates = dict(body.get("updates") or {})
+            if body.get("trigger_pickle"):
+                updates["trigger"] = _decode_trigger(str(body["trigger_pickle"]))
+            task = scheduler.update_task(task_id, body.get("store"), **updates)
         except TaskLookupError as exc:
             return _error(exc, status_code=404, task_id=task_id)
         except Exception as exc:
@@ -879,10 +880,15 @@ class RemoteSchedulerClient:
 
         if isinstance(task_id, RemoteTask):
             task_id = task_id.id
+        payload: dict[str, Any] = {"store": store, "updates": updates}
+        if isinstance(updates.get("trigger"), TriggerType):
+            payload["trigger_pickle"] = _encode_trigger(updates.pop("trigger"))
+        if callable(updates.get("fn")):
+            updates["fn"] = obj_to_ref(updates["fn"])
         data = self._request(
             "PATCH",
             f"/tasks/{urllib.parse.quote(str(task_id), safe='')}",
-            {"store": store, "updates": updates},
+            payload,
         )
         task = self._task_from_data(data)
         assert task is not None
-- 
2.43.0


From a75397e5f35fd26af602af2bc5483ced47c2cab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:25 +0000
Subject: [PATCH 37/63] fix: the remote preview honours its reference time

The now argument was sent but never read; an invalid count was an internal server error.
---
 asyncz/contrib/dashboard/remote.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/asyncz/contrib/dashboard/remote.py b/asyncz/contrib/dashboard/remote.py
index d265bca..cbef832 100644
--- a/asyncz/contrib/dashboard/remote.py
+++ b/asyncz/contrib/dashboard/remote.py
@@ -402,12 +402,16 @@ def create_remote_scheduler_app(scheduler: SchedulerType, *, token: str | None =
         if response := _require_token(request, token):
             return response
         task_id = request.path_params["task_id"]
-        count = int(request.query_params.get("count") or 5)
-        result = scheduler.preview_task_runs(
-            task_id,
-            request.query_params.get("store") or None,
-            count=count,
-        )
+        now = request.query_params.get("now")
+        try:
+            result = scheduler.preview_task_runs(
+                task_id,
+                request.query_params.get("store") or None,
+                count=int(request.query_params.get("count") or 5),
+                now=datetime.fromisoformat(now) if now else None,
+            )
+        except Exception as exc:
+            return _error(exc, status_code=400, task_id=task_id)
         if result is None:
             return _error(TaskLookupError(task_id), status_code=404, task_id=task_id)
         return _success(result)
-- 
2.43.0


From 66010fe735640ad5a1223c9095df97d1bf5b23b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:25 +0000
Subject: [PATCH 38/63] fix: the remote control reaches tasks whose ids contain
 slashes

---
 asyncz/contrib/dashboard/remote.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/asyncz/contrib/dashboard/remote.py b/asyncz/contrib/dashboard/remote.py
index cbef832..e8130fa 100644
--- a/asyncz/contrib/dashboard/remote.py
+++ b/asyncz/contrib/dashboard/remote.py
@@ -526,16 +526,17 @@ def create_remote_scheduler_app(scheduler: SchedulerType, *, token: str | None =
             RoutePath("/instances", instances, methods=["GET"], name="instances"),
             RoutePath("/tasks", tasks, methods=["GET"], name="tasks"),
             RoutePath("/tasks", add_task, methods=["POST"], name="add_task"),
-            RoutePath("/tasks/{task_id:str}", task_detail, methods=["GET"], name="task"),
-            RoutePath("/tasks/{task_id:str}", update_task, methods=["PATCH"], name="update_task"),
+            # task ids may contain slashes
             RoutePath(
-                "/tasks/{task_id:str}/preview",
+                "/tasks/{task_id:path}/preview",
                 preview,
                 methods=["GET"],
                 name="preview_task",
             ),
+            RoutePath("/tasks/{task_id:path}", task_detail, methods=["GET"], name="task"),
+            RoutePath("/tasks/{task_id:path}", update_task, methods=["PATCH"], name="update_task"),
             RoutePath(
-                "/tasks/{task_id:str}/{action:str}",
+                "/tasks/{task_id:path}/{action:str}",
                 task_action,
                 methods=["POST"],
                 name="task_action",
-- 
2.43.0


From c04445f4320fdda603453997f8ad6d9b9de56e00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:25 +0000
Subject: [PATCH 39/63] fix: every failure of the remote scheduler is a typed
 error

Failures of the worker outside the guarded part, and answers which are not JSON, surfaced
as JSONDecodeError or OSError in the client.
---
 asyncz/contrib/dashboard/remote.py | 77 +++++++++++++++++-------------
 1 file changed, 45 insertions(+), 32 deletions(-)

diff --git a/asyncz/contrib/dashboard/remote.py b/asyncz/contrib/dashboard/remote.py
index e8130fa..9361af8 100644
--- a/asyncz/contrib/dashboard/remote.py
+++ b/asyncz/contrib/dashboard/remote.py
@@ -17,6 +17,7 @@ import urllib.request
 from collections.abc import Callable, Mapping
 from datetime import datetime
 from enum import Enum
+from http.client import HTTPException
 from typing import Any
 
 from lilya.requests import Request
@@ -334,7 +335,10 @@ def create_remote_scheduler_app(scheduler: SchedulerType, *, token: str | None =
 
         if response := _require_token(request, token):
             return response
-        return _success(scheduler.get_scheduler_info())
+        try:
+            return _success(scheduler.get_scheduler_info())
+        except Exception as exc:
+            return _error(exc)
 
     async def instances(request: Request) -> JSONResponse:
         """
@@ -346,7 +350,10 @@ def create_remote_scheduler_app(scheduler: SchedulerType, *, token: str | None =
 
         if response := _require_token(request, token):
             return response
-        return _success(list(scheduler.get_scheduler_instance_infos()))
+        try:
+            return _success(list(scheduler.get_scheduler_instance_infos()))
+        except Exception as exc:
+            return _error(exc)
 
     async def tasks(request: Request) -> JSONResponse:
         """
@@ -386,7 +393,10 @@ def create_remote_scheduler_app(scheduler: SchedulerType, *, token: str | None =
         if response := _require_token(request, token):
             return response
         task_id = request.path_params["task_id"]
-        task = scheduler.get_task_info(task_id, request.query_params.get("store") or None)
+        try:
+            task = scheduler.get_task_info(task_id, request.query_params.get("store") or None)
+        except Exception as exc:
+            return _error(exc, task_id=task_id)
         if task is None:
             return _error(TaskLookupError(task_id), status_code=404, task_id=task_id)
         return _success(task)
@@ -426,31 +436,31 @@ def create_remote_scheduler_app(scheduler: SchedulerType, *, token: str | None =
 
         if response := _require_token(request, token):
             return response
-        body = await _json_body(request)
-        trigger: Any
-        trigger_args = dict(body.get("trigger_args") or {})
-        if body.get("trigger_pickle"):
-            trigger = _decode_trigger(str(body["trigger_pickle"]))
-        else:
-            trigger = body.get("trigger")
-        kwargs = {
-            key: body[key]
-            for key in (
-                "id",
-                "name",
-                "args",
-                "kwargs",
-                "mistrigger_grace_time",
-                "coalesce",
-                "max_instances",
-                "next_run_time",
-                "store",
-                "executor",
-                "replace_existing",
-            )
-            if key in body
-        }
         try:
+            body = await _json_body(request)
+            trigger: Any
+            trigger_args = dict(body.get("trigger_args") or {})
+            if body.get("trigger_pickle"):
+                trigger = _decode_trigger(str(body["trigger_pickle"]))
+            else:
+                trigger = body.get("trigger")
+            kwargs = {
+                key: body[key]
+                for key in (
+                    "id",
+                    "name",
+                    "args",
+                    "kwargs",
+                    "mistrigger_grace_time",
+                    "coalesce",
+                    "max_instances",
+                    "next_run_time",
+                    "store",
+                    "executor",
+                    "replace_existing",
+                )
+                if key in body
+            }
             task = scheduler.add_task(body.get("fn"), trigger=trigger, **kwargs, **trigger_args)
         except Exception as exc:
             return _error(exc, status_code=400)
@@ -491,9 +501,9 @@ def create_remote_scheduler_app(scheduler: SchedulerType, *, token: str | None =
             return response
         task_id = request.path_params["task_id"]
         action = request.path_params["action"]
-        body = await _json_body(request)
-        store = body.get("store")
         try:
+            body = await _json_body(request)
+            store = body.get("store")
             if action == "run":
                 task = scheduler.run_task(
                     task_id,
@@ -626,9 +636,12 @@ class RemoteSchedulerClient:
                 body = response.read().decode() or "{}"
                 return response.status, json.loads(body)
         except urllib.error.HTTPError as exc:
-            body = exc.read().decode() or "{}"
-            return exc.code, json.loads(body)
-        except urllib.error.URLError as exc:
+            try:
+                body = exc.read().decode() or "{}"
+                return exc.code, json.loads(body)
+            except ValueError:
+                raise RemoteSchedulerError(f"Remote scheduler request failed: {exc}") from exc
+        except (OSError, HTTPException, ValueError) as exc:
             raise RemoteSchedulerError(f"Remote scheduler request failed: {exc}") from exc
 
     def _request(
-- 
2.43.0


From 29467114e708e9ca27eff876436e37bd99cc3fc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:25 +0000
Subject: [PATCH 40/63] fix: dashboard actions on tasks tell about every
 failure

Any error besides an unknown task or too many instances was an internal server error, ended a
bulk action in the middle and was missing from the audit trail.
---
 asyncz/contrib/dashboard/controllers/tasks.py | 31 +++++++++++++++++++
 1 file changed, 31 insertions(+)

diff --git a/asyncz/contrib/dashboard/controllers/tasks.py b/asyncz/contrib/dashboard/controllers/tasks.py
index ba805fa..fd5a973 100644
--- a/asyncz/contrib/dashboard/controllers/tasks.py
+++ b/asyncz/contrib/dashboard/controllers/tasks.py
@@ -216,6 +216,13 @@ def _audit_task_action(
     )
 
 
+def _audit_task_failure(
+    request: Request, action: str, task_id: str | None, exc: Exception
+) -> None:
+    add_message(request, "error", str(exc))
+    _audit_task_action(action, task_id, status="failed", message=str(exc))
+
+
 class TasklistController(DashboardMixin, TemplateController):
     """
     Renders the main task management dashboard page, displaying a list of all scheduled tasks.
@@ -270,6 +277,8 @@ class TaskRunController(_BaseTaskAction):
             _audit_task_action("run", task_id, status="warning", message=str(exc))
         except TaskLookupError:
             _audit_task_action("run", task_id, status="failed", message="Task was not found.")
+        except Exception as exc:
+            _audit_task_failure(request, "run", task_id, exc)
         return await self._redirect()
 
 
@@ -284,6 +293,8 @@ class TaskPauseController(_BaseTaskAction):
             _audit_task_action("pause", task_id, message=f"Paused task {task_id}.")
         except TaskLookupError:
             _audit_task_action("pause", task_id, status="failed", message="Task was not found.")
+        except Exception as exc:
+            _audit_task_failure(request, "pause", task_id, exc)
         return await self._redirect()
 
 
@@ -298,6 +309,8 @@ class TaskResumeController(_BaseTaskAction):
             _audit_task_action("resume", task_id, message=f"Resumed task {task_id}.")
         except TaskLookupError:
             _audit_task_action("resume", task_id, status="failed", message="Task was not found.")
+        except Exception as exc:
+            _audit_task_failure(request, "resume", task_id, exc)
         return await self._redirect()
 
 
@@ -312,6 +325,8 @@ class TaskRemoveController(_BaseTaskAction):
             _audit_task_action("remove", task_id, message=f"Removed task {task_id}.")
         except TaskLookupError:
             _audit_task_action("remove", task_id, status="failed", message="Task was not found.")
+        except Exception as exc:
+            _audit_task_failure(request, "remove", task_id, exc)
         return await self._redirect()
 
 
@@ -608,6 +623,8 @@ class TaskBulkPauseController(DashboardMixin, Controller):
                     "pause", task_id, status="failed", message="Task was not found."
                 )
                 continue
+            except Exception as exc:
+                _audit_task_failure(request, "pause", task_id, exc)
 
         context = await self.get_context_data(request)
         return await render_table(self.scheduler, request, context)
@@ -635,6 +652,8 @@ class TaskBulkRunController(DashboardMixin, Controller):
             except TaskLookupError:
                 _audit_task_action("run", task_id, status="failed", message="Task was not found.")
                 continue
+            except Exception as exc:
+                _audit_task_failure(request, "run", task_id, exc)
 
         # Return refreshed table fragment for HTMX swap
         context = await self.get_context_data(request)
@@ -664,6 +683,8 @@ class TaskBulkResumeController(DashboardMixin, Controller):
                     "resume", task_id, status="failed", message="Task was not found."
                 )
                 continue
+            except Exception as exc:
+                _audit_task_failure(request, "resume", task_id, exc)
 
         context = await self.get_context_data(request)
         return await render_table(self.scheduler, request, context)
@@ -690,6 +711,8 @@ class TaskBulkRemoveController(DashboardMixin, Controller):
                     "remove", task_id, status="failed", message="Task was not found."
                 )
                 continue
+            except Exception as exc:
+                _audit_task_failure(request, "remove", task_id, exc)
 
         context = await self.get_context_data(request)
         return await render_table(self.scheduler, request, context)
@@ -712,6 +735,8 @@ class TaskHXRunController(DashboardMixin, Controller):
             _audit_task_action("run", task_id, status="warning", message=str(exc))
         except TaskLookupError:
             _audit_task_action("run", task_id, status="failed", message="Task was not found.")
+        except Exception as exc:
+            _audit_task_failure(request, "run", task_id, exc)
 
         context = await self.get_context_data(request)
         return await render_table(self.scheduler, request, context)
@@ -731,6 +756,8 @@ class TaskHXPauseController(DashboardMixin, Controller):
             _audit_task_action("pause", task_id, message=f"Paused task {task_id}.")
         except TaskLookupError:
             _audit_task_action("pause", task_id, status="failed", message="Task was not found.")
+        except Exception as exc:
+            _audit_task_failure(request, "pause", task_id, exc)
 
         context = await self.get_context_data(request)
         return await render_table(self.scheduler, request, context)
@@ -750,6 +777,8 @@ class TaskHXResumeController(DashboardMixin, Controller):
             _audit_task_action("resume", task_id, message=f"Resumed task {task_id}.")
         except TaskLookupError:
             _audit_task_action("resume", task_id, status="failed", message="Task was not found.")
+        except Exception as exc:
+            _audit_task_failure(request, "resume", task_id, exc)
 
         context = await self.get_context_data(request)
         return await render_table(self.scheduler, request, context)
@@ -770,6 +799,8 @@ class TaskHXRemoveController(DashboardMixin, Controller):
             _audit_task_action("remove", task_id, message=f"Removed task {task_id}.")
         except TaskLookupError:
             _audit_task_action("remove", task_id, status="failed", message="Task was not found.")
+        except Exception as exc:
+            _audit_task_failure(request, "remove", task_id, exc)
 
         context = await self.get_context_data(request)
         return await render_table(self.scheduler, request, context)
-- 
2.43.0


From 81baedd6b5ec27a62bd201852f60a1b83bc3fc5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:25 +0000
Subject: [PATCH 41/63] fix: a task that cannot be created from the dashboard
 is a failed action

Invalid JSON arguments and errors of the scheduler were internal server errors without an
audit record.
---
 asyncz/contrib/dashboard/controllers/tasks.py | 25 +++++++++----------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/asyncz/contrib/dashboard/controllers/tasks.py b/asyncz/contrib/dashboard/controllers/tasks.py
index fd5a973..a7e54b7 100644
--- a/asyncz/contrib/dashboard/controllers/tasks.py
+++ b/asyncz/contrib/dashboard/controllers/tasks.py
@@ -427,17 +427,26 @@ class TaskCreateController(DashboardMixin, Controller):
         # Parse args/kwargs JSON
         raw_args: str = (form.get("args") or "").strip()
         raw_kwargs: str = (form.get("kwargs") or "").strip()
-        args: list[Any] = json.loads(raw_args) if raw_args else []
-        kwargs: dict[str, Any] = json.loads(raw_kwargs) if raw_kwargs else {}
 
-        # Import callable and parse trigger
+        # Import callable, parse trigger and add the task to the scheduler
         try:
+            args: list[Any] = _parse_json_list(raw_args)
+            kwargs: dict[str, Any] = _parse_json_object(raw_kwargs)
             func: Callable[..., Any] | str
             if getattr(self.scheduler, "is_remote", False):
                 func = callable_path
             else:
                 func = import_callable(callable_path)
             trigger_alias, trigger_args = parse_trigger_config(trigger_type, trigger_value)
+            task = self.scheduler.add_task(
+                func,
+                trigger=trigger_alias,
+                args=args,
+                kwargs=kwargs,
+                name=name,
+                store=store_alias,
+                **trigger_args,
+            )
         except Exception as e:
             message = str(e)
             add_message(request, "error", f"{message}")
@@ -451,16 +460,6 @@ class TaskCreateController(DashboardMixin, Controller):
             context = await self.get_context_data(request)
             return await render_table(self.scheduler, request, context)
 
-        # Add task to the scheduler
-        task = self.scheduler.add_task(
-            func,
-            trigger=trigger_alias,
-            args=args,
-            kwargs=kwargs,
-            name=name,
-            store=store_alias,
-            **trigger_args,
-        )
         _audit_task_action(
             "create",
             task.id,
-- 
2.43.0


From 3e9b58615d82be5978ffda32ac4f4524ef930a9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:25 +0000
Subject: [PATCH 42/63] fix: an edit from the dashboard that the scheduler
 refuses is a failed action

---
 asyncz/contrib/dashboard/controllers/tasks.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/asyncz/contrib/dashboard/controllers/tasks.py b/asyncz/contrib/dashboard/controllers/tasks.py
index a7e54b7..efc74e7 100644
--- a/asyncz/contrib/dashboard/controllers/tasks.py
+++ b/asyncz/contrib/dashboard/controllers/tasks.py
@@ -585,7 +585,19 @@ class TaskEditController(DashboardMixin, Controller):
                 diff=diff,
             )
 
-        updated = self.scheduler.update_task(task_id, store_alias, **updates)
+        try:
+            updated = self.scheduler.update_task(task_id, store_alias, **updates)
+        except Exception as exc:
+            _audit_task_action("update", task_id, status="failed", message=str(exc))
+            return await self._render(
+                request,
+                task=task,
+                store_alias=store_alias,
+                form=form,
+                diff=diff,
+                errors=[str(exc)],
+                status_code=400,
+            )
         _audit_task_action(
             "update",
             task_id,
-- 
2.43.0


From 0d57d03989d496a29d5a54afda74e42429cd1536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:28:54 +0000
Subject: [PATCH 43/63] fix: the run history is not torn by announcements from
 two threads

---
 asyncz/contrib/dashboard/history.py | 52 ++++++++++++++++-------------
 1 file changed, 29 insertions(+), 23 deletions(-)

diff --git a/asyncz/contrib/dashboard/history.py b/asyncz/contrib/dashboard/history.py
index 0bc53e4..bfec126 100644
--- a/asyncz/contrib/dashboard/history.py
+++ b/asyncz/contrib/dashboard/history.py
@@ -174,18 +174,20 @@ class MemoryRunHistoryStorage:
                 scheduler_identity=event.scheduler_identity,
                 now=now,
             )
-            was_terminal = record.status in TERMINAL_STATUSES
-            record.source = source
-            record.coalesced_run_count = max(
-                record.coalesced_run_count,
-                event.coalesced_run_count,
-            )
-            record.submitted_at = record.submitted_at or (record.finished_at or now)
-            if record.status not in TERMINAL_STATUSES:
-                record.status = status
-            if status == "max_instances":
-                record.finished_at = record.finished_at or now
-            record.updated_at = now
+            # the outcome may be announced by another thread at the same time
+            with self._lock:
+                was_terminal = record.status in TERMINAL_STATUSES
+                record.source = source
+                record.coalesced_run_count = max(
+                    record.coalesced_run_count,
+                    event.coalesced_run_count,
+                )
+                record.submitted_at = record.submitted_at or (record.finished_at or now)
+                if record.status not in TERMINAL_STATUSES:
+                    record.status = status
+                if status == "max_instances":
+                    record.finished_at = record.finished_at or now
+                record.updated_at = now
             records.append(record)
 
             if log_storage is not None:
@@ -222,17 +224,21 @@ class MemoryRunHistoryStorage:
             scheduler_identity=event.scheduler_identity,
             now=now,
         )
-        record.finished_at = now
-        record.submitted_at = record.submitted_at or now
-        record.status = _status_from_execution_code(event.code)
-        record.return_value = (
-            _safe_repr(event.return_value) if event.return_value is not None else None
-        )
-        record.exception_type = _exception_type(event.exception)
-        record.exception_message = _safe_str(event.exception)
-        record.exception = _safe_repr(event.exception) if event.exception is not None else None
-        record.traceback = event.traceback
-        record.updated_at = now
+        status = _status_from_execution_code(event.code)
+        return_value = _safe_repr(event.return_value) if event.return_value is not None else None
+        exception_type = _exception_type(event.exception)
+        exception_message = _safe_str(event.exception)
+        exception = _safe_repr(event.exception) if event.exception is not None else None
+        with self._lock:
+            record.finished_at = now
+            record.submitted_at = record.submitted_at or now
+            record.status = status
+            record.return_value = return_value
+            record.exception_type = exception_type
+            record.exception_message = exception_message
+            record.exception = exception
+            record.traceback = event.traceback
+            record.updated_at = now
 
         if log_storage is not None:
             if record.status == "succeeded":
-- 
2.43.0


From d6fe40442fe214760e3646d5c582a67efefea5bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:28:54 +0000
Subject: [PATCH 44/63] fix: runs whose ids contain the separator get their own
 history records

---
 asyncz/contrib/dashboard/history.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/asyncz/contrib/dashboard/history.py b/asyncz/contrib/dashboard/history.py
index bfec126..a6678b9 100644
--- a/asyncz/contrib/dashboard/history.py
+++ b/asyncz/contrib/dashboard/history.py
@@ -434,8 +434,8 @@ def _run_key(
 
 
 def _run_id(key: tuple[str, str | None, str]) -> str:
-    raw = "|".join(part or "" for part in key)
-    return hashlib.sha256(raw.encode()).hexdigest()[:20]
+    # task ids and store aliases may contain any separator
+    return hashlib.sha256(repr(key).encode()).hexdigest()[:20]
 
 
 def _task_metadata(scheduler: Any, task_id: str, store: str | None) -> dict[str, Any]:
-- 
2.43.0


From f61774602701fa6c8bfcc955aab8ddea2bb7a8dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:28:54 +0000
Subject: [PATCH 45/63] fix: readers of the run history get consistent copies

---
 asyncz/contrib/dashboard/history.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/asyncz/contrib/dashboard/history.py b/asyncz/contrib/dashboard/history.py
index a6678b9..6d705db 100644
--- a/asyncz/contrib/dashboard/history.py
+++ b/asyncz/contrib/dashboard/history.py
@@ -5,7 +5,7 @@ import hashlib
 import threading
 import weakref
 from collections import deque
-from dataclasses import dataclass
+from dataclasses import dataclass, replace
 from datetime import datetime, timedelta, timezone
 from typing import Any
 
@@ -82,7 +82,8 @@ class MemoryRunHistoryStorage:
 
     def get(self, run_id: str) -> RunRecord | None:
         with self._lock:
-            return self._records.get(run_id)
+            record = self._records.get(run_id)
+            return record if record is None else replace(record)
 
     def latest_for_task(self, task_id: str) -> RunRecord | None:
         matches = self.query(task_id=task_id, limit=1)
@@ -101,7 +102,8 @@ class MemoryRunHistoryStorage:
         status_filter = (status or "").strip().lower()
         source_filter = (source or "").strip().lower()
         with self._lock:
-            records = list(self._records.values())
+            # copies: records are changed by other threads
+            records = [replace(record) for record in self._records.values()]
 
         def sort_key(record: RunRecord) -> datetime:
             return (
@@ -143,7 +145,8 @@ class MemoryRunHistoryStorage:
 
     def summary(self) -> dict[str, int]:
         with self._lock:
-            records = list(self._records.values())
+            # copies: records are changed by other threads
+            records = [replace(record) for record in self._records.values()]
         return {
             "total": len(records),
             "running": sum(1 for record in records if record.status == "running"),
-- 
2.43.0


From e3934b05e5d68b9c447a5755d056170006754a30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:28:54 +0000
Subject: [PATCH 46/63] fix: log records and filters with naive times are taken
 as UTC

---
 asyncz/contrib/dashboard/logs/storage.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/asyncz/contrib/dashboard/logs/storage.py b/asyncz/contrib/dashboard/logs/storage.py
index e8a8a1c..3ea665b 100644
--- a/asyncz/contrib/dashboard/logs/storage.py
+++ b/asyncz/contrib/dashboard/logs/storage.py
@@ -3,7 +3,7 @@ from __future__ import annotations
 import threading
 from collections import deque
 from collections.abc import Iterable
-from dataclasses import dataclass
+from dataclasses import dataclass, replace
 from datetime import datetime, timezone
 from typing import Any
 
@@ -112,6 +112,8 @@ class MemoryLogStorage(LogStorage):
             TypeError: If the input type is neither `LogEntry` nor a dictionary.
         """
         if isinstance(entry, LogEntry):
+            if entry.ts.tzinfo is None:
+                return replace(entry, ts=entry.ts.replace(tzinfo=timezone.utc))
             return entry
         if not isinstance(entry, dict):
             raise TypeError(f"Unsupported log entry type: {type(entry)!r}")
@@ -187,6 +189,10 @@ class MemoryLogStorage(LogStorage):
         # Prepare filters for comparison speed
         level_upper: str | None = level.upper() if level else None
         needle: str = (q or "").lower().strip()
+        if since and since.tzinfo is None:
+            since = since.replace(tzinfo=timezone.utc)
+        if until and until.tzinfo is None:
+            until = until.replace(tzinfo=timezone.utc)
         out: list[LogEntry] = []
 
         with self.mutex:
-- 
2.43.0


From c12adc464062133cf65d0e68fbd25e4953a2947d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:28:54 +0000
Subject: [PATCH 47/63] fix: record queries with a limit of zero return nothing

---
 asyncz/contrib/dashboard/audit.py        | 2 ++
 asyncz/contrib/dashboard/events.py       | 2 ++
 asyncz/contrib/dashboard/history.py      | 2 ++
 asyncz/contrib/dashboard/logs/storage.py | 2 ++
 4 files changed, 8 insertions(+)

diff --git a/asyncz/contrib/dashboard/audit.py b/asyncz/contrib/dashboard/audit.py
index 4f4b1f2..19ebb5d 100644
--- a/asyncz/contrib/dashboard/audit.py
+++ b/asyncz/contrib/dashboard/audit.py
@@ -88,6 +88,8 @@ class MemoryAuditTrailStorage:
             records = [self._records[event_id] for event_id in reversed(self._order)]
 
         out: list[AuditRecord] = []
+        if limit <= 0:
+            return out
         for record in records:
             if action_filter and record.action != action_filter:
                 continue
diff --git a/asyncz/contrib/dashboard/events.py b/asyncz/contrib/dashboard/events.py
index 7dc4147..cf9dc3f 100644
--- a/asyncz/contrib/dashboard/events.py
+++ b/asyncz/contrib/dashboard/events.py
@@ -124,6 +124,8 @@ class MemorySchedulerEventStorage:
             records = list(self._records)
 
         out: list[SchedulerEventRecord] = []
+        if limit <= 0:
+            return out
         for record in reversed(records):
             if category_filter and record.category != category_filter:
                 continue
diff --git a/asyncz/contrib/dashboard/history.py b/asyncz/contrib/dashboard/history.py
index 6d705db..109752e 100644
--- a/asyncz/contrib/dashboard/history.py
+++ b/asyncz/contrib/dashboard/history.py
@@ -115,6 +115,8 @@ class MemoryRunHistoryStorage:
             )
 
         out: list[RunRecord] = []
+        if limit <= 0:
+            return out
         for record in sorted(records, key=sort_key, reverse=True):
             if task_id and record.task_id != task_id:
                 continue
diff --git a/asyncz/contrib/dashboard/logs/storage.py b/asyncz/contrib/dashboard/logs/storage.py
index 3ea665b..05cc8bb 100644
--- a/asyncz/contrib/dashboard/logs/storage.py
+++ b/asyncz/contrib/dashboard/logs/storage.py
@@ -194,6 +194,8 @@ class MemoryLogStorage(LogStorage):
         if until and until.tzinfo is None:
             until = until.replace(tzinfo=timezone.utc)
         out: list[LogEntry] = []
+        if limit <= 0:
+            return out
 
         with self.mutex:
             # Iterate in reverse order (newest first)
-- 
2.43.0


From 6dd03cfaa7a5ff0235f5726d44d7e1bb9745e7d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:28:54 +0000
Subject: [PATCH 48/63] fix: the page asked for survives the redirect to the
 login page

---
 asyncz/contrib/dashboard/admin/middleware/auth_gate.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/asyncz/contrib/dashboard/admin/middleware/auth_gate.py b/asyncz/contrib/dashboard/admin/middleware/auth_gate.py
index 61303bd..3539522 100644
--- a/asyncz/contrib/dashboard/admin/middleware/auth_gate.py
+++ b/asyncz/contrib/dashboard/admin/middleware/auth_gate.py
@@ -2,6 +2,7 @@ from __future__ import annotations
 
 from collections.abc import Awaitable, Callable, Iterable
 from typing import Any
+from urllib.parse import quote
 
 from lilya.requests import Request
 from lilya.responses import PlainText, RedirectResponse, Response
@@ -90,7 +91,7 @@ class AuthGateMiddleware:
         login_url: str = f"{mount_prefix}{self.login_path}"
 
         # Determine the target URL after login
-        next_q: str = f"?next={path}"
+        next_q: str = f"?next={quote(path)}"
 
         response: Response
         if request.headers.get("hx-request") == "true":
-- 
2.43.0


From 78f8e38aa43a5b663b6250294cb2480f9561728f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:28:54 +0000
Subject: [PATCH 49/63] fix: a dashboard mounted at the root does not hide its
 sign-in pages

---
 asyncz/contrib/dashboard/admin/core.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/asyncz/contrib/dashboard/admin/core.py b/asyncz/contrib/dashboard/admin/core.py
index 3fc2e63..6e73005 100644
--- a/asyncz/contrib/dashboard/admin/core.py
+++ b/asyncz/contrib/dashboard/admin/core.py
@@ -262,12 +262,12 @@ class AsynczAdmin:
         ]
 
         # 2. Build Top-Level Routes (Mounting everything under the final prefix)
-        routes: list[Path | Include] = [
-            Include(path=base_norm, routes=inner_routes, name="dashboard")
-        ]
+        routes: list[Path | Include] = []
         if self.enable_login:
-            # Add /login and /logout handlers if authentication is enabled at root level
+            # Add /login and /logout handlers if authentication is enabled at root level.
+            # They come first: a dashboard mounted at the root would hide them.
             routes.extend(self.add_sign_in_pages())
+        routes.append(Include(path=base_norm, routes=inner_routes, name="dashboard"))
 
         # 3. Build Middleware Stack (Order is critical)
         middlewares: list[DefineMiddleware] = []
-- 
2.43.0


From 559c4eb73fe2a507fc53e65b51c91261d1489c56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:28:54 +0000
Subject: [PATCH 50/63] fix: redirects of the sign-in pages keep the mount and
 the forwarded prefix

---
 asyncz/contrib/dashboard/admin/backends.py            | 11 +++++++++--
 .../contrib/dashboard/admin/middleware/auth_gate.py   |  7 ++++---
 .../dashboard/admin/middleware/forward_root_path.py   |  2 ++
 3 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/asyncz/contrib/dashboard/admin/backends.py b/asyncz/contrib/dashboard/admin/backends.py
index 00616d0..a43fee6 100644
--- a/asyncz/contrib/dashboard/admin/backends.py
+++ b/asyncz/contrib/dashboard/admin/backends.py
@@ -15,6 +15,13 @@ from asyncz.contrib.dashboard.mixins import default_context
 VerifyCallable = Callable[[str, str], User | None]
 
 
+def _external_url(request: Request, name: str) -> str:
+    """The path of a route as seen from outside, under a mount or behind a proxy prefix."""
+    forwarded_prefix: str = request.scope.get("forwarded_prefix", "")
+    root_path: str = request.scope.get("root_path", "")
+    return f"{forwarded_prefix}{root_path}{reverse(name)}"
+
+
 class SimpleUsernamePasswordBackend(AuthBackend):
     """
     A basic authentication backend that verifies credentials using a synchronous
@@ -104,7 +111,7 @@ class SimpleUsernamePasswordBackend(AuthBackend):
         }
 
         # Redirect to the requested 'next' URL or default to root
-        next: str = form.get("next") or reverse("dashboard:index")
+        next: str = form.get("next") or _external_url(request, "dashboard:index")
         return RedirectResponse(next, status_code=303)
 
     async def logout(self, request: Request) -> Response:
@@ -119,4 +126,4 @@ class SimpleUsernamePasswordBackend(AuthBackend):
         """
         # Remove user data from the session
         request.session.pop(self.session_key, None)
-        return RedirectResponse(reverse("login"), status_code=303)
+        return RedirectResponse(_external_url(request, "login"), status_code=303)
diff --git a/asyncz/contrib/dashboard/admin/middleware/auth_gate.py b/asyncz/contrib/dashboard/admin/middleware/auth_gate.py
index 3539522..f65450c 100644
--- a/asyncz/contrib/dashboard/admin/middleware/auth_gate.py
+++ b/asyncz/contrib/dashboard/admin/middleware/auth_gate.py
@@ -87,11 +87,12 @@ class AuthGateMiddleware:
 
         # 4. Unauthenticated Response
 
-        # Build the final login URL under the mount prefix
-        login_url: str = f"{mount_prefix}{self.login_path}"
+        # Build the final login URL under the mount prefix, as seen from outside
+        forwarded_prefix: str = scope.get("forwarded_prefix", "")
+        login_url: str = f"{forwarded_prefix}{mount_prefix}{self.login_path}"
 
         # Determine the target URL after login
-        next_q: str = f"?next={quote(path)}"
+        next_q: str = f"?next={quote(forwarded_prefix + path)}"
 
         response: Response
         if request.headers.get("hx-request") == "true":
diff --git a/asyncz/contrib/dashboard/admin/middleware/forward_root_path.py b/asyncz/contrib/dashboard/admin/middleware/forward_root_path.py
index 7cf004c..61d4667 100644
--- a/asyncz/contrib/dashboard/admin/middleware/forward_root_path.py
+++ b/asyncz/contrib/dashboard/admin/middleware/forward_root_path.py
@@ -80,6 +80,8 @@ class ForwardedPrefixMiddleware:
                     # 4. Create a copy of the scope and update URL generation metadata
                     scope = dict(scope)
                     scope["app_root_path"] = combined
+                    # For redirects, which are relative to the host
+                    scope["forwarded_prefix"] = p
 
         # Pass control to the next application
         await self.app(scope, receive, send)
-- 
2.43.0


From 8eade07cea1ea9baf979a7182119fd8f3ea0eb96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:28:54 +0000
Subject: [PATCH 51/63] fix: task snapshots are not torn by concurrent edits

---
 asyncz/schedulers/base.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/asyncz/schedulers/base.py b/asyncz/schedulers/base.py
index 34c5872..6a8cbf8 100644
--- a/asyncz/schedulers/base.py
+++ b/asyncz/schedulers/base.py
@@ -953,8 +953,10 @@ class BaseScheduler(SchedulerType):
         scheduler metadata.
         """
 
-        task = self.get_task(task_id, store)
-        return task.snapshot() if task is not None else None
+        # with lock, the task could be edited meanwhile
+        with self.store_lock:
+            task = self.get_task(task_id, store)
+            return task.snapshot() if task is not None else None
 
     def get_task_infos(
         self,
@@ -996,7 +998,9 @@ class BaseScheduler(SchedulerType):
                 else TaskScheduleState(str(schedule_state).strip().lower())
             )
 
-        infos = [task.snapshot() for task in self.get_tasks(store)]
+        # with lock, the tasks could be edited meanwhile
+        with self.store_lock:
+            infos = [task.snapshot() for task in self.get_tasks(store)]
         if resolved_state is not None:
             infos = [info for info in infos if info.schedule_state is resolved_state]
 
-- 
2.43.0


From bd688443cb92a6b95e478d5d544478c4e8bf3b81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:00:23 +0000
Subject: [PATCH 52/63] fix: a shutdown that waits for running tasks does not
 block them

---
 asyncz/schedulers/base.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/asyncz/schedulers/base.py b/asyncz/schedulers/base.py
index 6a8cbf8..35cef94 100644
--- a/asyncz/schedulers/base.py
+++ b/asyncz/schedulers/base.py
@@ -298,9 +298,13 @@ class BaseScheduler(SchedulerType):
         self.last_seen_at = datetime.now(self.timezone)
         self.started_at = None
 
+        with self.executor_lock:
+            executors = list(self.executors.values())
+        # without the locks, the running tasks may use the scheduler
+        for executor in executors:
+            executor.shutdown(wait)
+
         with self.executor_lock, self.store_lock:
-            for executor in self.executors.values():
-                executor.shutdown(wait)
             coros = []
             for _store in self.stores.values():
                 for task in _store.get_all_tasks():
-- 
2.43.0


From 903a04b3b38c7ec719ba929c1967f8cee4315b93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:00:23 +0000
Subject: [PATCH 53/63] fix: start, pause, resume and shutdown from several
 threads

---
 asyncz/schedulers/base.py | 72 +++++++++++++++++++++++++--------------
 1 file changed, 46 insertions(+), 26 deletions(-)

diff --git a/asyncz/schedulers/base.py b/asyncz/schedulers/base.py
index 35cef94..8e885c4 100644
--- a/asyncz/schedulers/base.py
+++ b/asyncz/schedulers/base.py
@@ -14,7 +14,7 @@ from datetime import datetime, timedelta
 from datetime import timezone as dttz
 from importlib import import_module
 from inspect import isawaitable
-from threading import TIMEOUT_MAX, Lock, RLock
+from threading import TIMEOUT_MAX, RLock
 from typing import TYPE_CHECKING, Any, Optional, Union, cast, overload
 
 from monkay.asgi import ASGIApp, LifespanHook
@@ -126,7 +126,9 @@ class BaseScheduler(SchedulerType):
         self.shape = resolve_shape()
 
         self.ref_counter: int = 0
-        self.ref_lock: Lock = Lock()
+        # also for the changes of the state
+        self.ref_lock: RLock = self.create_lock()
+        self.shutdown_lock: RLock = self.create_lock()
         self.instances: dict[str, int] = defaultdict(lambda: 0)
         self.setup(global_config, **kwargs)
 
@@ -217,6 +219,9 @@ class BaseScheduler(SchedulerType):
         return True
 
     def _start(self, paused: bool) -> None:
+        with self.shutdown_lock:
+            # a shutdown by another thread has come to its end
+            pass
         # should not happen, ref_counter should protect
         assert self.state == SchedulerState.STATE_STOPPED
 
@@ -247,9 +252,10 @@ class BaseScheduler(SchedulerType):
                     self.real_add_task(task, replace_existing, start_task, min_dtime)
                 del self.pending_tasks[0]
 
-        self.state = SchedulerState.STATE_PAUSED if paused else SchedulerState.STATE_RUNNING
-        self.started_at = datetime.now(self.timezone)
-        self.last_seen_at = self.started_at
+            # with lock, otherwise tasks added now would stay pending
+            self.started_at = datetime.now(self.timezone)
+            self.last_seen_at = self.started_at
+            self.state = SchedulerState.STATE_PAUSED if paused else SchedulerState.STATE_RUNNING
         self.loggers[self.logger_name].info("Scheduler started.")
         self.dispatch_event(SchedulerEvent(code=SCHEDULER_START))
 
@@ -287,17 +293,26 @@ class BaseScheduler(SchedulerType):
         Args:
             wait: True to wait until all currently executing tasks have finished.
         """
-        # check first, a failing shutdown must not influence the reference counter
-        if self.state == SchedulerState.STATE_STOPPED:
-            raise SchedulerNotRunningError()
+        with self.store_lock, self.ref_lock:
+            # check first, a failing shutdown must not influence the reference counter
+            if self.state == SchedulerState.STATE_STOPPED:
+                raise SchedulerNotRunningError()
 
-        if not self.decr_refcount():
-            return False
+            if not self.decr_refcount():
+                return False
 
-        self.state = SchedulerState.STATE_STOPPED
-        self.last_seen_at = datetime.now(self.timezone)
-        self.started_at = None
+            self.state = SchedulerState.STATE_STOPPED
+            self.last_seen_at = datetime.now(self.timezone)
+            self.started_at = None
+            self.shutdown_lock.acquire()
+
+        try:
+            self._stop(wait)
+        finally:
+            self.shutdown_lock.release()
+        return True
 
+    def _stop(self, wait: bool) -> None:
         with self.executor_lock:
             executors = list(self.executors.values())
         # without the locks, the running tasks may use the scheduler
@@ -321,7 +336,6 @@ class BaseScheduler(SchedulerType):
 
         self.loggers[self.logger_name].info("Scheduler has been shutdown.")
         self.dispatch_event(SchedulerEvent(code=SCHEDULER_SHUTDOWN))
-        return True
 
     def pause(self) -> None:
         """
@@ -330,24 +344,28 @@ class BaseScheduler(SchedulerType):
         This will prevent the scheduler from waking up to do task processing until resume
         is called. It will not however stop any already running task processing.
         """
-        if self.state == SchedulerState.STATE_STOPPED:
-            raise SchedulerNotRunningError()
-        elif self.state == SchedulerState.STATE_RUNNING:
+        with self.ref_lock:
+            if self.state == SchedulerState.STATE_STOPPED:
+                raise SchedulerNotRunningError()
+            if self.state != SchedulerState.STATE_RUNNING:
+                return
             self.state = SchedulerState.STATE_PAUSED
-            self.loggers[self.logger_name].info("Paused scheduler task processing.")
-            self.dispatch_event(SchedulerEvent(code=SCHEDULER_PAUSED))
+        self.loggers[self.logger_name].info("Paused scheduler task processing.")
+        self.dispatch_event(SchedulerEvent(code=SCHEDULER_PAUSED))
 
     def resume(self) -> None:
         """
         Resume task processing in the scheduler.
         """
-        if self.state == SchedulerState.STATE_STOPPED:
-            raise SchedulerNotRunningError
-        elif self.state == SchedulerState.STATE_PAUSED:
+        with self.ref_lock:
+            if self.state == SchedulerState.STATE_STOPPED:
+                raise SchedulerNotRunningError
+            if self.state != SchedulerState.STATE_PAUSED:
+                return
             self.state = SchedulerState.STATE_RUNNING
-            self.loggers[self.logger_name].info("Resumed scheduler task processing.")
-            self.dispatch_event(SchedulerEvent(code=SCHEDULER_RESUMED))
-            self.wakeup()
+        self.loggers[self.logger_name].info("Resumed scheduler task processing.")
+        self.dispatch_event(SchedulerEvent(code=SCHEDULER_RESUMED))
+        self.wakeup()
 
     @property
     def running(self) -> bool:
@@ -1746,7 +1764,9 @@ class BaseScheduler(SchedulerType):
             if blocking_success:
                 # threading lock
                 with self.store_lock:
-                    for store_alias, store in self.stores.items():
+                    # may have been paused or shut down while waiting for the lock
+                    running = self.state == SchedulerState.STATE_RUNNING
+                    for store_alias, store in self.stores.items() if running else ():
                         try:
                             next_wakeup_time = self._process_tasks_of_store(
                                 now, next_wakeup_time, store_alias, store, events
-- 
2.43.0


From d87b3999af44c9b82228ff3b5c825e91936a9f3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:00:23 +0000
Subject: [PATCH 54/63] fix: scheduler snapshots are not torn by a concurrent
 start or shutdown

---
 asyncz/schedulers/base.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/asyncz/schedulers/base.py b/asyncz/schedulers/base.py
index 8e885c4..5f49b89 100644
--- a/asyncz/schedulers/base.py
+++ b/asyncz/schedulers/base.py
@@ -1155,9 +1155,11 @@ class BaseScheduler(SchedulerType):
         directly.
         """
 
-        state = SchedulerState(self.state)
-        task_infos = self.get_task_infos()
-        started_at = self.started_at if state != SchedulerState.STATE_STOPPED else None
+        # with lock, the scheduler could be started or shut down meanwhile
+        with self.store_lock:
+            state = SchedulerState(self.state)
+            task_infos = self.get_task_infos()
+            started_at = self.started_at if state != SchedulerState.STATE_STOPPED else None
         uptime_seconds = (
             max(0.0, (datetime.now(self.timezone) - started_at).total_seconds())
             if started_at is not None
@@ -1173,7 +1175,7 @@ class BaseScheduler(SchedulerType):
             identity=self.identity,
             state=state,
             state_label=state.name.removeprefix("STATE_").lower(),
-            running=self.running,
+            running=state != SchedulerState.STATE_STOPPED,
             started_at=started_at,
             uptime_seconds=uptime_seconds,
             timezone=str(self.timezone),
-- 
2.43.0


From c18b8be72531429faae9fb3600aa66c4efd9001d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:00:24 +0000
Subject: [PATCH 55/63] fix: run previews are not torn by concurrent edits

---
 asyncz/schedulers/base.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/asyncz/schedulers/base.py b/asyncz/schedulers/base.py
index 5f49b89..1e6a38b 100644
--- a/asyncz/schedulers/base.py
+++ b/asyncz/schedulers/base.py
@@ -1105,16 +1105,20 @@ class BaseScheduler(SchedulerType):
         if not 1 <= count <= 50:
             raise ValueError("count must be between 1 and 50.")
 
-        task = self.get_task(task_id, store)
-        if task is None:
-            return None
+        # with lock, the task could be edited meanwhile
+        with self.store_lock:
+            task = self.get_task(task_id, store)
+            if task is None:
+                return None
+            task_info = task.snapshot()
+            trigger = task.trigger
+            next_run_time = task.next_run_time
 
         preview_now = to_datetime(now or datetime.now(self.timezone), self.timezone, "now")
         assert preview_now is not None
-        trigger = task.trigger
         if trigger is None:
             return TaskRunPreview(
-                task=task.snapshot(),
+                task=task_info,
                 timezone=str(self.timezone),
                 generated_at=preview_now,
                 requested_count=count,
@@ -1123,7 +1127,7 @@ class BaseScheduler(SchedulerType):
             )
 
         run_times: list[datetime] = []
-        next_run_time = task.next_run_time or trigger.get_next_trigger_time(
+        next_run_time = next_run_time or trigger.get_next_trigger_time(
             self.timezone, None, preview_now
         )
         exhausted = next_run_time is None
@@ -1137,7 +1141,7 @@ class BaseScheduler(SchedulerType):
             exhausted = next_run_time is None
 
         return TaskRunPreview(
-            task=task.snapshot(),
+            task=task_info,
             timezone=str(self.timezone),
             generated_at=preview_now,
             requested_count=count,
-- 
2.43.0


From de194aecbf814d27fb1dc3aefd00cd172301b4b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:00:24 +0000
Subject: [PATCH 56/63] fix: commands of the command line do not run the tasks
 which happen to be due

---
 asyncz/cli/commands/add.py       | 3 ++-
 asyncz/cli/commands/doctor.py    | 2 ++
 asyncz/cli/commands/inspect.py   | 3 ++-
 asyncz/cli/commands/instances.py | 2 ++
 asyncz/cli/commands/list.py      | 3 ++-
 asyncz/cli/commands/pause.py     | 3 ++-
 asyncz/cli/commands/preview.py   | 3 ++-
 asyncz/cli/commands/remove.py    | 3 ++-
 asyncz/cli/commands/resume.py    | 3 ++-
 asyncz/cli/commands/run.py       | 3 ++-
 asyncz/cli/commands/status.py    | 2 ++
 asyncz/cli/commands/timeline.py  | 3 ++-
 asyncz/cli/commands/update.py    | 3 ++-
 13 files changed, 26 insertions(+), 10 deletions(-)

diff --git a/asyncz/cli/commands/add.py b/asyncz/cli/commands/add.py
index 20fee74..4c59809 100644
--- a/asyncz/cli/commands/add.py
+++ b/asyncz/cli/commands/add.py
@@ -88,7 +88,8 @@ def add(
             cfg: dict[str, Any] = {"stores": stores_cfg}
             target_store_alias = next(iter(stores_cfg.keys()))
             scheduler = AsyncIOScheduler(**cfg)
-            await maybe_await(scheduler.start())
+            # paused: the command must not run the tasks which happen to be due
+            await maybe_await(scheduler.start(paused=True))
 
         # 4) Resolve callable and add task
         func: Callable[..., Any] = import_callable(callable_path)
diff --git a/asyncz/cli/commands/doctor.py b/asyncz/cli/commands/doctor.py
index ce5f0a3..a66f073 100644
--- a/asyncz/cli/commands/doctor.py
+++ b/asyncz/cli/commands/doctor.py
@@ -158,6 +158,8 @@ def doctor(
             return payload if as_json else None
         finally:
             if not bootstrap_mode:
+                # the round requested by the start must not run the tasks which happen to be due
+                scheduler.pause()
                 await maybe_await(scheduler.shutdown())
 
     return loop.run_until_complete(main())
diff --git a/asyncz/cli/commands/inspect.py b/asyncz/cli/commands/inspect.py
index d9e4955..3051fe0 100644
--- a/asyncz/cli/commands/inspect.py
+++ b/asyncz/cli/commands/inspect.py
@@ -70,7 +70,8 @@ def inspect_task(
                 build_stores_map(store) if store else {"default": {"type": "memory"}}
             )
             scheduler = AsyncIOScheduler(stores=stores_cfg)
-            await maybe_await(scheduler.start())
+            # paused: the command must not run the tasks which happen to be due
+            await maybe_await(scheduler.start(paused=True))
 
         try:
             task = await maybe_await(scheduler.get_task(job_id))
diff --git a/asyncz/cli/commands/instances.py b/asyncz/cli/commands/instances.py
index 94b8906..4c13f4a 100644
--- a/asyncz/cli/commands/instances.py
+++ b/asyncz/cli/commands/instances.py
@@ -90,6 +90,8 @@ def instances(
             return None
         finally:
             if not bootstrap_mode:
+                # the round requested by the start must not run the tasks which happen to be due
+                scheduler.pause()
                 await maybe_await(scheduler.shutdown())
 
     return loop.run_until_complete(main())
diff --git a/asyncz/cli/commands/list.py b/asyncz/cli/commands/list.py
index 1a7cf38..8283fe6 100644
--- a/asyncz/cli/commands/list.py
+++ b/asyncz/cli/commands/list.py
@@ -87,7 +87,8 @@ def list_jobs(
             )
             cfg: dict[str, dict[str, dict[str, Any]]] = {"stores": stores_cfg}
             scheduler = AsyncIOScheduler(**cfg)
-            await maybe_await(scheduler.start())
+            # paused: the command must not run the tasks which happen to be due
+            await maybe_await(scheduler.start(paused=True))
 
         try:
             # 2) Fetch task snapshots
diff --git a/asyncz/cli/commands/pause.py b/asyncz/cli/commands/pause.py
index 59957b5..90f1ef5 100644
--- a/asyncz/cli/commands/pause.py
+++ b/asyncz/cli/commands/pause.py
@@ -52,7 +52,8 @@ def pause(
             )
             cfg: dict[str, dict[str, Any]] = {"stores": stores_cfg}
             scheduler = AsyncIOScheduler(**cfg)
-            await maybe_await(scheduler.start())
+            # paused: the command must not run the tasks which happen to be due
+            await maybe_await(scheduler.start(paused=True))
 
         # 2) Delegate to the scheduler API.
         await maybe_await(scheduler.pause_task(job_id))
diff --git a/asyncz/cli/commands/preview.py b/asyncz/cli/commands/preview.py
index c7336f1..b7e4141 100644
--- a/asyncz/cli/commands/preview.py
+++ b/asyncz/cli/commands/preview.py
@@ -71,7 +71,8 @@ def preview(
                 build_stores_map(store) if store else {"default": {"type": "memory"}}
             )
             scheduler = AsyncIOScheduler(stores=stores_cfg)
-            await maybe_await(scheduler.start())
+            # paused: the command must not run the tasks which happen to be due
+            await maybe_await(scheduler.start(paused=True))
 
         try:
             preview_result = scheduler.preview_task_runs(job_id, count=count)
diff --git a/asyncz/cli/commands/remove.py b/asyncz/cli/commands/remove.py
index 699d965..5de60d4 100644
--- a/asyncz/cli/commands/remove.py
+++ b/asyncz/cli/commands/remove.py
@@ -51,7 +51,8 @@ def remove(
         else:
             cfg: dict[str, dict[str, Any]] = {"stores": build_stores_map(store)} if store else {}
             scheduler = AsyncIOScheduler(**cfg)
-            await maybe_await(scheduler.start())
+            # paused: the command must not run the tasks which happen to be due
+            await maybe_await(scheduler.start(paused=True))
 
         # 2) Determine the store alias that holds the job (so delete works across multi-store setups)
         #    If your scheduler supports delete by ID only, this lookup is still safe and provides validation.
diff --git a/asyncz/cli/commands/resume.py b/asyncz/cli/commands/resume.py
index 931fef0..e28a9c5 100644
--- a/asyncz/cli/commands/resume.py
+++ b/asyncz/cli/commands/resume.py
@@ -51,7 +51,8 @@ def resume(
             )
             cfg: dict[str, dict[str, Any]] = {"stores": stores_cfg}
             scheduler = AsyncIOScheduler(**cfg)
-            await maybe_await(scheduler.start())
+            # paused: the command must not run the tasks which happen to be due
+            await maybe_await(scheduler.start(paused=True))
 
         # 2) Delegate to the scheduler API and mirror the resulting state in the message.
         resumed_task = await maybe_await(scheduler.resume_task(job_id))
diff --git a/asyncz/cli/commands/run.py b/asyncz/cli/commands/run.py
index 5b1a8f7..60e0532 100644
--- a/asyncz/cli/commands/run.py
+++ b/asyncz/cli/commands/run.py
@@ -51,7 +51,8 @@ def run(
             # 1. Build configuration and initialize a temporary scheduler
             cfg: dict[str, dict[str, Any]] = {"stores": build_stores_map(store)} if store else {}
             scheduler = AsyncIOScheduler(**cfg)
-            await maybe_await(scheduler.start())
+            # paused: the command must not run the tasks which happen to be due
+            await maybe_await(scheduler.start(paused=True))
 
         # 2. Delegate the "run now" flow to the scheduler itself.
         await maybe_await(scheduler.run_task(job_id))
diff --git a/asyncz/cli/commands/status.py b/asyncz/cli/commands/status.py
index 37a3ac2..3d2e5e7 100644
--- a/asyncz/cli/commands/status.py
+++ b/asyncz/cli/commands/status.py
@@ -94,6 +94,8 @@ def status(
             return None
         finally:
             if not bootstrap_mode:
+                # the round requested by the start must not run the tasks which happen to be due
+                scheduler.pause()
                 await maybe_await(scheduler.shutdown())
 
     return loop.run_until_complete(main())
diff --git a/asyncz/cli/commands/timeline.py b/asyncz/cli/commands/timeline.py
index 435d3cc..d73293d 100644
--- a/asyncz/cli/commands/timeline.py
+++ b/asyncz/cli/commands/timeline.py
@@ -110,7 +110,8 @@ def timeline(
                 build_stores_map(store) if store else {"default": {"type": "memory"}}
             )
             scheduler = AsyncIOScheduler(stores=stores_cfg)
-            await maybe_await(scheduler.start())
+            # paused: the command must not run the tasks which happen to be due
+            await maybe_await(scheduler.start(paused=True))
 
         try:
             payload = _timeline_payload(
diff --git a/asyncz/cli/commands/update.py b/asyncz/cli/commands/update.py
index e52c8ea..70547bd 100644
--- a/asyncz/cli/commands/update.py
+++ b/asyncz/cli/commands/update.py
@@ -139,7 +139,8 @@ def update(
                 build_stores_map(store) if store else {"default": {"type": "memory"}}
             )
             scheduler = AsyncIOScheduler(stores=stores_cfg)
-            await maybe_await(scheduler.start())
+            # paused: the command must not run the tasks which happen to be due
+            await maybe_await(scheduler.start(paused=True))
 
         try:
             task, store_alias = scheduler.lookup_task(job_id, None)
-- 
2.43.0


From 32264342f6d793f61e89aab4ff42eb6845e4fb1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:00:24 +0000
Subject: [PATCH 57/63] fix: asyncz run waits for the run it starts

---
 asyncz/cli/commands/run.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/asyncz/cli/commands/run.py b/asyncz/cli/commands/run.py
index 60e0532..ce489b9 100644
--- a/asyncz/cli/commands/run.py
+++ b/asyncz/cli/commands/run.py
@@ -58,6 +58,11 @@ def run(
         await maybe_await(scheduler.run_task(job_id))
         info(f"Triggered job {job_id}")
 
+        # the run takes place in this process, it would be lost when the process ends before
+        if getattr(scheduler, "event_loop", None) is asyncio.get_running_loop():
+            while scheduler.instances.get(job_id, 0) > 0:
+                await asyncio.sleep(0.02)
+
         # 3. Shutdown the temporary scheduler
         if not bootstrap_mode:
             await maybe_await(scheduler.shutdown())
-- 
2.43.0


From 328271ba3bcc04dd317693822102d9e6922d2a8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:00:24 +0000
Subject: [PATCH 58/63] fix: the documented store specs of the command line are
 accepted

---
 asyncz/cli/utils.py | 27 ++++++++++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/asyncz/cli/utils.py b/asyncz/cli/utils.py
index 28b821c..bfac344 100644
--- a/asyncz/cli/utils.py
+++ b/asyncz/cli/utils.py
@@ -5,6 +5,7 @@ from collections.abc import Callable
 from dataclasses import dataclass
 from pathlib import Path
 from typing import Any, cast
+from urllib.parse import unquote, urlsplit
 
 from asyncz.cli._parsers import parse_store_option
 
@@ -151,13 +152,28 @@ def parse_store(spec: str) -> tuple[str, dict[str, Any]]:
         return alias, {"type": "memory"}
 
     if value.startswith("file://"):
-        return alias, {"type": "file", "path": value.removeprefix("file://")}
+        return alias, {"type": "file", "directory": value.removeprefix("file://")}
 
     if value.startswith("redis://"):
-        return alias, {"type": "redis", "url": value}
+        url = urlsplit(value)
+        config: dict[str, Any] = {"type": "redis", "database": int(url.path.strip("/") or 0)}
+        if url.hostname:
+            config["host"] = url.hostname
+        if url.port:
+            config["port"] = url.port
+        if url.username:
+            config["username"] = unquote(url.username)
+        if url.password:
+            config["password"] = unquote(url.password)
+        return alias, config
 
     if value.startswith("mongo://") or value.startswith("mongodb://"):
-        return alias, {"type": "mongodb", "url": value}
+        value = "mongodb://" + value.partition("://")[2]
+        config = {"type": "mongodb", "host": value}
+        database = urlsplit(value).path.strip("/")
+        if database:
+            config["database"] = database
+        return alias, config
 
     # fallback to sqlalchemy for anything else that looks like a DB URL
     return alias, {"type": "sqlalchemy", "database": value}
@@ -219,6 +235,11 @@ def build_stores_map(specs: list[str]) -> dict[str, dict[str, Any]]:
 
     stores: dict[str, dict[str, Any]] = {}
     for i, spec in enumerate(specs):
+        if spec.partition("=")[2].strip():
+            name, config = parse_store(spec)
+            stores[name] = config
+            continue
+
         parsed: tuple[str | Any, ...] = parse_store_option(spec)
 
         if not isinstance(parsed, tuple):
-- 
2.43.0


From 7fde47de732153511ef4bb521a199bb0a46be614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:00:32 +0000
Subject: [PATCH 59/63] fix: times of the command line without an offset are
 times of the scheduler's zone

---
 asyncz/cli/commands/add.py |  1 +
 asyncz/cli/types.py        | 20 ++++++++++++++++----
 2 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/asyncz/cli/commands/add.py b/asyncz/cli/commands/add.py
index 4c59809..a66bfdf 100644
--- a/asyncz/cli/commands/add.py
+++ b/asyncz/cli/commands/add.py
@@ -64,6 +64,7 @@ def add(
             if store:
                 info("Using --bootstrap; ignoring --store.")
             scheduler: AsyncIOScheduler = load_bootstrap_scheduler(bootstrap)  # type: ignore[arg-type]
+            t = parse_trigger(cron=cron, interval=interval, at=at, timezone=scheduler.timezone)
 
             with contextlib.suppress(Exception):
                 await maybe_await(scheduler.start())
diff --git a/asyncz/cli/types.py b/asyncz/cli/types.py
index d69e152..491d352 100644
--- a/asyncz/cli/types.py
+++ b/asyncz/cli/types.py
@@ -6,6 +6,7 @@ from typing import Literal
 
 from asyncz.triggers.base import BaseTrigger
 from asyncz.triggers.cron import CronTrigger
+from asyncz.utils import get_localzone
 
 
 def parse_interval(text: str) -> float:
@@ -40,7 +41,13 @@ def parse_interval(text: str) -> float:
     return float(value * mult[unit])
 
 
-def parse_trigger(*, cron: str | None, interval: str | None, at: str | None) -> BaseTrigger:
+def parse_trigger(
+    *,
+    cron: str | None,
+    interval: str | None,
+    at: str | None,
+    timezone: dt.tzinfo | None = None,
+) -> BaseTrigger:
     """
     Parses mutually exclusive job scheduling arguments into the appropriate Asyncz trigger object.
 
@@ -50,6 +57,8 @@ def parse_trigger(*, cron: str | None, interval: str | None, at: str | None) ->
         cron: A cron expression string (e.g., '0 0 * * *').
         interval: A human-readable duration string (e.g., '10m', '2h').
         at: An ISO 8601 formatted datetime string indicating a single run time.
+        timezone: The zone of cron expressions and of datetimes without an offset, defaults to
+            the local one (which is the default of the schedulers, too).
 
     Returns:
         An instantiated subclass of `BaseTrigger` (CronTrigger, IntervalTrigger, or DateTrigger).
@@ -61,18 +70,21 @@ def parse_trigger(*, cron: str | None, interval: str | None, at: str | None) ->
     if sum(bool(x) for x in (cron, interval, at)) != 1:
         raise ValueError("Specify exactly one of --cron, --interval, or --at")
 
+    if timezone is None:
+        timezone = get_localzone()
+
     if cron:
-        return CronTrigger.from_crontab(cron)
+        return CronTrigger.from_crontab(cron, timezone=timezone)
 
     if interval:
         # IntervalTrigger
         seconds: float = parse_interval(interval)
         from asyncz.triggers.interval import IntervalTrigger
 
-        return IntervalTrigger(seconds=int(seconds))
+        return IntervalTrigger(seconds=int(seconds), timezone=timezone)
 
     # DateTrigger
     when: dt.datetime = dt.datetime.fromisoformat(at)  # type: ignore[arg-type]
     from asyncz.triggers.date import DateTrigger
 
-    return DateTrigger(run_at=when)
+    return DateTrigger(run_at=when, timezone=timezone)
-- 
2.43.0


From a164b8ed205a871c9261ce4fb917cf0d427d145c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:00:33 +0000
Subject: [PATCH 60/63] fix: jobs of a module or a config file can be loaded by
 the command line

---
 asyncz/cli/loader.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/asyncz/cli/loader.py b/asyncz/cli/loader.py
index e5f18fa..2856a1a 100644
--- a/asyncz/cli/loader.py
+++ b/asyncz/cli/loader.py
@@ -6,7 +6,6 @@ from pathlib import Path
 from typing import Any
 
 from asyncz.schedulers import AsyncIOScheduler
-from asyncz.tasks import Task
 
 
 async def load_jobs_from_module(scheduler: AsyncIOScheduler, module_path: str) -> int:
@@ -21,9 +20,9 @@ async def load_jobs_from_module(scheduler: AsyncIOScheduler, module_path: str) -
 
     added = 0
     for item in entries:  # type: ignore
-        task = Task(func=item["func"], name=item.get("name"))
         scheduler.add_task(
-            task,
+            item["func"],
+            name=item.get("name"),
             trigger=item["trigger"],
             args=item.get("args", []),
             kwargs=item.get("kwargs", {}),
@@ -56,10 +55,18 @@ async def load_jobs_from_config(scheduler: AsyncIOScheduler, path: str) -> int:
 
     added = 0
     for job in data.get("jobs", []):
-        trig = parse_trigger(cron=job.get("cron"), interval=job.get("interval"), at=job.get("at"))
-        task = Task(func=job["func"], name=job.get("name"))
+        trig = parse_trigger(
+            cron=job.get("cron"),
+            interval=job.get("interval"),
+            at=job.get("at"),
+            timezone=scheduler.timezone,
+        )
         scheduler.add_task(
-            task, trigger=trig, args=job.get("args", []), kwargs=job.get("kwargs", {})
+            job["func"],
+            name=job.get("name"),
+            trigger=trig,
+            args=job.get("args", []),
+            kwargs=job.get("kwargs", {}),
         )
         added += 1
     return added
-- 
2.43.0


From f70f0531aa2a6cedcd586270790702f0f7c8a53e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:00:33 +0000
Subject: [PATCH 61/63] fix: usage errors of the command line have an exit code

---
 asyncz/cli/app.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/asyncz/cli/app.py b/asyncz/cli/app.py
index 441f8ca..fa2c7d2 100644
--- a/asyncz/cli/app.py
+++ b/asyncz/cli/app.py
@@ -1,5 +1,7 @@
 from __future__ import annotations
 
+import sys
+
 from sayer import Sayer
 
 from asyncz.cli.commands.add import add
@@ -39,4 +41,7 @@ asyncz_cli.add_command(update)
 
 
 def main() -> None:
-    asyncz_cli()
+    result = asyncz_cli()
+    # errors of the command line are reported by their exit code
+    if isinstance(result, int) and result != 0:
+        sys.exit(result)
-- 
2.43.0


From ddfd91a47c22278e5937885d03d4c6684d855eae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:00:33 +0000
Subject: [PATCH 62/63] fix: the timeline previews the task of the listed store

---
 asyncz/cli/commands/timeline.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asyncz/cli/commands/timeline.py b/asyncz/cli/commands/timeline.py
index d73293d..403a057 100644
--- a/asyncz/cli/commands/timeline.py
+++ b/asyncz/cli/commands/timeline.py
@@ -47,7 +47,7 @@ def _timeline_payload(
         if task.id is None:
             continue
 
-        preview = scheduler.preview_task_runs(task.id, count=per_task)
+        preview = scheduler.preview_task_runs(task.id, task.store_alias, count=per_task)
         if preview is None:
             continue
         if preview.exhausted:
-- 
2.43.0


From fd3f16c8433e1611cb2dbc3d996d67751fbcbac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:59:31 +0000
Subject: [PATCH 63/63] fix: a task may have any grace time

---
 asyncz/executors/base.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/asyncz/executors/base.py b/asyncz/executors/base.py
index 787ba06..9913d7a 100644
--- a/asyncz/executors/base.py
+++ b/asyncz/executors/base.py
@@ -2,7 +2,7 @@ import logging
 import sys
 import traceback
 from collections.abc import Callable
-from datetime import datetime, timedelta
+from datetime import datetime
 from datetime import timezone as tz
 from threading import RLock
 from traceback import format_tb
@@ -120,8 +120,7 @@ def run_task(
         mistrigger_grace_time = task.mistrigger_grace_time
         if mistrigger_grace_time is not None:
             difference = datetime.now(tz.utc) - run_time
-            grace_time = timedelta(seconds=mistrigger_grace_time)
-            if difference > grace_time:
+            if difference.total_seconds() > mistrigger_grace_time:
                 events.append(
                     TaskExecutionEvent(
                         code=TASK_MISSED,
@@ -182,8 +181,7 @@ async def run_coroutine_task(
         mistrigger_grace_time = task.mistrigger_grace_time
         if mistrigger_grace_time is not None:
             difference = datetime.now(tz.utc) - run_time
-            grace_time = timedelta(seconds=mistrigger_grace_time)
-            if difference > grace_time:
+            if difference.total_seconds() > mistrigger_grace_time:
                 events.append(
                     TaskExecutionEvent(
                         code=TASK_MISSED,
-- 
2.43.0

