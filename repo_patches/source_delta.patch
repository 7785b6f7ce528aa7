From 1694a71dfa3a62d99dbdb62ebf3588cd033db449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:09 +0000
Subject: [PATCH 01/46] fix: start a fresh run record when a key is scheduled
 again

Scheduling a key whose previous run had finished kept that run's hash,
including its execution_ttl expiry.  The record could then expire while the
new run was still waiting, so the worker saw its message as superseded and
dropped it; until then get_result() could return the previous run's result.
---
 src/docket/execution.py | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/docket/execution.py b/src/docket/execution.py
index eeded38..7bc8b2a 100644
--- a/src/docket/execution.py
+++ b/src/docket/execution.py
@@ -103,6 +103,18 @@ async def _schedule(
         end
     end
 
+    -- Begin a fresh run record for this key, keeping only the (incremented)
+    -- generation counter.  Recreating the hash sheds whatever the previous run
+    -- left behind: its worker, timestamps, error and result_key, and above all
+    -- its execution_ttl expiry, which would otherwise delete the record of a
+    -- run that is still waiting and leave its message looking superseded.
+    local function start_new_run()
+        local new_gen = redis.call('HINCRBY', runs_key, 'generation', 1)
+        redis.call('DEL', runs_key)
+        redis.call('HSET', runs_key, 'generation', new_gen)
+        return new_gen
+    end
+
     -- Handle rescheduling from stream: atomically ACK the original message and
     -- re-route the task.  Prevents both task loss (ACK before reschedule) and
     -- duplicate execution (reschedule before ACK with slow reschedule causing
@@ -116,7 +128,7 @@ async def _schedule(
         redis.call('XDEL', stream_key, reschedule_message_id)
 
         -- Increment generation counter
-        local new_gen = redis.call('HINCRBY', runs_key, 'generation', 1)
+        local new_gen = start_new_run()
         if generation_index then
             message[generation_index] = tostring(new_gen)
         end
@@ -145,14 +157,8 @@ async def _schedule(
                 'args', args_data,
                 'kwargs', kwargs_data
             )
-            redis.call('HDEL', runs_key, 'stream_id')
         end
 
-        -- Clear fields written by the previous attempt's ``_claim`` so the
-        -- runs hash describes the rescheduled (queued/scheduled) attempt,
-        -- not the worker and start-time of the attempt that just failed.
-        redis.call('HDEL', runs_key, 'worker', 'started_at')
-
         redis.call('PUBLISH', state_channel, state_payload)
 
         return 'OK'
@@ -197,7 +203,7 @@ async def _schedule(
     end
 
     -- Increment generation counter
-    local new_gen = redis.call('HINCRBY', runs_key, 'generation', 1)
+    local new_gen = start_new_run()
     if generation_index then
         message[generation_index] = tostring(new_gen)
     end
-- 
2.43.0


From ed240626a67617fa595b784f3389bd1c0fd2ee03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:24 +0000
Subject: [PATCH 02/46] fix: do not let a stale attempt's reschedule supersede
 its replacement

When a running task was replaced and then failed, its retry (or admission
reschedule) bumped the generation past the replacement, so the replacement
was dropped as superseded and the old arguments kept running.
---
 src/docket/execution.py | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/docket/execution.py b/src/docket/execution.py
index 7bc8b2a..03a8d23 100644
--- a/src/docket/execution.py
+++ b/src/docket/execution.py
@@ -84,6 +84,7 @@ async def _schedule(
     local args_data = nil
     local kwargs_data = nil
     local generation_index = nil
+    local generation = 0
 
     for i = message_start, #ARGV, 2 do
         local field_name = ARGV[i]
@@ -100,6 +101,7 @@ async def _schedule(
             kwargs_data = field_value
         elseif field_name == 'generation' then
             generation_index = #message
+            generation = tonumber(field_value)
         end
     end
 
@@ -127,6 +129,16 @@ async def _schedule(
         redis.call('XACK', stream_key, worker_group_name, reschedule_message_id)
         redis.call('XDEL', stream_key, reschedule_message_id)
 
+        -- A newer schedule (e.g. Docket.replace) may own this key by now; then
+        -- this attempt is stale, and rescheduling it would supersede its own
+        -- successor.
+        if generation > 0 then
+            local current = redis.call('HGET', runs_key, 'generation')
+            if not current or tonumber(current) > generation then
+                return 'SUPERSEDED'
+            end
+        end
+
         -- Increment generation counter
         local new_gen = start_new_run()
         if generation_index then
@@ -741,6 +753,13 @@ class Execution:
                     message=message,
                 )
 
+        if reply in (b"SUPERSEDED", "SUPERSEDED"):
+            # A newer schedule owns this key.  The script retired our stream
+            # message and left the newer schedule untouched.
+            self._acked = True
+            self.disposition = Disposition.ALREADY_SCHEDULED
+            return self.disposition
+
         if reply in (b"EXISTS", "EXISTS"):
             # An existing schedule for this key remains untouched; leave local
             # state alone and do not publish a misleading state event.
-- 
2.43.0


From d70e2a7a8547e0b590fb516b39b07da1e960a967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:27 +0000
Subject: [PATCH 03/46] fix: keep the worker running when a cancellation lands
 outside a task's body

docket.cancel() cancels the asyncio task that processes an execution.  When
that hit while the execution was being claimed or finalized, CancelledError
escaped into the worker's main loop, which took it for its own shutdown and
returned.
---
 src/docket/worker.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/docket/worker.py b/src/docket/worker.py
index 567f714..3e5b15e 100644
--- a/src/docket/worker.py
+++ b/src/docket/worker.py
@@ -698,6 +698,14 @@ class Worker:
                 self._tasks_by_key.pop(execution.key, None)
                 try:
                     await task
+                except asyncio.CancelledError:
+                    # docket.cancel() reached the task outside of its own
+                    # cancellation handling (e.g. while it was being claimed or
+                    # finalized).  That's not the worker being shut down.
+                    if not task.cancelled():
+                        raise  # pragma: no cover
+                    if not execution._acked:
+                        await execution.mark_as_cancelled()
                 except AdmissionBlocked as e:
                     if e.handled:
                         # The admission gate already handled the task --
-- 
2.43.0


From 8a063eaea4e262eb557e51b66f0a8ea6d27a2591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:27 +0000
Subject: [PATCH 04/46] fix: never start a task that was cancelled while
 waiting

docket.cancel() could not remove the message of a task the scheduler had
moved to the stream, or one already delivered to a worker; it then ran
although it was reported as cancelled.
---
 src/docket/execution.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/docket/execution.py b/src/docket/execution.py
index 03a8d23..d7c026e 100644
--- a/src/docket/execution.py
+++ b/src/docket/execution.py
@@ -294,7 +294,12 @@ async def _claim(
             end
             return 'SUPERSEDED'
         end
-        if tonumber(current) > generation then
+        -- A cancelled run must not start either: its message may have been out
+        -- of docket.cancel()'s reach (already delivered, or moved here by the
+        -- scheduler).
+        if tonumber(current) > generation
+            or redis.call('HGET', runs_key, 'state') == 'cancelled'
+        then
             if message_id ~= '' then
                 redis.call('XACK', stream_key, worker_group_name, message_id)
                 redis.call('XDEL', stream_key, message_id)
-- 
2.43.0


From afa60ecca38bf9c05c95cb06a721a11e9fce0bb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:35 +0000
Subject: [PATCH 05/46] fix: keep renewing leases while a worker drains

---
 src/docket/worker.py | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/src/docket/worker.py b/src/docket/worker.py
index 3e5b15e..a90c816 100644
--- a/src/docket/worker.py
+++ b/src/docket/worker.py
@@ -742,6 +742,7 @@ class Worker:
                     await execution.mark_as_failed(error=None)
 
         disconnect: ConnectionError | None = None
+        lease_renewal: asyncio.Task[None] | None = None
         try:
             async with AsyncExitStack() as dependency_stack:
                 # Each Dependency class used by a registered task may declare
@@ -779,7 +780,7 @@ class Worker:
                         self._scheduler_loop(redis),
                         name=f"{self.docket.name} - scheduler",
                     )
-                    infra.create_task(
+                    lease_renewal = asyncio.create_task(
                         self._renew_leases(redis, active_tasks),
                         name=f"{self.docket.name} - lease renewal",
                     )
@@ -847,9 +848,15 @@ class Worker:
                 await cancel_task(self._heartbeat_task, CANCEL_MSG_CLEANUP)
             self._heartbeat_task = None
             await self._remove_heartbeat()
-            if active_tasks:
-                await asyncio.gather(*active_tasks, return_exceptions=True)
-                await process_completed_tasks()
+            try:
+                if active_tasks:
+                    await asyncio.gather(*active_tasks, return_exceptions=True)
+                    await process_completed_tasks()
+            finally:
+                # Leases are held until everything has drained, so that another
+                # worker doesn't redeliver what this one is still finishing.
+                if lease_renewal is not None:
+                    await cancel_task(lease_renewal, CANCEL_MSG_CLEANUP)
             if self._processing_session is session:
                 self._processing_session = None
 
@@ -900,18 +907,14 @@ class Worker:
         """Periodically renew leases on stream messages.
 
         Calls XCLAIM with idle=0 to reset the message's idle time, preventing
-        XAUTOCLAIM from reclaiming it while we're still processing.
+        XAUTOCLAIM from reclaiming it while we're still processing.  Runs until
+        it is cancelled, once the worker has drained.
         """
-        session = self._processing_session
-        if session is None:
-            return  # pragma: no cover
-
         # Renew leases 4 times per redelivery_timeout period
         renewal_interval = self.redelivery_timeout.total_seconds() / 4
 
-        while not session.stopping.is_set():  # pragma: no branch
-            if await _wait_for_event(session.stopping, renewal_interval):
-                return
+        while True:
+            await asyncio.sleep(renewal_interval)
 
             message_ids = list(active_messages.values())
             if not message_ids:
-- 
2.43.0


From 8ceba1becb551e13bf72863645effeff0acfc9bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:23 +0000
Subject: [PATCH 06/46] fix: drop a cancelled task's record in the cancellation
 script itself

---
 src/docket/docket.py | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/src/docket/docket.py b/src/docket/docket.py
index ad8e775..4910ad4 100644
--- a/src/docket/docket.py
+++ b/src/docket/docket.py
@@ -76,6 +76,7 @@ async def _cancel_task(
     progress_key: Key[str],
     task_key: Arg[str],
     completed_at: Arg[str],
+    ttl_seconds: Arg[int],
 ) -> bytes:
     """
     -- TODO: Remove known_key / parked_key / stream_id_key handling in
@@ -113,6 +114,14 @@ async def _cancel_task(
         redis.call('HSET', runs_key, 'state', 'cancelled', 'completed_at', completed_at)
     end
 
+    -- Expire (or drop) the tombstone in the same step, so that the record of a
+    -- concurrent add() of this key can't be expired or deleted instead.
+    if ttl_seconds > 0 then
+        redis.call('EXPIRE', runs_key, ttl_seconds)
+    else
+        redis.call('DEL', runs_key)
+    end
+
     return 'OK'
     """
     ...
@@ -754,6 +763,11 @@ class Docket(DocketSnapshotMixin):
         completed_at = datetime.now(timezone.utc).isoformat()
         task_runs_key = self.runs_key(key)
 
+        # TTL of the tombstone; execution_ttl=0 means no observability
+        ttl_seconds = (
+            int(self.execution_ttl.total_seconds()) if self.execution_ttl else 0
+        )
+
         # Execute the cancellation script
         await _cancel_task(
             redis,
@@ -766,16 +780,9 @@ class Docket(DocketSnapshotMixin):
             progress_key=self.key(f"progress:{key}"),
             task_key=key,
             completed_at=completed_at,
+            ttl_seconds=ttl_seconds,
         )
 
-        # Apply TTL or delete tombstone based on execution_ttl
-        if self.execution_ttl:
-            ttl_seconds = int(self.execution_ttl.total_seconds())
-            await redis.expire(task_runs_key, ttl_seconds)
-        else:
-            # execution_ttl=0 means no observability - delete tombstone immediately
-            await redis.delete(task_runs_key)
-
     async def strike(
         self,
         function: Callable[P, Awaitable[R]] | str | None = None,
-- 
2.43.0


From b9353a073b5f6b23ff2113cb5e4aca1881c9d4b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:23 +0000
Subject: [PATCH 07/46] fix: tell a key's runs apart by their message when
 generations start over

---
 src/docket/dependencies/_concurrency.py |  2 +-
 src/docket/execution.py                 | 44 +++++++++++++++++++------
 src/docket/worker.py                    |  4 +--
 3 files changed, 37 insertions(+), 13 deletions(-)

diff --git a/src/docket/dependencies/_concurrency.py b/src/docket/dependencies/_concurrency.py
index 30ffa6c..9d421f4 100644
--- a/src/docket/dependencies/_concurrency.py
+++ b/src/docket/dependencies/_concurrency.py
@@ -136,7 +136,7 @@ async def _acquire_or_park(
         'args', args_data,
         'kwargs', kwargs_data
     )
-    redis.call('HDEL', runs_key, 'stream_id')
+    redis.call('HDEL', runs_key, 'stream_id', 'message_id')
 
     redis.call('PUBLISH', state_channel, state_payload)
 
diff --git a/src/docket/execution.py b/src/docket/execution.py
index d7c026e..e229fbf 100644
--- a/src/docket/execution.py
+++ b/src/docket/execution.py
@@ -129,12 +129,20 @@ async def _schedule(
         redis.call('XACK', stream_key, worker_group_name, reschedule_message_id)
         redis.call('XDEL', stream_key, reschedule_message_id)
 
-        -- A newer schedule (e.g. Docket.replace) may own this key by now; then
-        -- this attempt is stale, and rescheduling it would supersede its own
-        -- successor.
+        -- A newer schedule (e.g. Docket.replace) may own this key by now, or
+        -- another attempt at the same message may have ended the task already;
+        -- then this attempt is stale, and rescheduling it would supersede its
+        -- own successor.  Nor does a cancelled task come back.
         if generation > 0 then
             local current = redis.call('HGET', runs_key, 'generation')
-            if not current or tonumber(current) > generation then
+            local owner = redis.call('HGET', runs_key, 'message_id')
+                or redis.call('HGET', runs_key, 'stream_id')
+            local state = redis.call('HGET', runs_key, 'state')
+            if not current or tonumber(current) > generation
+                or (owner and owner ~= reschedule_message_id)
+                or (not owner and state == 'scheduled')
+                or state == 'cancelled'
+            then
                 return 'SUPERSEDED'
             end
         end
@@ -296,9 +304,16 @@ async def _claim(
         end
         -- A cancelled run must not start either: its message may have been out
         -- of docket.cancel()'s reach (already delivered, or moved here by the
-        -- scheduler).
+        -- scheduler).  And a record that is about another message is not ours,
+        -- whatever its generation: with execution_ttl=0 the record of an ended
+        -- run is deleted, so a later run of the key starts over at generation 1.
+        local owner = redis.call('HGET', runs_key, 'stream_id')
+            or redis.call('HGET', runs_key, 'message_id')
+        local state = redis.call('HGET', runs_key, 'state')
         if tonumber(current) > generation
-            or redis.call('HGET', runs_key, 'state') == 'cancelled'
+            or state == 'cancelled'
+            or (message_id ~= '' and owner and owner ~= message_id)
+            or (message_id ~= '' and not owner and state == 'scheduled')
         then
             if message_id ~= '' then
                 redis.call('XACK', stream_key, worker_group_name, message_id)
@@ -311,6 +326,7 @@ async def _claim(
     -- Update execution state to running
     redis.call('HSET', runs_key,
         'state', 'running',
+        'message_id', message_id,
         'worker', worker,
         'started_at', started_at
     )
@@ -359,19 +375,27 @@ async def _terminal(
     extra_fields: Args[list[str]],
 ) -> bytes:
     """
-    -- Check supersession (generation 0 = pre-tracking, always write).  Two
-    -- supersession shapes, both handled the same way:
+    -- Check supersession (generation 0 = pre-tracking, always write).  Three
+    -- supersession shapes, all handled the same way:
     --   * runs hash missing entirely -- a newer generation already completed
     --     and its execution_ttl expired (or it was 0).
     --   * runs hash present but its generation is newer -- a successor is in
     --     flight or has just finished within its execution_ttl window.
-    -- In both cases we still publish the terminal-state event so subscribers
+    --   * runs hash is about another message -- with execution_ttl=0 a later run
+    --     of the key may have started over at the same generation.
+    -- In all cases we still publish the terminal-state event so subscribers
     -- waiting on completion don't deadlock, and we still clean up this
     -- execution's progress hash and stream entry.  We do NOT recreate or
     -- mutate the runs hash on a supersession -- the successor owns it.
     if generation > 0 then
         local current = redis.call('HGET', runs_key, 'generation')
-        if not current or tonumber(current) > generation then
+        local owner = redis.call('HGET', runs_key, 'message_id')
+            or redis.call('HGET', runs_key, 'stream_id')
+        local current_state = redis.call('HGET', runs_key, 'state')
+        if not current or tonumber(current) > generation
+            or (message_id ~= '' and owner and owner ~= message_id)
+            or (message_id ~= '' and not owner and current_state == 'scheduled')
+        then
             redis.call('PUBLISH', state_channel, state_payload)
             -- Only DEL the progress hash if it belongs to us (matching
             -- generation tag) or is untagged (pre-fix / pre-tracking data,
diff --git a/src/docket/worker.py b/src/docket/worker.py
index a90c816..88663cc 100644
--- a/src/docket/worker.py
+++ b/src/docket/worker.py
@@ -192,7 +192,7 @@ async def _stream_due_tasks(
                     task[task_data[j]] = task_data[j+1]
                 end
 
-                redis.call('XADD', stream_key, '*',
+                local message_id = redis.call('XADD', stream_key, '*',
                     'key', task['key'],
                     'when', task['when'],
                     'function', task['function'],
@@ -205,7 +205,7 @@ async def _stream_due_tasks(
 
                 -- Set run state to queued
                 local run_key = docket_prefix .. ":runs:" .. task['key']
-                redis.call('HSET', run_key, 'state', 'queued')
+                redis.call('HSET', run_key, 'state', 'queued', 'stream_id', message_id)
 
                 -- Publish state change event to pub/sub
                 local channel = docket_prefix .. ":state:" .. task['key']
-- 
2.43.0


From d8332fe4e1e4f1316b34f886b0a1187695b08957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:23 +0000
Subject: [PATCH 08/46] fix: do not let a late cancellation signal hit the
 key's next run

---
 src/docket/worker.py | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/src/docket/worker.py b/src/docket/worker.py
index 88663cc..c5fe53d 100644
--- a/src/docket/worker.py
+++ b/src/docket/worker.py
@@ -10,7 +10,7 @@ import socket
 import sys
 import time
 from contextlib import AsyncExitStack, contextmanager
-from dataclasses import dataclass
+from dataclasses import dataclass, field
 from datetime import datetime, timedelta, timezone
 from types import TracebackType
 from typing import (
@@ -132,6 +132,9 @@ class _ProcessingSession:
 
     stopping: asyncio.Event
     cancellation_ready: asyncio.Event
+    active_tasks: dict[asyncio.Task[None], RedisMessageID] = field(
+        default_factory=dict[asyncio.Task[None], RedisMessageID]
+    )
 
 
 async def default_fallback_task(
@@ -612,7 +615,7 @@ class Worker:
         )
         self._processing_session = session
         stopping = self._worker_stopping
-        active_tasks: dict[asyncio.Task[None], RedisMessageID] = {}
+        active_tasks = session.active_tasks
         task_executions: dict[asyncio.Task[None], Execution] = {}
         available_slots = self.concurrency
         log_context = self._log_context()
@@ -695,7 +698,9 @@ class Worker:
             for task in completed_tasks:
                 message_id = active_tasks.pop(task)
                 execution = task_executions.pop(task)
-                self._tasks_by_key.pop(execution.key, None)
+                # A later run of this key may have started here meanwhile
+                if self._tasks_by_key.get(execution.key) is task:
+                    del self._tasks_by_key[execution.key]
                 try:
                     await task
                 except asyncio.CancelledError:
@@ -1391,6 +1396,19 @@ class Worker:
         key: TaskKey = data.decode() if isinstance(data, bytes) else data
 
         if task := self._tasks_by_key.get(key):  # pragma: no branch
+            # docket.cancel() marked the run it cancelled before it sent this
+            # signal; a task whose own record says that it's running has started
+            # since then, and isn't the one to cancel.
+            async with self.docket.redis() as redis:
+                record = await redis.hgetall(self.docket.runs_key(key))
+            session = self._processing_session
+            if (
+                record.get(b"state") == b"running"
+                and session is not None
+                and session.active_tasks.get(task) == record.get(b"message_id")
+            ):
+                return
+
             logger.info(
                 "Cancelling running task %r",
                 key,
-- 
2.43.0


From b2913702772666e0cbfdeaddc89d85b5b8a13e94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:30 +0000
Subject: [PATCH 09/46] fix: announce the cancellation of a waiting task

---
 src/docket/docket.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/docket/docket.py b/src/docket/docket.py
index 4910ad4..219d5a6 100644
--- a/src/docket/docket.py
+++ b/src/docket/docket.py
@@ -1,4 +1,5 @@
 import importlib
+import json
 import logging
 from contextlib import AsyncExitStack, asynccontextmanager
 from datetime import datetime, timedelta, timezone
@@ -77,6 +78,8 @@ async def _cancel_task(
     task_key: Arg[str],
     completed_at: Arg[str],
     ttl_seconds: Arg[int],
+    state_channel: Key[str],
+    state_payload: Arg[str],
 ) -> bytes:
     """
     -- TODO: Remove known_key / parked_key / stream_id_key handling in
@@ -114,6 +117,12 @@ async def _cancel_task(
         redis.call('HSET', runs_key, 'state', 'cancelled', 'completed_at', completed_at)
     end
 
+    -- Nobody else announces the end of a task that was still waiting; a running
+    -- one is announced by its worker.
+    if current_state == 'scheduled' or current_state == 'queued' then
+        redis.call('PUBLISH', state_channel, state_payload)
+    end
+
     -- Expire (or drop) the tombstone in the same step, so that the record of a
     -- concurrent add() of this key can't be expired or deleted instead.
     if ttl_seconds > 0 then
@@ -781,6 +790,15 @@ class Docket(DocketSnapshotMixin):
             task_key=key,
             completed_at=completed_at,
             ttl_seconds=ttl_seconds,
+            state_channel=self.key(f"state:{key}"),
+            state_payload=json.dumps(
+                {
+                    "type": "state",
+                    "key": key,
+                    "state": "cancelled",
+                    "completed_at": completed_at,
+                }
+            ),
         )
 
     async def strike(
-- 
2.43.0


From 53b9ea90961d5302dc36543c3bfd9069e670fc28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:30 +0000
Subject: [PATCH 10/46] fix: get_result() waits for the record and reads its
 own run's result

---
 src/docket/execution.py | 57 +++++++++++++++++++++++++++++++++++------
 src/docket/worker.py    |  4 +--
 2 files changed, 51 insertions(+), 10 deletions(-)

diff --git a/src/docket/execution.py b/src/docket/execution.py
index e229fbf..b8628ee 100644
--- a/src/docket/execution.py
+++ b/src/docket/execution.py
@@ -44,6 +44,10 @@ if TYPE_CHECKING:
 logger: logging.Logger = logging.getLogger(__name__)
 
 
+# How often get_result() re-reads the execution while it waits for an event
+RESULT_POLL_INTERVAL = timedelta(seconds=1)
+
+
 class ExecutionCancelled(Exception):
     """Raised when get_result() is called on a cancelled execution."""
 
@@ -983,6 +987,14 @@ class Execution:
         """Mark task as cancelled."""
         await self._mark_as_terminal(ExecutionState.CANCELLED)
 
+    @property
+    def result_storage_key(self) -> str:
+        """Where this run's result is stored; a superseded run of the same key,
+        ending late, must not overwrite the result of its successor."""
+        if self._generation <= 1:
+            return self.key
+        return f"{self.key}#run-{self._generation}"
+
     async def get_result(
         self,
         *,
@@ -1038,14 +1050,43 @@ class Execution:
 
             try:
 
-                async def wait_for_completion():
-                    async for event in self.subscribe():  # pragma: no branch
-                        if event["type"] == "state":
-                            state = ExecutionState(event["state"])
-                            if state in terminal_states:
-                                # Sync to get latest data including result key
-                                await self.sync()
-                                break
+                async def wait_for_completion() -> None:
+                    # The record decides; events only wake us up early.  They
+                    # may be missed (published just before our subscription, or
+                    # while it reconnects), and may be about another run of
+                    # this key (e.g. a superseded one ending late).
+                    ended = asyncio.Event()
+
+                    async def listen() -> None:
+                        async for event in self.subscribe():
+                            if (
+                                event["type"] == "state"
+                                and ExecutionState(event["state"]) in terminal_states
+                            ):
+                                ended.set()
+
+                    listener = asyncio.create_task(listen())
+                    try:
+                        while True:
+                            announced = ended.is_set()
+                            ended.clear()
+                            await self.sync()
+                            if self.state in terminal_states:
+                                return
+                            if announced:
+                                async with self.docket.redis() as redis:
+                                    if not await redis.exists(self._redis_key):
+                                        # Over, but nothing is kept about it
+                                        return
+                            try:
+                                await asyncio.wait_for(
+                                    ended.wait(), RESULT_POLL_INTERVAL.total_seconds()
+                                )
+                            except asyncio.TimeoutError:
+                                pass
+                    finally:
+                        listener.cancel()
+                        await asyncio.gather(listener, return_exceptions=True)
 
                 # Use asyncio.wait_for to enforce timeout
                 await asyncio.wait_for(wait_for_completion(), timeout=timeout_seconds)
diff --git a/src/docket/worker.py b/src/docket/worker.py
index c5fe53d..c21dc04 100644
--- a/src/docket/worker.py
+++ b/src/docket/worker.py
@@ -1156,7 +1156,7 @@ class Worker:
                             encoded_result = base64.b64encode(pickled_result).decode(
                                 "ascii"
                             )
-                            result_key = execution.key
+                            result_key = execution.result_storage_key
                             ttl_seconds = int(self.docket.execution_ttl.total_seconds())
                             await self.docket.result_storage.put(
                                 result_key, {"data": encoded_result}, ttl=ttl_seconds
@@ -1236,7 +1236,7 @@ class Worker:
                         encoded_exception = base64.b64encode(pickled_exception).decode(
                             "ascii"
                         )
-                        result_key = execution.key
+                        result_key = execution.result_storage_key
                         ttl_seconds = int(self.docket.execution_ttl.total_seconds())
                         await self.docket.result_storage.put(
                             result_key, {"data": encoded_exception}, ttl=ttl_seconds
-- 
2.43.0


From 90ca8023fd99c95f36b69bb89d68653fb36216e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:59 +0000
Subject: [PATCH 11/46] fix: a Redis error while recording a success is not a
 task failure

A connection error in the completion handler, in storing the result, in
mark_as_completed or in releasing a dependency after the task body returned was
handled as if the body had raised it: the succeeded task was retried or its
record said 'failed'.
---
 src/docket/worker.py | 98 +++++++++++++++++++++++++++++---------------
 1 file changed, 65 insertions(+), 33 deletions(-)

diff --git a/src/docket/worker.py b/src/docket/worker.py
index c21dc04..02999a7 100644
--- a/src/docket/worker.py
+++ b/src/docket/worker.py
@@ -39,7 +39,7 @@ from ._lua import Arg, Key, redis_script
 from ._redis import RedisClient
 from ._telemetry import suppress_instrumentation
 from redis.asyncio import Redis
-from redis.exceptions import ConnectionError, LockError, ResponseError
+from redis.exceptions import ConnectionError, LockError, RedisError, ResponseError
 from typing_extensions import Self
 
 from .dependencies import (
@@ -1065,6 +1065,8 @@ class Worker:
         )
 
         dependencies: dict[str, Dependency] = {}
+        success: TaskOutcome | None = None
+        recorded = False
 
         with tracer.start_as_current_span(
             execution.function_name,
@@ -1133,41 +1135,14 @@ class Worker:
 
                     span.set_status(Status(StatusCode.OK))
 
-                    # Check for completion handler (e.g., Perpetual)
-                    completion_handler = get_single_dependency_of_type(
-                        dependencies, CompletionHandler
-                    )
-                    outcome = TaskOutcome(
+                    success = TaskOutcome(
                         duration=timedelta(seconds=duration),
                         result=result,
                     )
-                    if completion_handler and await completion_handler.on_complete(
-                        execution, outcome
-                    ):
-                        # Handler took responsibility (rescheduled, logged, recorded metrics)
-                        await execution.mark_as_completed(result_key=None)
-                    else:
-                        # No handler or handler didn't handle - normal completion
-                        result_key = None
-                        if result is not None and self.docket.execution_ttl:
-                            # Serialize and store result
-                            pickled_result = cloudpickle.dumps(result)  # type: ignore[arg-type]
-                            # Base64-encode for JSON serialization
-                            encoded_result = base64.b64encode(pickled_result).decode(
-                                "ascii"
-                            )
-                            result_key = execution.result_storage_key
-                            ttl_seconds = int(self.docket.execution_ttl.total_seconds())
-                            await self.docket.result_storage.put(
-                                result_key, {"data": encoded_result}, ttl=ttl_seconds
-                            )
-                        await execution.mark_as_completed(result_key=result_key)
-                        logger.info(
-                            "↩ [%s] %s",
-                            format_duration(duration),
-                            call,
-                            extra=log_context,
-                        )
+                    await self._record_success(
+                        execution, dependencies, success, log_context
+                    )
+                    recorded = True
             except AdmissionBlocked:
                 # Admission control (e.g. ConcurrencyLimit) is a rescheduling
                 # signal, not a task failure. Mark the span OK before re-raising
@@ -1188,6 +1163,24 @@ class Worker:
                     extra=log_context,
                 )
             except Exception as e:
+                if success and isinstance(e, RedisError):
+                    # The task itself succeeded; it is Redis that failed us while
+                    # recording that or while releasing the dependencies.  Don't
+                    # retry or fail the task for it: record the success again,
+                    # and should that fail too, leave the message to redelivery.
+                    span.record_exception(e)
+                    logger.warning(
+                        "Redis error after %s succeeded",
+                        call,
+                        exc_info=True,
+                        extra=log_context,
+                    )
+                    if not recorded:
+                        await self._record_success(
+                            execution, dependencies, success, log_context
+                        )
+                    return
+
                 duration = log_context["duration"] = time.time() - start
                 TASKS_FAILED.add(1, counter_labels)
 
@@ -1250,6 +1243,45 @@ class Worker:
                 TASKS_COMPLETED.add(1, counter_labels)
                 TASK_DURATION.record(duration, counter_labels)
 
+    async def _record_success(
+        self,
+        execution: Execution,
+        dependencies: dict[str, Dependency],
+        outcome: TaskOutcome,
+        log_context: dict[str, Any],
+    ) -> None:
+        """Run the completion handler, store the result, and mark as completed."""
+        # Check for completion handler (e.g., Perpetual)
+        completion_handler = get_single_dependency_of_type(
+            dependencies, CompletionHandler
+        )
+        if completion_handler and await completion_handler.on_complete(
+            execution, outcome
+        ):
+            # Handler took responsibility (rescheduled, logged, recorded metrics)
+            await execution.mark_as_completed(result_key=None)
+            return
+
+        # No handler or handler didn't handle - normal completion
+        result_key = None
+        if outcome.result is not None and self.docket.execution_ttl:
+            # Serialize and store result
+            pickled_result = cloudpickle.dumps(outcome.result)  # type: ignore[arg-type]
+            # Base64-encode for JSON serialization
+            encoded_result = base64.b64encode(pickled_result).decode("ascii")
+            result_key = execution.result_storage_key
+            ttl_seconds = int(self.docket.execution_ttl.total_seconds())
+            await self.docket.result_storage.put(
+                result_key, {"data": encoded_result}, ttl=ttl_seconds
+            )
+        await execution.mark_as_completed(result_key=result_key)
+        logger.info(
+            "↩ [%s] %s",
+            format_duration(outcome.duration.total_seconds()),
+            execution.call_repr(),
+            extra=log_context,
+        )
+
     def _startup_log(self) -> None:
         logger.info("Starting worker %r with the following tasks:", self.name)
         for task_name, task in self.docket.tasks.items():
-- 
2.43.0


From 6a659781668db4bb9886b6bccb99dca8098d5bc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:49 +0000
Subject: [PATCH 12/46] fix: a late cancellation signal must not hit a
 delivered but unclaimed task

The listener only recognised the key's next run once it was claimed; a run
delivered to the worker and still claiming was cancelled by the signal meant
for its predecessor.
---
 src/docket/worker.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/docket/worker.py b/src/docket/worker.py
index 02999a7..c77d4fd 100644
--- a/src/docket/worker.py
+++ b/src/docket/worker.py
@@ -1429,15 +1429,16 @@ class Worker:
 
         if task := self._tasks_by_key.get(key):  # pragma: no branch
             # docket.cancel() marked the run it cancelled before it sent this
-            # signal; a task whose own record says that it's running has started
-            # since then, and isn't the one to cancel.
+            # signal; a task whose own record is still live (claimed or yet to
+            # be) was scheduled since then, and isn't the one to cancel.
             async with self.docket.redis() as redis:
                 record = await redis.hgetall(self.docket.runs_key(key))
             session = self._processing_session
             if (
-                record.get(b"state") == b"running"
+                record.get(b"state") in (b"queued", b"running")
                 and session is not None
-                and session.active_tasks.get(task) == record.get(b"message_id")
+                and session.active_tasks.get(task)
+                == (record.get(b"stream_id") or record.get(b"message_id"))
             ):
                 return
 
-- 
2.43.0


From 8da98327d73200516a2a6177fb7a50a80ef9600c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:04 +0000
Subject: [PATCH 13/46] fix: ExponentialRetry overflowed after some 45 attempts
 and gave up

2**(attempt-1) times the delay no longer fits a timedelta, so resolving the
dependency failed and with it the task, although retries were unlimited.
---
 src/docket/dependencies/_retry.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/docket/dependencies/_retry.py b/src/docket/dependencies/_retry.py
index 6f3592b..73c387b 100644
--- a/src/docket/dependencies/_retry.py
+++ b/src/docket/dependencies/_retry.py
@@ -205,11 +205,12 @@ class ExponentialRetry(Retry):
 
         if execution.attempt > 1:
             backoff_factor = 2 ** (execution.attempt - 1)
-            calculated_delay = self.delay * backoff_factor
 
-            if calculated_delay > self.maximum_delay:
+            # Compare before multiplying: after enough attempts the product no
+            # longer fits a timedelta
+            if self.delay and backoff_factor > self.maximum_delay / self.delay:
                 retry.delay = self.maximum_delay
             else:
-                retry.delay = calculated_delay
+                retry.delay = self.delay * backoff_factor
 
         return retry
-- 
2.43.0


From d51169f79a0fd297fa26c7392f1bf91d79bda147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:35 +0000
Subject: [PATCH 14/46] fix: an exception that can't be pickled must not kill
 the worker

Storing the exception of a failed task raised out of Worker._execute when the
exception can't be pickled (one holding a lock, a connection, a generator ...).
That stopped the worker, left the message pending, and by redelivery stopped
the next worker, and the next.  Record the failure without the exception;
get_result() then raises the recorded error message.
---
 src/docket/worker.py | 32 ++++++++++++++++++++++----------
 1 file changed, 22 insertions(+), 10 deletions(-)

diff --git a/src/docket/worker.py b/src/docket/worker.py
index c77d4fd..bd721e4 100644
--- a/src/docket/worker.py
+++ b/src/docket/worker.py
@@ -1224,16 +1224,28 @@ class Worker:
                     # Store exception in result_storage (only when not retrying)
                     result_key = None
                     if self.docket.execution_ttl:
-                        pickled_exception = cloudpickle.dumps(e)  # type: ignore[arg-type]
-                        # Base64-encode for JSON serialization
-                        encoded_exception = base64.b64encode(pickled_exception).decode(
-                            "ascii"
-                        )
-                        result_key = execution.result_storage_key
-                        ttl_seconds = int(self.docket.execution_ttl.total_seconds())
-                        await self.docket.result_storage.put(
-                            result_key, {"data": encoded_exception}, ttl=ttl_seconds
-                        )
+                        try:
+                            pickled_exception = cloudpickle.dumps(e)  # type: ignore[arg-type]
+                        except Exception:
+                            # Not every exception can be pickled.  That must not
+                            # take down the worker (and, by redelivery, the next
+                            # one); get_result() will raise the error message.
+                            logger.warning(
+                                "Can't store the exception raised by %s",
+                                call,
+                                exc_info=True,
+                                extra=log_context,
+                            )
+                        else:
+                            # Base64-encode for JSON serialization
+                            encoded_exception = base64.b64encode(
+                                pickled_exception
+                            ).decode("ascii")
+                            result_key = execution.result_storage_key
+                            ttl_seconds = int(self.docket.execution_ttl.total_seconds())
+                            await self.docket.result_storage.put(
+                                result_key, {"data": encoded_exception}, ttl=ttl_seconds
+                            )
 
                     # Mark execution as failed with error message
                     error_msg = f"{type(e).__name__}: {str(e)}"
-- 
2.43.0


From 8a977ce86db4b6e7461b0ac4965d01d67598302c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:44 +0000
Subject: [PATCH 15/46] fix: a run that has ended is not started again by a
 late claim

A worker stalled between receiving a message and claiming it could claim, and
run, the task after the worker it had been redelivered to had finished it: the
record went from completed (or failed) back to running.  Treat the claim as
superseded, as is done when the key has been scheduled again since.
---
 src/docket/execution.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/docket/execution.py b/src/docket/execution.py
index b8628ee..adccf27 100644
--- a/src/docket/execution.py
+++ b/src/docket/execution.py
@@ -311,6 +311,8 @@ async def _claim(
         -- scheduler).  And a record that is about another message is not ours,
         -- whatever its generation: with execution_ttl=0 the record of an ended
         -- run is deleted, so a later run of the key starts over at generation 1.
+        -- Nor does a run start again that has ended under this very message:
+        -- the worker it was redelivered to was faster than we were.
         local owner = redis.call('HGET', runs_key, 'stream_id')
             or redis.call('HGET', runs_key, 'message_id')
         local state = redis.call('HGET', runs_key, 'state')
@@ -318,6 +320,8 @@ async def _claim(
             or state == 'cancelled'
             or (message_id ~= '' and owner and owner ~= message_id)
             or (message_id ~= '' and not owner and state == 'scheduled')
+            or (message_id ~= '' and owner == message_id
+                and (state == 'completed' or state == 'failed'))
         then
             if message_id ~= '' then
                 redis.call('XACK', stream_key, worker_group_name, message_id)
-- 
2.43.0


From 976879bd28109e8bfa02ff9c7279ead4d1dab970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:40 +0000
Subject: [PATCH 16/46] fix: don't park a run for a concurrency slot that was
 cancelled or replaced

Between a worker's claim and its attempt to get a slot, the run may be cancelled
or replaced.  Parking it nevertheless marked the key's record as scheduled again
and bumped its generation: the cancelled task was revived, and a replacement's
message was taken for superseded and dropped.
---
 src/docket/dependencies/_concurrency.py | 40 ++++++++++++++++++++++++-
 1 file changed, 39 insertions(+), 1 deletion(-)

diff --git a/src/docket/dependencies/_concurrency.py b/src/docket/dependencies/_concurrency.py
index 9d421f4..bd9323a 100644
--- a/src/docket/dependencies/_concurrency.py
+++ b/src/docket/dependencies/_concurrency.py
@@ -66,7 +66,8 @@ async def _acquire_or_park(
     -- atomically.  Returns 1 if acquired (task should run), 0 if parked
     -- (the inflight stream message has been XACK+XDEL'd and re-XADD'd
     -- into the waiter stream; caller raises ConcurrencyBlocked(handled=True)
-    -- so the worker takes no further action).
+    -- so the worker takes no further action), 2 if the run would have to wait
+    -- but has been cancelled or replaced meanwhile (nothing was done).
 
     -- If this task already has a slot (previous delivery attempt), only a
     -- redelivery with a stale original holder can take it over.  Otherwise we
@@ -96,6 +97,36 @@ async def _acquire_or_park(
         end
     end
 
+    -- Don't park a run that was cancelled or replaced since it was claimed: the
+    -- record is no longer about it, and parking it would revive it (and, by
+    -- bumping the generation, discard its replacement).  If it's this very run
+    -- that is parked already, the command was just sent twice.
+    local generation = 0
+    for i = message_start, #ARGV, 2 do
+        if ARGV[i] == 'generation' then
+            generation = tonumber(ARGV[i + 1])
+        end
+    end
+    if generation > 0 then
+        local current = redis.call('HGET', runs_key, 'generation')
+        local state = redis.call('HGET', runs_key, 'state')
+        local owner = redis.call('HGET', runs_key, 'message_id')
+            or redis.call('HGET', runs_key, 'stream_id')
+        if current and tonumber(current) == generation + 1
+            and state == 'scheduled'
+            and redis.call('HGET', runs_key, 'waiter_stream') == waiters_stream
+        then
+            return 0
+        end
+        if not current or tonumber(current) > generation
+            or state == 'cancelled'
+            or (owner and owner ~= message_id)
+            or (not owner and state == 'scheduled')
+        then
+            return 2
+        end
+    end
+
     -- Park: ACK the main-stream message, re-XADD the payload into the waiter
     -- stream.  Doing this here, atomically with the acquire check, keeps a
     -- concurrent slot release from missing us in the gap between "blocked" and
@@ -592,6 +623,13 @@ class ConcurrencyLimit(Dependency["ConcurrencyLimit"]):
                 message=message,
             )
 
+        if result == 2:
+            raise AdmissionBlocked(
+                execution,
+                reason="having been cancelled or replaced before it got a slot",
+                reschedule=False,
+            )
+
         if not bool(result):  # pragma: no branch
             logger.debug(
                 "⏳ Task %s parked on waiter stream %s",
-- 
2.43.0


From 859105c353cc73b8ff5db9c0ebc8903eb39dbb32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:40 +0000
Subject: [PATCH 17/46] fix: a task waiting for a concurrency slot is still
 known

The claim removes the 'known' marker, and parking the task didn't restore it, so
adding the same key again was accepted and displaced the waiting task.
---
 src/docket/dependencies/_concurrency.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/docket/dependencies/_concurrency.py b/src/docket/dependencies/_concurrency.py
index bd9323a..dbfee95 100644
--- a/src/docket/dependencies/_concurrency.py
+++ b/src/docket/dependencies/_concurrency.py
@@ -159,8 +159,10 @@ async def _acquire_or_park(
 
     -- Record the waiter's location so the dependency's cancel subscriber can
     -- find and XDEL the waiter entry when the task transitions to 'cancelled'.
+    -- 'known' makes add() see that this key is taken (the claim removed it).
     redis.call('HSET', runs_key,
         'state', 'scheduled',
+        'known', current_time,
         'waiter_stream', waiters_stream,
         'waiter_entry_id', waiter_entry_id,
         'function', function_name,
-- 
2.43.0


From 5049bf18aa040ee0841d25036f5b383758a03017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:50 +0000
Subject: [PATCH 18/46] fix: cancelled or superseded waiters neither use up
 freed capacity nor wake their successor

---
 src/docket/dependencies/_concurrency.py | 110 ++++++++++++++----------
 1 file changed, 65 insertions(+), 45 deletions(-)

diff --git a/src/docket/dependencies/_concurrency.py b/src/docket/dependencies/_concurrency.py
index dbfee95..e182b41 100644
--- a/src/docket/dependencies/_concurrency.py
+++ b/src/docket/dependencies/_concurrency.py
@@ -230,9 +230,13 @@ async def _release_and_wake(
         end
     end
 
+    -- Every entry read is removed, and only the forwarded ones use up capacity
     local capacity = max_concurrent - redis.call('ZCARD', slots_key)
-    if capacity > 0 then
+    while capacity > 0 do
         local entries = redis.call('XRANGE', waiters_stream, '-', '+', 'COUNT', capacity)
+        if #entries == 0 then
+            break
+        end
         for _, entry in ipairs(entries) do
             local waiter_id = entry[1]
             local fields = entry[2]
@@ -249,20 +253,26 @@ async def _release_and_wake(
 
             local runs_key = runs_prefix .. waiter_task_key
 
-            -- Forward only if the task is still in the parked state.  Anything
-            -- else -- 'cancelled', a missing runs hash (DELed by a cancel with
-            -- execution_ttl=0), or any other terminal state -- means the task
+            -- Forward only if the task is still in the parked state, on this
+            -- very entry.  Anything else -- 'cancelled', a missing runs hash
+            -- (DELed by a cancel with execution_ttl=0), any other terminal
+            -- state, or a later schedule of the same key -- means the task
             -- has been superseded and must not be revived.  Drop the waiter
             -- entry without forwarding.
             local current_state = redis.call('HGET', runs_key, 'state')
+            local current_entry = redis.call('HGET', runs_key, 'waiter_entry_id')
             local safeguard_key = '__safeguard__:' .. waiter_task_key
-            if current_state ~= 'scheduled' then
+            if current_state ~= 'scheduled' or current_entry ~= waiter_id then
                 redis.call('XDEL', waiters_stream, waiter_id)
-                -- Cancelled/superseded waiter: drop its safeguard backstop too.
-                redis.call('ZREM', queue_key, safeguard_key)
-                redis.call('DEL', parked_prefix .. safeguard_key)
-                redis.call('DEL', runs_prefix .. safeguard_key)
+                -- Cancelled/superseded waiter: drop its safeguard backstop too,
+                -- unless that now belongs to a successor which is parked.
+                if current_state ~= 'scheduled' or not current_entry then
+                    redis.call('ZREM', queue_key, safeguard_key)
+                    redis.call('DEL', parked_prefix .. safeguard_key)
+                    redis.call('DEL', runs_prefix .. safeguard_key)
+                end
             else
+                capacity = capacity - 1
                 local new_gen = redis.call('HINCRBY', runs_key, 'generation', 1)
                 for i = 1, #fields, 2 do
                     if fields[i] == 'generation' then
@@ -347,56 +357,66 @@ async def _scavenge_and_wake(
         redis.call('ZREM', slots_key, s)
     end
 
+    -- Every entry read is removed, and only the forwarded ones use up capacity
     local capacity = max_concurrent - redis.call('ZCARD', slots_key)
     if capacity == 0 then
         return 0
     end
 
     local woken = 0
-    local entries = redis.call('XRANGE', waiters_stream, '-', '+', 'COUNT', capacity)
-    for _, entry in ipairs(entries) do
-        local waiter_id = entry[1]
-        local fields = entry[2]
-
-        local waiter_task_key
-        for i = 1, #fields, 2 do
-            if fields[i] == 'key' then
-                waiter_task_key = fields[i + 1]
-                break
-            end
+    while capacity > 0 do
+        local entries = redis.call('XRANGE', waiters_stream, '-', '+', 'COUNT', capacity)
+        if #entries == 0 then
+            break
         end
+        for _, entry in ipairs(entries) do
+            local waiter_id = entry[1]
+            local fields = entry[2]
 
-        local runs_key = runs_prefix .. waiter_task_key
-
-        -- Skip cancelled/superseded waiters: drop the entry without forwarding.
-        local current_state = redis.call('HGET', runs_key, 'state')
-        local safeguard_key = '__safeguard__:' .. waiter_task_key
-        if current_state ~= 'scheduled' then
-            redis.call('XDEL', waiters_stream, waiter_id)
-            redis.call('ZREM', queue_key, safeguard_key)
-            redis.call('DEL', parked_prefix .. safeguard_key)
-            redis.call('DEL', runs_prefix .. safeguard_key)
-        else
-            local new_gen = redis.call('HINCRBY', runs_key, 'generation', 1)
+            local waiter_task_key
             for i = 1, #fields, 2 do
-                if fields[i] == 'generation' then
-                    fields[i + 1] = tostring(new_gen)
+                if fields[i] == 'key' then
+                    waiter_task_key = fields[i + 1]
+                    break
                 end
             end
 
-            local main_id = redis.call('XADD', stream_key, '*', unpack(fields))
-            redis.call('XDEL', waiters_stream, waiter_id)
-            redis.call('HSET', runs_key, 'state', 'queued', 'stream_id', main_id)
-            redis.call('HDEL', runs_key, 'waiter_stream', 'waiter_entry_id')
+            local runs_key = runs_prefix .. waiter_task_key
 
-            -- Cancel the safeguard task this waiter scheduled on park.
-            redis.call('ZREM', queue_key, safeguard_key)
-            redis.call('DEL', parked_prefix .. safeguard_key)
-            redis.call('DEL', runs_prefix .. safeguard_key)
+            -- Skip cancelled/superseded waiters: drop the entry without forwarding.
+            local current_state = redis.call('HGET', runs_key, 'state')
+            local current_entry = redis.call('HGET', runs_key, 'waiter_entry_id')
+            local safeguard_key = '__safeguard__:' .. waiter_task_key
+            if current_state ~= 'scheduled' or current_entry ~= waiter_id then
+                redis.call('XDEL', waiters_stream, waiter_id)
+                if current_state ~= 'scheduled' or not current_entry then
+                    redis.call('ZREM', queue_key, safeguard_key)
+                    redis.call('DEL', parked_prefix .. safeguard_key)
+                    redis.call('DEL', runs_prefix .. safeguard_key)
+                end
+            else
+                capacity = capacity - 1
+                local new_gen = redis.call('HINCRBY', runs_key, 'generation', 1)
+                for i = 1, #fields, 2 do
+                    if fields[i] == 'generation' then
+                        fields[i + 1] = tostring(new_gen)
+                    end
+                end
 
-            local payload = '{"type":"state","key":"' .. json_escape(waiter_task_key) .. '","state":"queued"}'
-            redis.call('PUBLISH', state_prefix .. waiter_task_key, payload)
-            woken = woken + 1
+                local main_id = redis.call('XADD', stream_key, '*', unpack(fields))
+                redis.call('XDEL', waiters_stream, waiter_id)
+                redis.call('HSET', runs_key, 'state', 'queued', 'stream_id', main_id)
+                redis.call('HDEL', runs_key, 'waiter_stream', 'waiter_entry_id')
+
+                -- Cancel the safeguard task this waiter scheduled on park.
+                redis.call('ZREM', queue_key, safeguard_key)
+                redis.call('DEL', parked_prefix .. safeguard_key)
+                redis.call('DEL', runs_prefix .. safeguard_key)
+
+                local payload = '{"type":"state","key":"' .. json_escape(waiter_task_key) .. '","state":"queued"}'
+                redis.call('PUBLISH', state_prefix .. waiter_task_key, payload)
+                woken = woken + 1
+            end
         end
     end
 
-- 
2.43.0


From b38d76cf82af5c1589013122faec3a449fcdd4cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:17 +0000
Subject: [PATCH 19/46] fix: a parked task's safeguard lasts as long as the
 task is parked, and tracks its current limit

---
 src/docket/dependencies/_concurrency.py | 34 ++++++++++++++++++++++++-
 1 file changed, 33 insertions(+), 1 deletion(-)

diff --git a/src/docket/dependencies/_concurrency.py b/src/docket/dependencies/_concurrency.py
index e182b41..ae1503e 100644
--- a/src/docket/dependencies/_concurrency.py
+++ b/src/docket/dependencies/_concurrency.py
@@ -661,8 +661,10 @@ class ConcurrencyLimit(Dependency["ConcurrencyLimit"]):
             # Schedule a safeguard task to backstop the normal release path.
             # If a holder releases first, this becomes a no-op when it runs;
             # otherwise it scavenges any stale slots and wakes the waiters.
+            # It replaces one that an earlier run of the key may have left, which
+            # could be about another limit.
             safeguard_key = f"__safeguard__:{execution.key}"
-            await docket.add(
+            await docket.replace(
                 _safeguard_wake,
                 when=datetime.now(timezone.utc) + redelivery_timeout,
                 key=safeguard_key,
@@ -896,6 +898,10 @@ async def _safeguard_wake(waiter_stream: str, max_concurrent: int) -> None:
        arrived to scavenge them -- the script evicts the stale slots
        and wakes the waiters.
 
+    If the waiter it was scheduled for is still parked after that, because the
+    slots are held by live tasks, it schedules itself again: those holders may
+    yet die without releasing.
+
     This is the dependency-owned recovery for the "burst then idle"
     pathology.  No background loop, no central registry: each park
     schedules its own backstop.
@@ -925,3 +931,29 @@ async def _safeguard_wake(waiter_stream: str, max_concurrent: int) -> None:
             state_prefix=f"{docket.prefix}:state:",
             parked_prefix=f"{docket.prefix}:",
         )
+        if not await _is_parked_on(redis, docket, waiter_stream):
+            return
+
+    safeguard_key = current_execution.get().key
+    await docket.replace(
+        _safeguard_wake,
+        when=datetime.now(timezone.utc) + redelivery_timeout,
+        key=safeguard_key,
+    )(waiter_stream=waiter_stream, max_concurrent=max_concurrent)
+
+    # As after parking: the waiter may just have been woken or cancelled.
+    async with docket.redis() as redis:
+        parked = await _is_parked_on(redis, docket, waiter_stream)
+    if not parked:
+        await docket.cancel(safeguard_key)
+
+
+async def _is_parked_on(
+    redis: RedisClient, docket: "Docket", waiter_stream: str
+) -> bool:
+    """Whether the waiter the current safeguard task guards is still parked."""
+    waiter_key = current_execution.get().key.removeprefix("__safeguard__:")
+    state, parked_on = await redis.hmget(  # type: ignore[misc]
+        docket.runs_key(waiter_key), "state", "waiter_stream"
+    )
+    return state == b"scheduled" and parked_on == waiter_stream.encode()
-- 
2.43.0


From ad066a6399a952ec8a27cf640c67a57eff4151e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:04 +0000
Subject: [PATCH 20/46] fix: the concurrency cancel subscriber survives errors

---
 src/docket/dependencies/_concurrency.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/docket/dependencies/_concurrency.py b/src/docket/dependencies/_concurrency.py
index ae1503e..59ff3d8 100644
--- a/src/docket/dependencies/_concurrency.py
+++ b/src/docket/dependencies/_concurrency.py
@@ -754,6 +754,21 @@ class ConcurrencyLimit(Dependency["ConcurrencyLimit"]):
         cancelled tasks never run regardless of whether we observe the
         publish.
         """
+        while True:
+            try:
+                await cls._clean_up_cancelled_waiters(docket)
+                return
+            except Exception:
+                # A lost connection or a failed cleanup must not leave the rest
+                # of the cancellations unheard.
+                logger.warning(
+                    "Error in concurrency cancel subscriber, resubscribing...",
+                    exc_info=True,
+                )
+                await asyncio.sleep(1)
+
+    @classmethod
+    async def _clean_up_cancelled_waiters(cls, docket: "Docket") -> None:
         pattern = f"{docket.prefix}:cancel:*"
         async with docket.redis() as redis:
             pubsub = redis.pubsub()
-- 
2.43.0


From 711955c950149045c2bab90de85468f45396b645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:54 +0000
Subject: [PATCH 21/46] fix: a late cancel signal must not unpark the key's
 next run

---
 src/docket/dependencies/_concurrency.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/docket/dependencies/_concurrency.py b/src/docket/dependencies/_concurrency.py
index 59ff3d8..f852820 100644
--- a/src/docket/dependencies/_concurrency.py
+++ b/src/docket/dependencies/_concurrency.py
@@ -440,11 +440,19 @@ async def _cancel_cleanup(
     progress_key: Key[str],
     runs_key: Key[str],
     waiter_entry_id: Arg[str],
-) -> None:
+) -> int:
     """
     -- Atomically tear down a cancelled task's waiter footprint.  Invoked
     -- by ConcurrencyLimit's pubsub-driven cancel subscriber after
-    -- Docket.cancel flips the task to 'cancelled'.
+    -- Docket.cancel flips the task to 'cancelled'.  Returns 0, having done
+    -- nothing, if the waiter isn't the run that was cancelled but one of the
+    -- same key that was scheduled after that.
+
+    if redis.call('HGET', runs_key, 'state') ~= 'cancelled'
+        or redis.call('HGET', runs_key, 'waiter_entry_id') ~= waiter_entry_id
+    then
+        return 0
+    end
 
     redis.call('XDEL', waiters_stream, waiter_entry_id)
     if redis.call('XLEN', waiters_stream) == 0 then
@@ -457,6 +465,8 @@ async def _cancel_cleanup(
     redis.call('DEL', progress_key)
 
     redis.call('HDEL', runs_key, 'waiter_stream', 'waiter_entry_id')
+
+    return 1
     """
     ...
 
@@ -818,13 +828,15 @@ class ConcurrencyLimit(Dependency["ConcurrencyLimit"]):
                 return
             waiter_stream = waiter_stream_b.decode()
             waiter_entry_id = waiter_entry_id_b.decode()
-            await _cancel_cleanup(
+            cleaned = await _cancel_cleanup(
                 redis,
                 waiters_stream=waiter_stream,
                 progress_key=f"{docket.prefix}:progress:{task_key}",
                 runs_key=runs_key,
                 waiter_entry_id=waiter_entry_id,
             )
+        if not cleaned:
+            return
         # Drop the safeguard task this waiter scheduled at park time.
         # Cancelling routes through the same cancel pubsub we're subscribed
         # to, but the resulting cleanup callback for the safeguard's own
-- 
2.43.0


From be968e8658643646939bf8bec3ad4822838b991c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:23 +0000
Subject: [PATCH 22/46] fix: a slot's renewal must not bring it back after its
 release

---
 src/docket/dependencies/_concurrency.py | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/src/docket/dependencies/_concurrency.py b/src/docket/dependencies/_concurrency.py
index f852820..bc3de18 100644
--- a/src/docket/dependencies/_concurrency.py
+++ b/src/docket/dependencies/_concurrency.py
@@ -448,7 +448,8 @@ async def _cancel_cleanup(
     -- nothing, if the waiter isn't the run that was cancelled but one of the
     -- same key that was scheduled after that.
 
-    if redis.call('HGET', runs_key, 'state') ~= 'cancelled'
+    local state = redis.call('HGET', runs_key, 'state')
+    if (state and state ~= 'cancelled')
         or redis.call('HGET', runs_key, 'waiter_entry_id') ~= waiter_entry_id
     then
         return 0
@@ -559,6 +560,8 @@ class ConcurrencyLimit(Dependency["ConcurrencyLimit"]):
         self._initialized: bool = False
         self._task_key: str | None = None
         self._renewal_task: asyncio.Task[None] | None = None
+        self._renewing: bool = False
+        self._released: bool = False
         self._redelivery_timeout: timedelta | None = None
 
     def bind_to_parameter(self, name: str, value: Any) -> ConcurrencyLimit:
@@ -696,14 +699,14 @@ class ConcurrencyLimit(Dependency["ConcurrencyLimit"]):
 
         # Acquired.  Start heartbeating the slot and register the release
         # callback on the resolver's AsyncExitStack.  Order matters (LIFO):
-        # release the slot first, then cancel the renewal task.
+        # the renewal ends first, then the slot is released.
         limit._renewal_task = asyncio.create_task(
             limit._renew_lease_loop(redelivery_timeout),
             name=f"{docket.name} - concurrency lease:{execution.key}",
         )
         stack = _Depends.stack.get()
         stack.push_async_callback(limit._release_and_wake)
-        stack.push_async_callback(cancel_task, limit._renewal_task, CANCEL_MSG_CLEANUP)
+        stack.push_async_callback(limit._stop_renewal)
 
         return limit
 
@@ -867,6 +870,17 @@ class ConcurrencyLimit(Dependency["ConcurrencyLimit"]):
                 parked_prefix=f"{docket.prefix}:",
             )
 
+    async def _stop_renewal(self) -> None:
+        """End the renewal task without tearing it out of a renewal: one that's
+        already on its way to Redis could arrive after the slot's release, and
+        bring the slot back."""
+        assert self._renewal_task
+        self._released = True
+        if self._renewing:
+            await asyncio.wait([self._renewal_task])
+        else:
+            await cancel_task(self._renewal_task, CANCEL_MSG_CLEANUP)
+
     async def _renew_lease_loop(self, redelivery_timeout: timedelta) -> None:
         """Periodically refresh slot timestamp to prevent expiration."""
         # Lease renewal is only scheduled when a slot was acquired, which
@@ -879,9 +893,10 @@ class ConcurrencyLimit(Dependency["ConcurrencyLimit"]):
             int(redelivery_timeout.total_seconds() * LEASE_RENEWAL_FACTOR),
         )
 
-        while True:
+        while not self._released:
             await asyncio.sleep(renewal_interval)
             try:
+                self._renewing = True
                 async with docket.redis() as redis:
                     current_time = datetime.now(timezone.utc).timestamp()
                     await redis.zadd(
@@ -897,6 +912,8 @@ class ConcurrencyLimit(Dependency["ConcurrencyLimit"]):
                     self._concurrency_key,
                     exc_info=True,
                 )
+            finally:
+                self._renewing = False
 
     @property
     def concurrency_key(self) -> str:
-- 
2.43.0


From 7b526d883200ba748e8d0a263bd89f67a27af363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:56 +0000
Subject: [PATCH 23/46] fix: never park a task without a safeguard

---
 src/docket/dependencies/_concurrency.py | 110 +++++++++++++-----------
 1 file changed, 58 insertions(+), 52 deletions(-)

diff --git a/src/docket/dependencies/_concurrency.py b/src/docket/dependencies/_concurrency.py
index bc3de18..875d21e 100644
--- a/src/docket/dependencies/_concurrency.py
+++ b/src/docket/dependencies/_concurrency.py
@@ -56,6 +56,7 @@ async def _acquire_or_park(
     stale_threshold: Arg[float],
     key_ttl: Arg[int],
     message_id: Arg[bytes],
+    park: Arg[bool],
     worker_group_name: Arg[str],
     state_channel: Arg[str],
     state_payload: Arg[str],
@@ -67,7 +68,8 @@ async def _acquire_or_park(
     -- (the inflight stream message has been XACK+XDEL'd and re-XADD'd
     -- into the waiter stream; caller raises ConcurrencyBlocked(handled=True)
     -- so the worker takes no further action), 2 if the run would have to wait
-    -- but has been cancelled or replaced meanwhile (nothing was done).
+    -- but has been cancelled or replaced meanwhile (nothing was done), 3 if it
+    -- has to wait but park is false (nothing was done).
 
     -- If this task already has a slot (previous delivery attempt), only a
     -- redelivery with a stale original holder can take it over.  Otherwise we
@@ -127,6 +129,10 @@ async def _acquire_or_park(
         end
     end
 
+    if not park then
+        return 3
+    end
+
     -- Park: ACK the main-stream message, re-XADD the payload into the waiter
     -- stream.  Doing this here, atomically with the acquire check, keeps a
     -- concurrent slot release from missing us in the gap between "blocked" and
@@ -623,8 +629,6 @@ class ConcurrencyLimit(Dependency["ConcurrencyLimit"]):
         message: dict[bytes, bytes] = execution.as_message()
         propagate.inject(message, setter=message_setter)
 
-        current_time = datetime.now(timezone.utc).timestamp()
-        stale_threshold = current_time - redelivery_timeout.total_seconds()
         key_ttl = max(
             MINIMUM_TTL_SECONDS,
             int(redelivery_timeout.total_seconds() * LEASE_RENEWAL_FACTOR),
@@ -638,42 +642,39 @@ class ConcurrencyLimit(Dependency["ConcurrencyLimit"]):
         park_state_payload = json.dumps(
             {"type": "state", "key": execution.key, "state": "scheduled"}
         )
-        async with docket.redis() as redis:
-            result = await _acquire_or_park(
-                redis,
-                slots_key=concurrency_key,
-                waiters_stream=waiters_stream,
-                stream_key=docket.stream_key,
-                runs_key=execution._redis_key,
-                max_concurrent=self.max_concurrent,
-                task_key=execution.key,
-                current_time=current_time,
-                is_redelivery=execution.redelivered,
-                stale_threshold=stale_threshold,
-                key_ttl=key_ttl,
-                message_id=execution.message_id,
-                worker_group_name=docket.worker_group_name,
-                state_channel=f"{docket.prefix}:state:{execution.key}",
-                state_payload=park_state_payload,
-                message=message,
-            )
+        message_id = execution.message_id
 
-        if result == 2:
-            raise AdmissionBlocked(
-                execution,
-                reason="having been cancelled or replaced before it got a slot",
-                reschedule=False,
-            )
+        async def acquire_or_park(park: bool) -> int:
+            current_time = datetime.now(timezone.utc).timestamp()
+            async with docket.redis() as redis:
+                return await _acquire_or_park(
+                    redis,
+                    slots_key=concurrency_key,
+                    waiters_stream=waiters_stream,
+                    stream_key=docket.stream_key,
+                    runs_key=execution._redis_key,
+                    max_concurrent=self.max_concurrent,
+                    task_key=execution.key,
+                    current_time=current_time,
+                    is_redelivery=execution.redelivered,
+                    stale_threshold=current_time - redelivery_timeout.total_seconds(),
+                    key_ttl=key_ttl,
+                    message_id=message_id,
+                    park=park,
+                    worker_group_name=docket.worker_group_name,
+                    state_channel=f"{docket.prefix}:state:{execution.key}",
+                    state_payload=park_state_payload,
+                    message=message,
+                )
 
-        if not bool(result):  # pragma: no branch
-            logger.debug(
-                "⏳ Task %s parked on waiter stream %s",
-                execution.key,
-                waiters_stream,
-            )
+        result = await acquire_or_park(park=False)
+
+        if result == 3:
             # Schedule a safeguard task to backstop the normal release path.
             # If a holder releases first, this becomes a no-op when it runs;
             # otherwise it scavenges any stale slots and wakes the waiters.
+            # It comes before the park, so that a task is never parked without
+            # one, whenever this worker dies and whoever wakes it.
             # It replaces one that an earlier run of the key may have left, which
             # could be about another limit.
             safeguard_key = f"__safeguard__:{execution.key}"
@@ -682,19 +683,24 @@ class ConcurrencyLimit(Dependency["ConcurrencyLimit"]):
                 when=datetime.now(timezone.utc) + redelivery_timeout,
                 key=safeguard_key,
             )(waiter_stream=waiters_stream, max_concurrent=self.max_concurrent)
-            # A wake-on-release may have fired between the park script
-            # returning and the docket.add above.  Its safeguard ZREM was a
-            # no-op (the safeguard hadn't been added yet), and we'd leak
-            # the safeguard into the future queue -- preventing
-            # ``run_until_finished`` from ever seeing an empty queue.
-            # If the runs hash shows we've already been forwarded back to
-            # the main stream, cancel the leftover safeguard.
-            async with docket.redis() as redis:
-                state = await redis.hget(  # type: ignore[misc]
-                    execution._redis_key, "state"
-                )
-            if state != b"scheduled":
+            result = await acquire_or_park(park=True)
+            if result == 1:
+                # A slot was released between the two
                 await docket.cancel(safeguard_key)
+
+        if result == 2:
+            raise AdmissionBlocked(
+                execution,
+                reason="having been cancelled or replaced before it got a slot",
+                reschedule=False,
+            )
+
+        if not bool(result):  # pragma: no branch
+            logger.debug(
+                "⏳ Task %s parked on waiter stream %s",
+                execution.key,
+                waiters_stream,
+            )
             raise ConcurrencyBlocked(execution, concurrency_key, self.max_concurrent)
 
         # Acquired.  Start heartbeating the slot and register the release
@@ -824,9 +830,9 @@ class ConcurrencyLimit(Dependency["ConcurrencyLimit"]):
         """
         runs_key = f"{docket.prefix}:runs:{task_key}"
         async with docket.redis() as redis:
-            waiter_stream_b, waiter_entry_id_b = await redis.hmget(  # type: ignore[misc]
-                runs_key, "waiter_stream", "waiter_entry_id"
-            )
+            # hgets, because the memory:// backend has no hmget
+            waiter_stream_b = await redis.hget(runs_key, "waiter_stream")  # type: ignore[misc]
+            waiter_entry_id_b = await redis.hget(runs_key, "waiter_entry_id")  # type: ignore[misc]
             if not waiter_stream_b or not waiter_entry_id_b:
                 return
             waiter_stream = waiter_stream_b.decode()
@@ -997,7 +1003,7 @@ async def _is_parked_on(
 ) -> bool:
     """Whether the waiter the current safeguard task guards is still parked."""
     waiter_key = current_execution.get().key.removeprefix("__safeguard__:")
-    state, parked_on = await redis.hmget(  # type: ignore[misc]
-        docket.runs_key(waiter_key), "state", "waiter_stream"
-    )
+    runs_key = docket.runs_key(waiter_key)
+    state = await redis.hget(runs_key, "state")  # type: ignore[misc]
+    parked_on = await redis.hget(runs_key, "waiter_stream")  # type: ignore[misc]
     return state == b"scheduled" and parked_on == waiter_stream.encode()
-- 
2.43.0


From 8901dfa705a5ee8099b180c35310c466a89f1b1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:41 +0000
Subject: [PATCH 24/46] fix: gates on parameters see arguments passed by
 position, and defaults

---
 src/docket/dependencies/_resolution.py | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/src/docket/dependencies/_resolution.py b/src/docket/dependencies/_resolution.py
index e8e28d3..bd410e0 100644
--- a/src/docket/dependencies/_resolution.py
+++ b/src/docket/dependencies/_resolution.py
@@ -2,6 +2,7 @@
 
 from __future__ import annotations
 
+import inspect
 from collections.abc import Mapping, Sequence
 from contextlib import AsyncExitStack, asynccontextmanager
 from typing import TYPE_CHECKING, Any, AsyncGenerator, TypeVar
@@ -9,6 +10,7 @@ from typing import TYPE_CHECKING, Any, AsyncGenerator, TypeVar
 from uncalled_for import (
     FailedDependency,
     get_annotation_dependencies,
+    get_signature,
 )
 
 from ._base import (
@@ -159,6 +161,26 @@ def detect_single_conflicts(
     return conflicts
 
 
+def _argument_value(
+    execution: Execution, parameter: str, resolved: Mapping[str, Any]
+) -> Any:
+    """The value ``parameter`` will have in the task: what the caller passed, by
+    keyword or by position, or else the resolved dependency or plain default."""
+    if parameter in execution.kwargs:
+        return execution.kwargs[parameter]
+
+    signature = get_signature(execution.function)
+    supplied = dict(zip(signature.parameters, execution.args))
+    if parameter in supplied:
+        return supplied[parameter]
+
+    if parameter in resolved:
+        return resolved[parameter]
+
+    default = signature.parameters[parameter].default
+    return None if default is inspect.Parameter.empty else default
+
+
 @asynccontextmanager
 async def resolved_dependencies(
     worker: Worker, execution: Execution
@@ -208,8 +230,8 @@ async def resolved_dependencies(
 
                 annotations = get_annotation_dependencies(execution.function)
                 for parameter_name, dependencies in annotations.items():
-                    argument_value = execution.kwargs.get(
-                        parameter_name, arguments.get(parameter_name)
+                    argument_value = _argument_value(
+                        execution, parameter_name, arguments
                     )
                     for dependency in dependencies:
                         bound = dependency.bind_to_parameter(
-- 
2.43.0


From 2f7b23b59c72f6da1a06035c7f697e95bde747c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:41 +0000
Subject: [PATCH 25/46] fix: enter no further gates once one has blocked the
 task

---
 src/docket/dependencies/_resolution.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/docket/dependencies/_resolution.py b/src/docket/dependencies/_resolution.py
index bd410e0..80c430e 100644
--- a/src/docket/dependencies/_resolution.py
+++ b/src/docket/dependencies/_resolution.py
@@ -14,6 +14,7 @@ from uncalled_for import (
 )
 
 from ._base import (
+    AdmissionBlocked,
     Dependency,
     current_docket,
     current_execution,
@@ -190,6 +191,8 @@ async def resolved_dependencies(
     execution_token = current_execution.set(execution)
     cache_token = _Depends.cache.set({})
 
+    # A task that one admission control has blocked leaves right away: entering the
+    # others could park it, or count it against their windows, without running it.
     try:
         async with AsyncExitStack() as stack:
             stack_token = _Depends.stack.set(stack)
@@ -200,6 +203,8 @@ async def resolved_dependencies(
                     slot = f"__worker_dep__{name}"
                     try:
                         arguments[slot] = await stack.enter_async_context(dependency)
+                    except AdmissionBlocked:
+                        raise
                     except Exception as error:
                         arguments[slot] = FailedDependency(name, error)
 
@@ -225,6 +230,8 @@ async def resolved_dependencies(
                         arguments[parameter] = await stack.enter_async_context(
                             dependency
                         )
+                    except AdmissionBlocked:
+                        raise
                     except Exception as error:
                         arguments[parameter] = FailedDependency(parameter, error)
 
@@ -239,6 +246,8 @@ async def resolved_dependencies(
                         )
                         try:
                             await stack.enter_async_context(bound)
+                        except AdmissionBlocked:
+                            raise
                         except Exception as error:
                             arguments[parameter_name] = FailedDependency(
                                 parameter_name, error
-- 
2.43.0


From ad89ecfa345769bb0096c625e777d23faa8ba5cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:41 +0000
Subject: [PATCH 26/46] fix: a cooldown neither drops its own task nor counts
 blocked ones

---
 src/docket/dependencies/_cooldown.py | 52 ++++++++++++++++++++++------
 1 file changed, 42 insertions(+), 10 deletions(-)

diff --git a/src/docket/dependencies/_cooldown.py b/src/docket/dependencies/_cooldown.py
index b72d22c..b51b18d 100644
--- a/src/docket/dependencies/_cooldown.py
+++ b/src/docket/dependencies/_cooldown.py
@@ -10,9 +10,27 @@ from datetime import timedelta
 from types import TracebackType
 from typing import Any
 
+from .._lua import Arg, Key, redis_script
+from .._redis import RedisClient
 from ._base import AdmissionBlocked, Dependency, current_docket, current_execution
 
 
+@redis_script
+async def _release(
+    redis: RedisClient,
+    *,
+    cooldown_key: Key[str],
+    message_id: Arg[bytes],
+) -> int:
+    """
+    if redis.call('GET', cooldown_key) == message_id then
+        return redis.call('DEL', cooldown_key)
+    end
+    return 0
+    """
+    ...
+
+
 class Cooldown(Dependency["Cooldown"]):
     """Execute first, drop duplicates within window.
 
@@ -44,22 +62,29 @@ class Cooldown(Dependency["Cooldown"]):
         bound._argument_value = value
         return bound
 
+    def _key(self) -> str:
+        scope = self.scope or current_docket.get().name
+        if self._argument_name is not None:
+            return f"{scope}:cooldown:{self._argument_name}:{self._argument_value}"
+        return f"{scope}:cooldown:{current_execution.get().function_name}"
+
     async def __aenter__(self) -> Cooldown:
         execution = current_execution.get()
         docket = current_docket.get()
 
-        scope = self.scope or docket.name
-        if self._argument_name is not None:
-            cooldown_key = (
-                f"{scope}:cooldown:{self._argument_name}:{self._argument_value}"
-            )
-        else:
-            cooldown_key = f"{scope}:cooldown:{execution.function_name}"
-
+        cooldown_key = self._key()
         window_ms = int(self.window.total_seconds() * 1000)
 
+        # The key records which message was admitted, so that its redelivery (or
+        # this command, retried after a lost reply) isn't mistaken for a duplicate
+        # and dropped without the task ever having run.
+        message_id = execution.message_id
         async with docket.redis() as redis:
-            acquired = await redis.set(cooldown_key, 1, nx=True, px=window_ms)
+            acquired = await redis.set(
+                cooldown_key, message_id or 1, nx=True, px=window_ms
+            )
+            if not acquired and message_id:
+                acquired = await redis.get(cooldown_key) == message_id
 
         if not acquired:
             raise AdmissionBlocked(
@@ -76,4 +101,11 @@ class Cooldown(Dependency["Cooldown"]):
         exc_value: BaseException | None,
         traceback: TracebackType | None,
     ) -> None:
-        pass
+        if exc_type is None or not issubclass(exc_type, AdmissionBlocked):
+            return
+
+        # Another admission control blocked the task, so it didn't start here and
+        # mustn't hold back others, nor itself once it comes back.
+        if message_id := current_execution.get().message_id:
+            async with current_docket.get().redis() as redis:
+                await _release(redis, cooldown_key=self._key(), message_id=message_id)
-- 
2.43.0


From 391b4e323229d41f52b91ca01f315feac6f7428a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:41 +0000
Subject: [PATCH 27/46] fix: a rate limit keeps its entries per execution and
 survives a retried command

---
 src/docket/dependencies/_ratelimit.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/docket/dependencies/_ratelimit.py b/src/docket/dependencies/_ratelimit.py
index 33b5905..eb32f7c 100644
--- a/src/docket/dependencies/_ratelimit.py
+++ b/src/docket/dependencies/_ratelimit.py
@@ -44,7 +44,9 @@ async def _ratelimit(
     -- Count remaining entries
     local count = redis.call('ZCARD', ratelimit_key)
 
-    if count < limit then
+    -- This command may be a retry of one whose reply was lost: the execution was
+    -- admitted then, and mustn't be blocked by its own entry now.
+    if count < limit or redis.call('ZSCORE', ratelimit_key, member) then
         -- Under limit: record this execution and set safety TTL
         redis.call('ZADD', ratelimit_key, now_ms, member)
         redis.call('PEXPIRE', ratelimit_key, ttl_ms)
@@ -100,8 +102,9 @@ class RateLimit(Dependency["RateLimit"]):
         self.scope = scope
         self._argument_name: str | None = None
         self._argument_value: Any = None
-        self._ratelimit_key: str | None = None
-        self._member: str | None = None
+        # What each execution in progress has recorded.  One instance, the default
+        # parameter value, serves all of them.
+        self._recorded: dict[int, tuple[str, str]] = {}
 
     def bind_to_parameter(self, name: str, value: Any) -> RateLimit:
         bound = RateLimit(self.limit, per=self.per, drop=self.drop, scope=self.scope)
@@ -141,8 +144,7 @@ class RateLimit(Dependency["RateLimit"]):
         retry_after_ms = result[1]
 
         if action == _ACTION_PROCEED:
-            self._ratelimit_key = ratelimit_key
-            self._member = member
+            self._recorded[id(execution)] = (ratelimit_key, member)
             return self
 
         reason = f"rate limit ({self.limit}/{self.per}) on {ratelimit_key}"
@@ -162,9 +164,10 @@ class RateLimit(Dependency["RateLimit"]):
         exc_value: BaseException | None,
         traceback: TracebackType | None,
     ) -> None:
-        if exc_type is not None and self._member is not None:
+        recorded = self._recorded.pop(id(current_execution.get()), None)
+        if exc_type is not None and recorded is not None:
             if issubclass(exc_type, AdmissionBlocked):
-                assert self._ratelimit_key is not None
+                ratelimit_key, member = recorded
                 docket = current_docket.get()
                 async with docket.redis() as redis:
-                    await redis.zrem(self._ratelimit_key, self._member)
+                    await redis.zrem(ratelimit_key, member)
-- 
2.43.0


From acf66fae124c006e44f3e8681d2d4a645b910ffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:15 +0000
Subject: [PATCH 28/46] fix: a debounce replaces a winner that never comes back

---
 src/docket/dependencies/_debounce.py | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/src/docket/dependencies/_debounce.py b/src/docket/dependencies/_debounce.py
index 3c10695..35155b7 100644
--- a/src/docket/dependencies/_debounce.py
+++ b/src/docket/dependencies/_debounce.py
@@ -2,7 +2,7 @@
 
 Waits for submissions to settle, then fires once.  Uses two Redis keys
 (winner + last_seen) so only one task bounces while the rest immediately
-drop.
+drop, and a third one to remember winners that were late and replaced.
 """
 
 from __future__ import annotations
@@ -27,6 +27,7 @@ async def _debounce(
     *,
     winner_key: Key[str],
     seen_key: Key[str],
+    replaced_key: Key[str],
     execution_key: Arg[str],
     settle_ms: Arg[int],
     now_ms: Arg[int],
@@ -64,7 +65,21 @@ async def _debounce(
         end
     end
 
-    -- Someone else is the winner: update last_seen and refresh TTLs
+    -- Someone else is the winner.  If they should have been back by now, they may
+    -- never come (cancelled, or failed before they got here), and I replace them --
+    -- unless I have been replaced myself and am only now coming back.
+    local last_seen = tonumber(redis.call('GET', seen_key)) or 0
+    if now_ms - last_seen >= settle_ms
+        and redis.call('SISMEMBER', replaced_key, execution_key) == 0
+    then
+        redis.call('SADD', replaced_key, winner)
+        redis.call('PEXPIRE', replaced_key, ttl_ms)
+        redis.call('SET', winner_key, execution_key, 'PX', ttl_ms)
+        redis.call('SET', seen_key, tostring(now_ms), 'PX', ttl_ms)
+        return {2, settle_ms}
+    end
+
+    -- Update last_seen and refresh TTLs
     redis.call('SET', seen_key, tostring(now_ms), 'PX', ttl_ms)
     redis.call('PEXPIRE', winner_key, ttl_ms)
     return {3, 0}
@@ -118,9 +133,10 @@ class Debounce(Dependency["Debounce"]):
             hash_tag = execution.function_name
             base_key = f"{scope}:debounce:{hash_tag}"
 
-        # Use a Redis hash tag {…} so both keys land on the same cluster slot
+        # Use a Redis hash tag {…} so all keys land on the same cluster slot
         winner_key = f"{base_key}:{{{hash_tag}}}:winner"
         seen_key = f"{base_key}:{{{hash_tag}}}:last_seen"
+        replaced_key = f"{base_key}:{{{hash_tag}}}:replaced"
 
         settle_ms = int(self.settle.total_seconds() * 1000)
         now_ms = int(time.time() * 1000)
@@ -131,6 +147,7 @@ class Debounce(Dependency["Debounce"]):
                 redis,
                 winner_key=winner_key,
                 seen_key=seen_key,
+                replaced_key=replaced_key,
                 execution_key=execution.key,
                 settle_ms=settle_ms,
                 now_ms=now_ms,
-- 
2.43.0


From cd749688fe578b2679c382b96371e4ebc4c9bfc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:15 +0000
Subject: [PATCH 29/46] fix: a stalled attempt doesn't reschedule a task that
 has ended elsewhere

---
 src/docket/execution.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/docket/execution.py b/src/docket/execution.py
index adccf27..c764adf 100644
--- a/src/docket/execution.py
+++ b/src/docket/execution.py
@@ -136,7 +136,7 @@ async def _schedule(
         -- A newer schedule (e.g. Docket.replace) may own this key by now, or
         -- another attempt at the same message may have ended the task already;
         -- then this attempt is stale, and rescheduling it would supersede its
-        -- own successor.  Nor does a cancelled task come back.
+        -- own successor.  Nor does a task that has ended come back.
         if generation > 0 then
             local current = redis.call('HGET', runs_key, 'generation')
             local owner = redis.call('HGET', runs_key, 'message_id')
@@ -146,6 +146,8 @@ async def _schedule(
                 or (owner and owner ~= reschedule_message_id)
                 or (not owner and state == 'scheduled')
                 or state == 'cancelled'
+                or state == 'completed'
+                or state == 'failed'
             then
                 return 'SUPERSEDED'
             end
-- 
2.43.0


From d5e3b6f5c5f28e431e29e390abff36ca32a0827b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:27 +0000
Subject: [PATCH 30/46] fix: each run gets a Progress of its own

---
 src/docket/dependencies/_progress.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/docket/dependencies/_progress.py b/src/docket/dependencies/_progress.py
index 01daed8..905002e 100644
--- a/src/docket/dependencies/_progress.py
+++ b/src/docket/dependencies/_progress.py
@@ -33,9 +33,11 @@ class Progress(Dependency["Progress"]):
         self._progress: ExecutionProgress | None = None
 
     async def __aenter__(self) -> Progress:
-        execution = current_execution.get()
-        self._progress = execution.progress
-        return self
+        # The default value of the parameter is shared by all runs of the task,
+        # concurrent ones included; each gets a Progress of its own
+        progress = Progress()
+        progress._progress = current_execution.get().progress
+        return progress
 
     @property
     def current(self) -> int | None:
-- 
2.43.0


From f87be7e433892e25e7c07699785f94985b6ad142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:27 +0000
Subject: [PATCH 31/46] fix: a perpetual task's successor gives way to a
 concurrent replace or cancel

---
 src/docket/dependencies/_perpetual.py | 26 ++++++++++-----
 src/docket/docket.py                  | 22 ++++++++++--
 src/docket/execution.py               | 48 +++++++++++++++++++++++++++
 3 files changed, 85 insertions(+), 11 deletions(-)

diff --git a/src/docket/dependencies/_perpetual.py b/src/docket/dependencies/_perpetual.py
index 7e885ed..bc0dd3d 100644
--- a/src/docket/dependencies/_perpetual.py
+++ b/src/docket/dependencies/_perpetual.py
@@ -18,6 +18,7 @@ from ._base import (
 if TYPE_CHECKING:  # pragma: no cover
     from ..execution import Execution
 
+from ..execution import Disposition
 from ..instrumentation import TASKS_PERPETUATED, TASKS_SUPERSEDED
 
 logger = logging.getLogger("docket.dependencies")
@@ -103,11 +104,13 @@ class Perpetual(CompletionHandler["Perpetual"]):
         if self.cancelled:
             docket = current_docket.get()
             async with docket.redis() as redis:
-                await docket._cancel(redis, execution.key)
+                await docket._cancel(redis, execution.key, run=execution)
             return False
 
-        if await execution.is_superseded():
-            worker = current_worker.get()
+        docket = current_docket.get()
+        worker = current_worker.get()
+
+        def superseded() -> bool:
             TASKS_SUPERSEDED.add(
                 1,
                 {
@@ -123,8 +126,8 @@ class Perpetual(CompletionHandler["Perpetual"]):
             )
             return True
 
-        docket = current_docket.get()
-        worker = current_worker.get()
+        if await execution.is_superseded():
+            return superseded()
 
         if self._next_when:
             when = self._next_when
@@ -132,10 +135,15 @@ class Perpetual(CompletionHandler["Perpetual"]):
             now = datetime.now(timezone.utc)
             when = max(now, now + self.every - outcome.duration)
 
-        await docket.replace(execution.function, when, execution.key)(
-            *self.args,
-            **self.kwargs,
-        )
+        # Whoever replaces or cancels the task in this very moment wins
+        with execution.scheduling_successor():
+            successor = await docket.replace(execution.function, when, execution.key)(
+                *self.args,
+                **self.kwargs,
+            )
+
+        if successor.disposition is Disposition.ALREADY_SCHEDULED:
+            return superseded()
 
         TASKS_PERPETUATED.add(1, {**worker.labels(), **execution.general_labels()})
 
diff --git a/src/docket/docket.py b/src/docket/docket.py
index 219d5a6..bba538b 100644
--- a/src/docket/docket.py
+++ b/src/docket/docket.py
@@ -80,11 +80,25 @@ async def _cancel_task(
     ttl_seconds: Arg[int],
     state_channel: Key[str],
     state_payload: Arg[str],
+    generation: Arg[int],
+    running_message_id: Arg[bytes],
 ) -> bytes:
     """
     -- TODO: Remove known_key / parked_key / stream_id_key handling in
     -- v0.14.0 (legacy key locations).
 
+    -- A run that cancels itself must leave alone whatever replaced it
+    if generation > 0 then
+        local current = redis.call('HGET', runs_key, 'generation')
+        local owner = redis.call('HGET', runs_key, 'message_id')
+            or redis.call('HGET', runs_key, 'stream_id')
+        if not current or tonumber(current) ~= generation
+            or (running_message_id ~= '' and owner ~= running_message_id)
+        then
+            return 'SUPERSEDED'
+        end
+    end
+
     -- Get stream ID (check new location first, then legacy)
     local message_id = redis.call('HGET', runs_key, 'stream_id')
 
@@ -755,8 +769,10 @@ class Docket(DocketSnapshotMixin):
             if "BUSYGROUP" not in str(e):
                 raise  # pragma: no cover
 
-    async def _cancel(self, redis: RedisClient, key: str) -> None:
-        """Cancel a task atomically.
+    async def _cancel(
+        self, redis: RedisClient, key: str, run: Execution | None = None
+    ) -> None:
+        """Cancel a task atomically; only that run of it, if one is given.
 
         Handles cancellation regardless of task location:
         - From the stream (using stored message ID)
@@ -799,6 +815,8 @@ class Docket(DocketSnapshotMixin):
                     "completed_at": completed_at,
                 }
             ),
+            generation=run._generation if run else 0,
+            running_message_id=(run.message_id or b"") if run else b"",
         )
 
     async def strike(
diff --git a/src/docket/execution.py b/src/docket/execution.py
index c764adf..70c309c 100644
--- a/src/docket/execution.py
+++ b/src/docket/execution.py
@@ -5,6 +5,7 @@ import inspect
 import json
 import logging
 from contextlib import contextmanager
+from contextvars import ContextVar
 from datetime import datetime, timedelta, timezone
 from typing import (
     TYPE_CHECKING,
@@ -55,6 +56,11 @@ class ExecutionCancelled(Exception):
 
 
 TaskFunction = Callable[..., Awaitable[Any]]
+
+# The run that is currently scheduling its own successor; see
+# Execution.scheduling_successor()
+_predecessor: "ContextVar[Execution | None]" = ContextVar("predecessor", default=None)
+
 Message = dict[bytes, bytes]
 
 
@@ -73,6 +79,8 @@ async def _schedule(
     when_timestamp: Arg[float],
     is_immediate: Arg[bool],
     replace: Arg[bool],
+    predecessor_generation: Arg[int],
+    predecessor_message_id: Arg[bytes],
     reschedule_message_id: Arg[bytes],
     worker_group_name: Arg[str],
     state_payload: Arg[str],
@@ -192,6 +200,25 @@ async def _schedule(
 
     -- Handle replacement: cancel existing task if needed
     if replace then
+        -- A run may only schedule its own successor (e.g. Perpetual) for as
+        -- long as the record is about that run: somebody else may have replaced
+        -- or cancelled the task meanwhile, and they win.
+        if predecessor_generation > 0 then
+            local current = redis.call('HGET', runs_key, 'generation')
+            local owner = redis.call('HGET', runs_key, 'message_id')
+                or redis.call('HGET', runs_key, 'stream_id')
+            local state = redis.call('HGET', runs_key, 'state')
+            if not current or tonumber(current) ~= predecessor_generation
+                or (predecessor_message_id ~= '' and owner
+                    and owner ~= predecessor_message_id)
+                or (predecessor_message_id ~= '' and not owner
+                    and state == 'scheduled')
+                or state == 'cancelled'
+            then
+                return 'SUPERSEDED'
+            end
+        end
+
         -- Get stream ID from runs hash (check new location first)
         local existing_message_id = redis.call('HGET', runs_key, 'stream_id')
 
@@ -751,6 +778,10 @@ class Execution:
         known_task_key = self.docket.known_task_key(key)
         is_immediate = when <= datetime.now(timezone.utc)
 
+        predecessor = _predecessor.get() if replace else None
+        if predecessor and predecessor.key != key:
+            predecessor = None
+
         # The Lua takes the payload as a pre-formatted string so it can just
         # call PUBLISH; cjson isn't available on the in-memory backend.  State
         # is QUEUED when the task lands directly on the stream (any
@@ -786,6 +817,12 @@ class Execution:
                     when_timestamp=when.timestamp(),
                     is_immediate=is_immediate,
                     replace=replace,
+                    predecessor_generation=(
+                        predecessor._generation if predecessor else 0
+                    ),
+                    predecessor_message_id=(
+                        (predecessor.message_id or b"") if predecessor else b""
+                    ),
                     reschedule_message_id=reschedule_message or b"",
                     worker_group_name=self.docket.worker_group_name,
                     state_payload=state_payload,
@@ -819,6 +856,17 @@ class Execution:
         self.disposition = Disposition.SCHEDULED
         return self.disposition
 
+    @contextmanager
+    def scheduling_successor(self) -> Generator[None, None, None]:
+        """Make a replacement of this task's key, scheduled within this context, the
+        successor of this run: it only takes place if the task has not been replaced
+        or cancelled since this run began."""
+        token = _predecessor.set(self)
+        try:
+            yield
+        finally:
+            _predecessor.reset(token)
+
     async def claim(self, worker: str) -> bool:
         """Atomically check supersession and claim task in a single round-trip.
 
-- 
2.43.0


From d3345c8c33d585c009942c93c2cdfb72a33e61bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:33 +0000
Subject: [PATCH 32/46] fix: a cron chain started again begins at its next
 occurrence

---
 src/docket/dependencies/_cron.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/docket/dependencies/_cron.py b/src/docket/dependencies/_cron.py
index abb99c8..566133a 100644
--- a/src/docket/dependencies/_cron.py
+++ b/src/docket/dependencies/_cron.py
@@ -105,6 +105,9 @@ class Cron(Perpetual):
     @property
     def initial_when(self) -> datetime:
         """Return the next cron time for initial scheduling."""
+        # From now on: this may be asked long after the task was declared, when
+        # its chain has to be started again
+        self._iterator = CronSim(self.expression, datetime.now(self.tz))
         return self.next_time()
 
     async def on_complete(self, execution: Execution, outcome: TaskOutcome) -> bool:
-- 
2.43.0


From a9a4cfa84deb1f37fb23286ce9eee837a26339f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:33 +0000
Subject: [PATCH 33/46] fix: strikes follow the order of their stream, and a
 task's and its parameters' strikes stay apart

---
 src/docket/strikelist.py | 66 ++++++++++++++++++++++++++++++----------
 1 file changed, 50 insertions(+), 16 deletions(-)

diff --git a/src/docket/strikelist.py b/src/docket/strikelist.py
index 8d9c477..35d88d5 100644
--- a/src/docket/strikelist.py
+++ b/src/docket/strikelist.py
@@ -131,6 +131,14 @@ ParameterStrikes = dict[str, set[MinimalStrike]]
 TaskStrikes = dict[str, ParameterStrikes]
 
 
+def _stream_position(message_id: bytes | str) -> tuple[int, int]:
+    """The position of a stream entry, which orders it among the others."""
+    if isinstance(message_id, bytes):
+        message_id = message_id.decode()
+    milliseconds, _, sequence = message_id.partition("-")
+    return int(milliseconds), int(sequence)
+
+
 class StrikeList:
     """A strike list that manages conditions for blocking task execution.
 
@@ -169,6 +177,9 @@ class StrikeList:
 
     task_strikes: TaskStrikes
     parameter_strikes: ParameterStrikes
+    _struck_tasks: set[str]
+    _read_through: tuple[int, int]
+    _ahead: list[tuple[tuple[int, int], StrikeInstruction]]
     _conditions: list[Callable[["Execution"], bool]]
     _redis: RedisConnection | None
     _monitor_task: asyncio.Task[NoReturn] | None
@@ -196,6 +207,12 @@ class StrikeList:
         self.enable_internal_instrumentation = enable_internal_instrumentation
         self.task_strikes = {}
         self.parameter_strikes = {}
+        # The tasks that are stricken altogether, whatever their arguments
+        self._struck_tasks = set()
+        # How far the monitor has read the instruction stream, and our own
+        # instructions that lie beyond that
+        self._read_through = (0, 0)
+        self._ahead = []
         self._conditions = [self._matches_task_or_parameter_strike]
         self._redis = RedisConnection(url) if url else None
         self._monitor_task = None
@@ -302,9 +319,18 @@ class StrikeList:
             )
 
         async with self._redis.client() as r:
-            await r.xadd(self.strike_key, instruction.as_message())  # type: ignore[arg-type]
+            message_id = await r.xadd(
+                self.strike_key,
+                instruction.as_message(),  # type: ignore[arg-type]
+            )
 
-        self.update(instruction)
+        # Everyone applies the instructions in the order of the stream.  We need not
+        # wait for the monitor to read ours back, but what it has already applied,
+        # and may have been countermanded since, isn't to be applied again.
+        position = _stream_position(message_id)
+        if position > self._read_through:
+            self._ahead.append((position, instruction))
+            self.update(instruction)
 
     async def strike(
         self,
@@ -384,10 +410,11 @@ class StrikeList:
         function_name = execution.function_name
 
         # Check if the entire task is stricken (without parameter conditions)
-        task_strikes = self.task_strikes.get(function_name, {})
-        if function_name in self.task_strikes and not task_strikes:
+        if function_name in self._struck_tasks:
             return True
 
+        task_strikes = self.task_strikes.get(function_name, {})
+
         signature = get_signature(execution.function)
 
         try:
@@ -481,10 +508,8 @@ class StrikeList:
             parameter_strikes.add((strike.operator, strike.value))
 
         elif strike.function:
-            try:
-                task_strikes = self.task_strikes[strike.function]
-            except KeyError:
-                task_strikes = self.task_strikes[strike.function] = {}
+            self._struck_tasks.add(strike.function)
+            self.task_strikes.setdefault(strike.function, {})
 
         elif strike.parameter:  # pragma: no branch
             try:
@@ -514,17 +539,14 @@ class StrikeList:
 
             if not parameter_strikes:
                 task_strikes.pop(restore.parameter, None)
-                if not task_strikes:
+                if not task_strikes and restore.function not in self._struck_tasks:
                     self.task_strikes.pop(restore.function, None)
 
         elif restore.function:
-            try:
-                task_strikes = self.task_strikes[restore.function]
-            except KeyError:
-                return
+            self._struck_tasks.discard(restore.function)
 
-            # If there are no parameter strikes, this was a full task strike
-            if not task_strikes:
+            # Strikes on its parameters, if any, stay in effect
+            if not self.task_strikes.get(restore.function):
                 self.task_strikes.pop(restore.function, None)
 
         elif restore.parameter:  # pragma: no branch
@@ -600,7 +622,14 @@ class StrikeList:
         for _, messages in streams:
             for message_id, message in messages:
                 last_id = message_id
-                instruction = StrikeInstruction.from_message(message)
+                self._read_through = _stream_position(message_id)
+                try:
+                    instruction = StrikeInstruction.from_message(message)
+                except Exception:
+                    # A value that can't be loaded here matches nothing here; the
+                    # instructions behind it must still get through
+                    logger.exception("Ignoring an unreadable strike instruction")
+                    continue
                 self.update(instruction)
                 logger.info(
                     "%s %r",
@@ -616,4 +645,9 @@ class StrikeList:
                     },
                 )
 
+        # Our own instructions further down the stream are in effect already
+        self._ahead = [a for a in self._ahead if a[0] > self._read_through]
+        for _, instruction in self._ahead:
+            self.update(instruction)
+
         return last_id, initial_load_complete
-- 
2.43.0


From 91bec9ad3e2125a445856568f56abea9e93a3460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:33 +0000
Subject: [PATCH 34/46] fix: a stale message of a stricken task leaves its
 successor alone

---
 src/docket/worker.py | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/docket/worker.py b/src/docket/worker.py
index bd721e4..3b54910 100644
--- a/src/docket/worker.py
+++ b/src/docket/worker.py
@@ -229,6 +229,23 @@ async def _stream_due_tasks(
     ...
 
 
+@redis_script
+async def _forget_stricken(
+    redis: RedisClient,
+    *,
+    runs_key: Key[str],
+    message_id: Arg[bytes],
+) -> int:
+    """
+    -- Only if this message is still the one this key is waiting for
+    if redis.call('HGET', runs_key, 'stream_id') == message_id then
+        return redis.call('HDEL', runs_key, 'known', 'stream_id')
+    end
+    return 0
+    """
+    ...
+
+
 class Worker:
     """A Worker executes tasks on a Docket.  You may run as many workers as you like
     to work a single Docket.
@@ -1017,7 +1034,9 @@ class Worker:
         logger.debug("Deleting known task", extra=self._log_context())
         # Delete known/stream_id from runs hash to allow task rescheduling
         runs_key = self.docket.runs_key(execution.key)
-        await redis.hdel(runs_key, "known", "stream_id")
+        await _forget_stricken(
+            redis, runs_key=runs_key, message_id=execution.message_id or b""
+        )
 
         # TODO: Remove in next breaking release (v0.14.0) - legacy key cleanup
         known_task_key = self.docket.known_task_key(execution.key)
-- 
2.43.0


From adcc813112ffdb841b109dcfeda9350f5ea78616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:34 +0000
Subject: [PATCH 35/46] fix: a subscription lost to a TCP timeout is opened
 again

---
 src/docket/_execution_progress.py       |  6 ++--
 src/docket/_redis.py                    | 40 +++++++++++++++++++++++++
 src/docket/dependencies/_concurrency.py |  6 ++--
 src/docket/execution.py                 |  6 ++--
 src/docket/worker.py                    |  9 +++---
 5 files changed, 53 insertions(+), 14 deletions(-)

diff --git a/src/docket/_execution_progress.py b/src/docket/_execution_progress.py
index 13cae8d..7ddb2af 100644
--- a/src/docket/_execution_progress.py
+++ b/src/docket/_execution_progress.py
@@ -14,7 +14,7 @@ from typing import (
 )
 
 from ._lua import Arg, Args, Key, redis_script
-from ._redis import RedisClient
+from ._redis import RedisClient, subscription_messages
 
 from ._telemetry import suppress_instrumentation
 from typing_extensions import Self
@@ -273,8 +273,8 @@ class ExecutionProgress:
             await pubsub.subscribe(channel)
             if ready is not None:
                 ready.set()
-            async for message in pubsub.listen():  # pragma: no cover
-                if message["type"] == "message":
+            async for message in subscription_messages(pubsub):  # pragma: no cover
+                if message is not None and message["type"] == "message":
                     yield json.loads(message["data"])
 
 
diff --git a/src/docket/_redis.py b/src/docket/_redis.py
index 1d15c66..dfc3956 100644
--- a/src/docket/_redis.py
+++ b/src/docket/_redis.py
@@ -609,6 +609,46 @@ def get_memory_server(url: str) -> MemoryRedisClient | None:
     return entry[1]
 
 
+# A subscription that returns from this many waits in a row before its time is up,
+# without a message, isn't waiting any more.
+MAX_SUBSCRIPTION_SPINS = 10
+
+
+async def subscription_messages(
+    pubsub: PubSubClient, *, timeout: float = 1.0
+) -> AsyncGenerator[dict[str, Any] | None, None]:
+    """Yield the messages of a subscription, or ``None`` whenever `timeout` seconds
+    went by without one.
+
+    When a connection is lost to a TCP timeout (such as an unanswered keepalive),
+    redis-py takes that error for its own read timeout: reads return nothing, at
+    once, forever, and neither ``PubSub.listen()`` nor a loop around
+    ``PubSub.get_message()`` ever lets the event loop run again.  That is noticed
+    here, and the connection dropped, so that the next read reconnects and
+    resubscribes.
+    """
+    loop = asyncio.get_running_loop()
+    spins = 0
+    while True:
+        asked = loop.time()
+        message = await pubsub.get_message(
+            ignore_subscribe_messages=True, timeout=timeout
+        )
+        if message is not None or loop.time() - asked >= timeout / 2:
+            spins = 0
+        else:
+            spins += 1
+            if spins > MAX_SUBSCRIPTION_SPINS:  # pragma: no cover
+                connection = getattr(pubsub, "connection", None)
+                if connection is not None:
+                    logger.warning("A subscription lost its connection, reconnecting")
+                    await connection.disconnect(nowait=True)
+                await asyncio.sleep(timeout)
+                spins = 0
+                continue
+        yield message
+
+
 class RedisConnection:
     """Manages Redis connections for standalone, Sentinel, and cluster modes.
 
diff --git a/src/docket/dependencies/_concurrency.py b/src/docket/dependencies/_concurrency.py
index 875d21e..f555b33 100644
--- a/src/docket/dependencies/_concurrency.py
+++ b/src/docket/dependencies/_concurrency.py
@@ -13,7 +13,7 @@ from opentelemetry import propagate
 
 from .._cancellation import CANCEL_MSG_CLEANUP, cancel_task
 from .._lua import Arg, Args, Key, redis_script
-from .._redis import RedisClient
+from .._redis import RedisClient, subscription_messages
 from ..instrumentation import message_setter
 from ._base import (
     AdmissionBlocked,
@@ -793,8 +793,8 @@ class ConcurrencyLimit(Dependency["ConcurrencyLimit"]):
             pubsub = redis.pubsub()
             try:
                 await pubsub.psubscribe(pattern)
-                async for message in pubsub.listen():
-                    if message.get("type") != "pmessage":
+                async for message in subscription_messages(pubsub):
+                    if message is None or message.get("type") != "pmessage":
                         continue
                     data = message.get("data")
                     if isinstance(data, bytes):
diff --git a/src/docket/execution.py b/src/docket/execution.py
index 70c309c..54724d0 100644
--- a/src/docket/execution.py
+++ b/src/docket/execution.py
@@ -35,7 +35,7 @@ from uncalled_for.introspection import (
 
 from ._execution_progress import ExecutionProgress, ProgressEvent, StateEvent
 from ._lua import Arg, Args, Key, redis_script
-from ._redis import RedisClient
+from ._redis import RedisClient, subscription_messages
 from .annotations import Logged
 from .instrumentation import CACHE_SIZE, message_getter, message_setter
 
@@ -1302,8 +1302,8 @@ class Execution:
             await pubsub.subscribe(state_channel, progress_channel)
             if ready is not None:
                 ready.set()
-            async for message in pubsub.listen():  # pragma: no cover
-                if message["type"] == "message":
+            async for message in subscription_messages(pubsub):  # pragma: no cover
+                if message is not None and message["type"] == "message":
                     message_data = json.loads(message["data"])
                     if message_data["type"] == "state":
                         message_data["state"] = ExecutionState(message_data["state"])
diff --git a/src/docket/worker.py b/src/docket/worker.py
index 3b54910..a461b65 100644
--- a/src/docket/worker.py
+++ b/src/docket/worker.py
@@ -36,7 +36,7 @@ from opentelemetry.trace import Status, StatusCode, Tracer
 
 from ._cancellation import CANCEL_MSG_CLEANUP, cancel_task
 from ._lua import Arg, Key, redis_script
-from ._redis import RedisClient
+from ._redis import RedisClient, subscription_messages
 from ._telemetry import suppress_instrumentation
 from redis.asyncio import Redis
 from redis.exceptions import ConnectionError, LockError, RedisError, ResponseError
@@ -1426,12 +1426,11 @@ class Worker:
                 async with self.docket._pubsub() as pubsub:
                     await pubsub.psubscribe(cancel_pattern)
                     session.cancellation_ready.set()
-                    while not session.stopping.is_set():
-                        message = await pubsub.get_message(
-                            ignore_subscribe_messages=True, timeout=0.1
-                        )
+                    async for message in subscription_messages(pubsub, timeout=0.1):
                         if message is not None and message["type"] == "pmessage":
                             await self._handle_cancellation(message)
+                        if session.stopping.is_set():
+                            return
             except ConnectionError:
                 if session.stopping.is_set():
                     return  # pragma: no cover
-- 
2.43.0


From 72ec7dd39d46d232170e1aff05cc727b633a3227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:51 +0000
Subject: [PATCH 36/46] fix: a TimeoutError raised by the task itself is the
 task's failure

---
 src/docket/dependencies/_timeout.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/docket/dependencies/_timeout.py b/src/docket/dependencies/_timeout.py
index a9b4906..dec410b 100644
--- a/src/docket/dependencies/_timeout.py
+++ b/src/docket/dependencies/_timeout.py
@@ -80,17 +80,16 @@ class Timeout(Runtime["Timeout"]):
 
         timed_out = False
         try:
-            while not task.done():  # pragma: no branch
+            while not task.done():
                 if self.expired():
                     timed_out = True
                     break
 
-                try:
-                    return await asyncio.wait_for(
-                        asyncio.shield(task), timeout=self.remaining().total_seconds()
-                    )
-                except asyncio.TimeoutError:
-                    continue
+                await asyncio.wait({task}, timeout=self.remaining().total_seconds())
+
+            if not timed_out:
+                # The function's own outcome, be it a TimeoutError it raised
+                return task.result()
         finally:
             if not task.done():
                 timeout_reason = (
-- 
2.43.0


From 534d579518dec92ab8d1ecc3e1af25cdf70a6eb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:08 +0000
Subject: [PATCH 37/46] fix: a dependency that swallows an exception doesn't
 decide a task's outcome

---
 src/docket/dependencies/_resolution.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/docket/dependencies/_resolution.py b/src/docket/dependencies/_resolution.py
index 80c430e..89e65ae 100644
--- a/src/docket/dependencies/_resolution.py
+++ b/src/docket/dependencies/_resolution.py
@@ -191,6 +191,8 @@ async def resolved_dependencies(
     execution_token = current_execution.set(execution)
     cache_token = _Depends.cache.set({})
 
+    failure: BaseException | None = None
+
     # A task that one admission control has blocked leaves right away: entering the
     # others could park it, or count it against their windows, without running it.
     try:
@@ -260,8 +262,16 @@ async def resolved_dependencies(
                 )
 
                 yield arguments
+            except BaseException as error:
+                failure = error
+                raise
             finally:
                 _Depends.stack.reset(stack_token)
+
+        if failure is not None:
+            # A dependency that swallows what went wrong doesn't make the task one
+            # that succeeded, nor one that was admitted or not cancelled
+            raise failure
     finally:
         _Depends.cache.reset(cache_token)
         current_execution.reset(execution_token)
-- 
2.43.0


From 5a796c220152c1665c75dfa3c4301a3652c81d0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:17 +0000
Subject: [PATCH 38/46] fix: subscribe before reading the current state, and be
 ready only when subscribed

---
 src/docket/_execution_progress.py |  4 +-
 src/docket/_redis.py              | 23 ++++++++--
 src/docket/execution.py           | 73 ++++++++++++++++---------------
 3 files changed, 60 insertions(+), 40 deletions(-)

diff --git a/src/docket/_execution_progress.py b/src/docket/_execution_progress.py
index 7ddb2af..7405071 100644
--- a/src/docket/_execution_progress.py
+++ b/src/docket/_execution_progress.py
@@ -14,7 +14,7 @@ from typing import (
 )
 
 from ._lua import Arg, Args, Key, redis_script
-from ._redis import RedisClient, subscription_messages
+from ._redis import RedisClient, acknowledged_subscription, subscription_messages
 
 from ._telemetry import suppress_instrumentation
 from typing_extensions import Self
@@ -270,7 +270,7 @@ class ExecutionProgress:
         """
         channel = self.docket.key(f"progress:{self.key}")
         async with self.docket._pubsub() as pubsub:
-            await pubsub.subscribe(channel)
+            await acknowledged_subscription(pubsub, channel)
             if ready is not None:
                 ready.set()
             async for message in subscription_messages(pubsub):  # pragma: no cover
diff --git a/src/docket/_redis.py b/src/docket/_redis.py
index dfc3956..06da18a 100644
--- a/src/docket/_redis.py
+++ b/src/docket/_redis.py
@@ -16,7 +16,7 @@ from __future__ import annotations
 import asyncio
 import importlib
 import logging
-from contextlib import AsyncExitStack, asynccontextmanager
+from contextlib import AsyncExitStack, aclosing, asynccontextmanager
 from datetime import datetime, timedelta
 from threading import Lock as _ThreadLock
 from types import TracebackType
@@ -614,8 +614,25 @@ def get_memory_server(url: str) -> MemoryRedisClient | None:
 MAX_SUBSCRIPTION_SPINS = 10
 
 
+async def acknowledged_subscription(pubsub: PubSubClient, *channels: str) -> None:
+    """Subscribe to `channels`, and wait for Redis to acknowledge that."""
+    await pubsub.subscribe(*channels)
+    waiting = len(channels)
+    async with aclosing(
+        subscription_messages(pubsub, ignore_subscribe_messages=False)
+    ) as messages:
+        async for message in messages:  # pragma: no branch
+            if message is not None and message["type"] == "subscribe":
+                waiting -= 1
+                if not waiting:
+                    return
+
+
 async def subscription_messages(
-    pubsub: PubSubClient, *, timeout: float = 1.0
+    pubsub: PubSubClient,
+    *,
+    timeout: float = 1.0,
+    ignore_subscribe_messages: bool = True,
 ) -> AsyncGenerator[dict[str, Any] | None, None]:
     """Yield the messages of a subscription, or ``None`` whenever `timeout` seconds
     went by without one.
@@ -632,7 +649,7 @@ async def subscription_messages(
     while True:
         asked = loop.time()
         message = await pubsub.get_message(
-            ignore_subscribe_messages=True, timeout=timeout
+            ignore_subscribe_messages=ignore_subscribe_messages, timeout=timeout
         )
         if message is not None or loop.time() - asked >= timeout / 2:
             spins = 0
diff --git a/src/docket/execution.py b/src/docket/execution.py
index 54724d0..4e41a43 100644
--- a/src/docket/execution.py
+++ b/src/docket/execution.py
@@ -35,7 +35,7 @@ from uncalled_for.introspection import (
 
 from ._execution_progress import ExecutionProgress, ProgressEvent, StateEvent
 from ._lua import Arg, Args, Key, redis_script
-from ._redis import RedisClient, subscription_messages
+from ._redis import RedisClient, acknowledged_subscription, subscription_messages
 from .annotations import Logged
 from .instrumentation import CACHE_SIZE, message_getter, message_setter
 
@@ -1263,45 +1263,48 @@ class Execution:
             - For state events: type="state", state, worker, timestamps, error
             - For progress events: type="progress", current, total, message, updated_at
         """
-        # First, emit the current state
-        await self.sync()
-
-        # Build initial state event from current attributes
-        initial_state: StateEvent = {
-            "type": "state",
-            "key": self.key,
-            "state": self.state,
-            "when": self.when.isoformat(),
-            "worker": self.worker,
-            "started_at": self.started_at.isoformat() if self.started_at else None,
-            "completed_at": (
-                self.completed_at.isoformat() if self.completed_at else None
-            ),
-            "error": self.error,
-        }
-
-        yield initial_state
-
-        progress_event: ProgressEvent = {
-            "type": "progress",
-            "key": self.key,
-            "current": self.progress.current,
-            "total": self.progress.total,
-            "message": self.progress.message,
-            "updated_at": self.progress.updated_at.isoformat()
-            if self.progress.updated_at
-            else None,
-        }
-
-        yield progress_event
-
-        # Then subscribe to real-time updates
         state_channel = self.docket.key(f"state:{self.key}")
         progress_channel = self.docket.key(f"progress:{self.key}")
         async with self.docket._pubsub() as pubsub:
-            await pubsub.subscribe(state_channel, progress_channel)
+            # Be subscribed before reading the current state, so that no change
+            # after that goes unnoticed
+            await acknowledged_subscription(pubsub, state_channel, progress_channel)
             if ready is not None:
                 ready.set()
+
+            # First, emit the current state
+            await self.sync()
+
+            # Build initial state event from current attributes
+            initial_state: StateEvent = {
+                "type": "state",
+                "key": self.key,
+                "state": self.state,
+                "when": self.when.isoformat(),
+                "worker": self.worker,
+                "started_at": self.started_at.isoformat() if self.started_at else None,
+                "completed_at": (
+                    self.completed_at.isoformat() if self.completed_at else None
+                ),
+                "error": self.error,
+            }
+
+            yield initial_state
+
+            progress_event: ProgressEvent = {
+                "type": "progress",
+                "key": self.key,
+                "current": self.progress.current,
+                "total": self.progress.total,
+                "message": self.progress.message,
+                "updated_at": self.progress.updated_at.isoformat()
+                if self.progress.updated_at
+                else None,
+            }
+
+            yield progress_event
+
+            # Then relay the real-time updates
             async for message in subscription_messages(pubsub):  # pragma: no cover
                 if message is not None and message["type"] == "message":
                     message_data = json.loads(message["data"])
-- 
2.43.0


From afd15afe8dd95821ecdf54c9c0fef4a1d321f8d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:18 +0000
Subject: [PATCH 39/46] fix: a superseded run neither alters nor brings back
 its successor's progress

---
 src/docket/_execution_progress.py | 64 ++++++++++++++++++++++++++++---
 src/docket/execution.py           |  3 ++
 2 files changed, 61 insertions(+), 6 deletions(-)

diff --git a/src/docket/_execution_progress.py b/src/docket/_execution_progress.py
index 7405071..833ef51 100644
--- a/src/docket/_execution_progress.py
+++ b/src/docket/_execution_progress.py
@@ -28,11 +28,22 @@ async def _progress_write(
     redis: RedisClient,
     *,
     progress_key: Key[str],
+    runs_key: Key[str],
+    generation: Arg[int],
     payload: Arg[str],
     clear_message: Arg[bool],
     fields: Args[dict[str, str]],
 ) -> bytes:
     """
+    -- A run that was superseded must neither alter nor bring back the progress
+    -- of its successor (generation 0 = not on behalf of a run, always write)
+    if generation > 0 then
+        local current = redis.call('HGET', runs_key, 'generation')
+        if not current or tonumber(current) > generation then
+            return 'SUPERSEDED'
+        end
+    end
+
     local hset_args = {}
     for i = fields_start, #ARGV, 2 do
         hset_args[#hset_args + 1] = ARGV[i]
@@ -50,6 +61,31 @@ async def _progress_write(
     ...
 
 
+@redis_script
+async def _progress_increment(
+    redis: RedisClient,
+    *,
+    progress_key: Key[str],
+    runs_key: Key[str],
+    generation: Arg[int],
+    amount: Arg[int],
+    updated_at: Arg[str],
+) -> int | None:
+    """
+    -- See _progress_write
+    if generation > 0 then
+        local current = redis.call('HGET', runs_key, 'generation')
+        if not current or tonumber(current) > generation then
+            return nil
+        end
+    end
+
+    redis.call('HSET', progress_key, 'updated_at', updated_at)
+    return redis.call('HINCRBY', progress_key, 'current', amount)
+    """
+    ...
+
+
 class ProgressEvent(TypedDict):
     type: Literal["progress"]
     key: str
@@ -92,6 +128,8 @@ class ExecutionProgress:
         self.docket = docket
         self.key = key
         self._redis_key = docket.key(f"progress:{key}")
+        self._runs_key = docket.runs_key(key)
+        self._generation = 0
         self.current: int | None = None
         self.total: int = 1
         self.message: str | None = None
@@ -144,6 +182,8 @@ class ExecutionProgress:
             await _progress_write(
                 redis,
                 progress_key=self._redis_key,
+                runs_key=self._runs_key,
+                generation=self._generation,
                 payload=json.dumps(payload),
                 clear_message=False,
                 fields={"total": str(total), "updated_at": updated_at},
@@ -163,12 +203,22 @@ class ExecutionProgress:
         updated_at_dt = datetime.now(timezone.utc)
         updated_at = updated_at_dt.isoformat()
         async with self.docket.redis() as redis:
-            async with redis.pipeline() as pipe:
-                pipe.hincrby(self._redis_key, "current", amount)
-                pipe.hset(self._redis_key, "updated_at", updated_at)
-                new_current, _ = await pipe.execute()
-        # Update instance attributes using Redis return value
-        self.current = new_current
+            new_current = await _progress_increment(
+                redis,
+                progress_key=self._redis_key,
+                runs_key=self._runs_key,
+                generation=self._generation,
+                amount=amount,
+                updated_at=updated_at,
+            )
+        if new_current is None:
+            # This run was superseded; only its own view of the progress is left
+            self.current = (self.current or 0) + amount
+            self.updated_at = updated_at_dt
+            return
+        # Update instance attributes using Redis return value; the replies to
+        # concurrent increments may come in any order
+        self.current = max(self.current or 0, new_current)
         self.updated_at = updated_at_dt
         # Publish update event with new current value
         await self._publish({"current": new_current, "updated_at": updated_at})
@@ -197,6 +247,8 @@ class ExecutionProgress:
             await _progress_write(
                 redis,
                 progress_key=self._redis_key,
+                runs_key=self._runs_key,
+                generation=self._generation,
                 payload=json.dumps(payload),
                 clear_message=message is None,
                 fields=fields,
diff --git a/src/docket/execution.py b/src/docket/execution.py
index 4e41a43..0aad104 100644
--- a/src/docket/execution.py
+++ b/src/docket/execution.py
@@ -927,8 +927,11 @@ class Execution:
         self.state = ExecutionState.RUNNING
         self.worker = worker
         self.started_at = started_at
+        self.progress._generation = self._generation
         self.progress.current = 0
         self.progress.total = 100
+        self.progress.message = None
+        self.progress.updated_at = None
 
         return True
 
-- 
2.43.0


From 11892942ec562f4f964ebd68cd1bcda055bde65f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:27 +0000
Subject: [PATCH 40/46] fix: a stopped worker is not listed again by its own
 late heartbeat, nor with a predecessor's tasks

---
 src/docket/worker.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/docket/worker.py b/src/docket/worker.py
index a461b65..3ea51ec 100644
--- a/src/docket/worker.py
+++ b/src/docket/worker.py
@@ -4,6 +4,7 @@ import asyncio
 import base64
 import importlib
 import logging
+import math
 import os
 import signal
 import socket
@@ -867,6 +868,8 @@ class Worker:
         finally:
             session.stopping.set()
             if self._heartbeat_task is not None:
+                # Let a heartbeat that is on its way arrive before the removal
+                await asyncio.wait({self._heartbeat_task}, timeout=1.0)
                 await cancel_task(self._heartbeat_task, CANCEL_MSG_CLEANUP)
             self._heartbeat_task = None
             await self._remove_heartbeat()
@@ -1369,11 +1372,15 @@ class Worker:
                                 pipeline.zremrangebyscore(task_workers_set, 0, oldest)
                                 pipeline.zadd(task_workers_set, {self.name: now})
 
+                            # A predecessor of the same name may have known others
+                            pipeline.delete(self.worker_tasks_set(self.name))
                             pipeline.sadd(self.worker_tasks_set(self.name), *task_names)
                             pipeline.expire(
                                 self.worker_tasks_set(self.name),
                                 max(
-                                    maximum_age, timedelta(seconds=MINIMUM_TTL_SECONDS)
+                                    # EXPIRE takes whole seconds
+                                    math.ceil(maximum_age.total_seconds()),
+                                    MINIMUM_TTL_SECONDS,
                                 ),
                             )
 
-- 
2.43.0


From ed96ce7d7da326038d713f5f8339414d7b97b156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:05 +0000
Subject: [PATCH 41/46] fix: a task that can't be decoded or printed fails
 alone and doesn't take down its worker

---
 src/docket/annotations.py |  6 +++-
 src/docket/execution.py   | 17 ++++++++--
 src/docket/worker.py      | 65 +++++++++++++++++++++++++++++++--------
 3 files changed, 73 insertions(+), 15 deletions(-)

diff --git a/src/docket/annotations.py b/src/docket/annotations.py
index 03c7380..f3c1dd2 100644
--- a/src/docket/annotations.py
+++ b/src/docket/annotations.py
@@ -78,4 +78,8 @@ class Logged(Annotation):
             elif hasattr(argument, "__len__"):
                 return f"[len {len(argument)}]"
 
-        return repr(argument)
+        try:
+            return repr(argument)
+        except Exception:
+            # Logging a task must not keep it from running
+            return f"<unprintable {type(argument).__name__}>"
diff --git a/src/docket/execution.py b/src/docket/execution.py
index 0aad104..298d4c6 100644
--- a/src/docket/execution.py
+++ b/src/docket/execution.py
@@ -483,6 +483,10 @@ def get_signature(function: Callable[..., Any]) -> inspect.Signature:
     return signature
 
 
+class UndecodableArguments(Exception):
+    """The arguments of a task can't be unpickled by this process."""
+
+
 class ExecutionState(enum.Enum):
     """Lifecycle states for task execution."""
 
@@ -676,11 +680,20 @@ class Execution:
                 )
             function = fallback_task
 
+        try:
+            args = cloudpickle.loads(message[b"args"])
+            kwargs = cloudpickle.loads(message[b"kwargs"])
+        except Exception as error:
+            raise UndecodableArguments(
+                f"Can't decode the arguments of {function_name!r}"
+                f" ({message[b'key'].decode()!r})"
+            ) from error
+
         instance = cls(
             docket=docket,
             function=function,
-            args=cloudpickle.loads(message[b"args"]),
-            kwargs=cloudpickle.loads(message[b"kwargs"]),
+            args=args,
+            kwargs=kwargs,
             key=message[b"key"].decode(),
             when=datetime.fromisoformat(message[b"when"].decode()),
             attempt=int(message[b"attempt"].decode()),
diff --git a/src/docket/worker.py b/src/docket/worker.py
index 3ea51ec..9656c96 100644
--- a/src/docket/worker.py
+++ b/src/docket/worker.py
@@ -74,7 +74,12 @@ from .docket import (
     RedisMessageID,
     RedisReadGroupResponse,
 )
-from .execution import TaskFunction, compact_signature, get_signature
+from .execution import (
+    TaskFunction,
+    UndecodableArguments,
+    compact_signature,
+    get_signature,
+)
 from .instrumentation import (
     QUEUE_DEPTH,
     REDIS_DISRUPTIONS,
@@ -138,6 +143,25 @@ class _ProcessingSession:
     )
 
 
+async def _fail_with(error: Exception) -> None:
+    """Stands in for a task whose arguments can't be decoded."""
+    raise error
+
+
+def _exception_message(error: BaseException) -> str:
+    try:
+        return str(error)
+    except Exception:
+        return "<unprintable>"
+
+
+def _record_exception(span: trace.Span, error: BaseException) -> None:
+    try:
+        span.record_exception(error)
+    except Exception:
+        logger.warning("Can't record %s", type(error).__name__, exc_info=True)
+
+
 async def default_fallback_task(
     *args: Any,
     execution: Execution = CurrentExecution(),
@@ -692,13 +716,30 @@ class Worker:
             message: RedisMessage,
             is_redelivery: bool = False,
         ) -> None:
-            execution = await Execution.from_message(
-                self.docket,
-                message,
-                redelivered=is_redelivery,
-                fallback_task=self.fallback_task,
-                message_id=message_id,
-            )
+            try:
+                execution = await Execution.from_message(
+                    self.docket,
+                    message,
+                    redelivered=is_redelivery,
+                    fallback_task=self.fallback_task,
+                    message_id=message_id,
+                )
+            except UndecodableArguments as error:
+                # Nobody is helped if this takes down the worker and, when it
+                # is redelivered, the next one: it is this task that fails.
+                execution = await Execution.from_message(
+                    self.docket,
+                    {
+                        **message,
+                        b"args": cloudpickle.dumps(()),
+                        b"kwargs": cloudpickle.dumps({}),
+                    },
+                    redelivered=is_redelivery,
+                    fallback_task=self.fallback_task,
+                    message_id=message_id,
+                )
+                execution._function = _fail_with
+                execution._args = (error,)
 
             task = asyncio.create_task(
                 self._execute(execution),
@@ -1190,7 +1231,7 @@ class Worker:
                     # recording that or while releasing the dependencies.  Don't
                     # retry or fail the task for it: record the success again,
                     # and should that fail too, leave the message to redelivery.
-                    span.record_exception(e)
+                    _record_exception(span, e)
                     logger.warning(
                         "Redis error after %s succeeded",
                         call,
@@ -1206,8 +1247,8 @@ class Worker:
                 duration = log_context["duration"] = time.time() - start
                 TASKS_FAILED.add(1, counter_labels)
 
-                span.record_exception(e)
-                span.set_status(Status(StatusCode.ERROR, str(e)))
+                _record_exception(span, e)
+                span.set_status(Status(StatusCode.ERROR, _exception_message(e)))
 
                 outcome = TaskOutcome(
                     duration=timedelta(seconds=duration),
@@ -1270,7 +1311,7 @@ class Worker:
                             )
 
                     # Mark execution as failed with error message
-                    error_msg = f"{type(e).__name__}: {str(e)}"
+                    error_msg = f"{type(e).__name__}: {_exception_message(e)}"
                     await execution.mark_as_failed(error_msg, result_key=result_key)
             finally:
                 TASKS_RUNNING.add(-1, counter_labels)
-- 
2.43.0


From 671521bd8b9abc51256afca188c9a6cce39b3951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:05 +0000
Subject: [PATCH 42/46] fix: a shutdown request that arrives while in-flight
 tasks drain lets them finish

---
 src/docket/worker.py | 49 +++++++++++++++++++++++++++++---------------
 1 file changed, 33 insertions(+), 16 deletions(-)

diff --git a/src/docket/worker.py b/src/docket/worker.py
index 9656c96..153997a 100644
--- a/src/docket/worker.py
+++ b/src/docket/worker.py
@@ -805,8 +805,28 @@ class Worker:
                 if not execution._acked:
                     await execution.mark_as_failed(error=None)
 
+        async def wind_down() -> None:
+            if self._heartbeat_task is not None:
+                # Let a heartbeat that is on its way arrive before the removal
+                await asyncio.wait({self._heartbeat_task}, timeout=1.0)
+                await cancel_task(self._heartbeat_task, CANCEL_MSG_CLEANUP)
+            self._heartbeat_task = None
+            await self._remove_heartbeat()
+            try:
+                if active_tasks:
+                    await asyncio.gather(*active_tasks, return_exceptions=True)
+                    await process_completed_tasks()
+            finally:
+                # Leases are held until everything has drained, so that another
+                # worker doesn't redeliver what this one is still finishing.
+                if lease_renewal is not None:
+                    await cancel_task(lease_renewal, CANCEL_MSG_CLEANUP)
+            if self._processing_session is session:
+                self._processing_session = None
+
         disconnect: ConnectionError | None = None
         lease_renewal: asyncio.Task[None] | None = None
+        shutting_down = False
         try:
             async with AsyncExitStack() as dependency_stack:
                 # Each Dependency class used by a registered task may declare
@@ -900,6 +920,7 @@ class Worker:
             if disconnect is not None:
                 raise disconnect
         except asyncio.CancelledError:
+            shutting_down = True
             if active_tasks:  # pragma: no cover
                 logger.info(
                     "Shutdown requested, finishing %d active tasks...",
@@ -908,23 +929,19 @@ class Worker:
                 )
         finally:
             session.stopping.set()
-            if self._heartbeat_task is not None:
-                # Let a heartbeat that is on its way arrive before the removal
-                await asyncio.wait({self._heartbeat_task}, timeout=1.0)
-                await cancel_task(self._heartbeat_task, CANCEL_MSG_CLEANUP)
-            self._heartbeat_task = None
-            await self._remove_heartbeat()
+            winding_down = asyncio.create_task(
+                wind_down(), name=f"{self.docket.name} - winding down"
+            )
             try:
-                if active_tasks:
-                    await asyncio.gather(*active_tasks, return_exceptions=True)
-                    await process_completed_tasks()
-            finally:
-                # Leases are held until everything has drained, so that another
-                # worker doesn't redeliver what this one is still finishing.
-                if lease_renewal is not None:
-                    await cancel_task(lease_renewal, CANCEL_MSG_CLEANUP)
-            if self._processing_session is session:
-                self._processing_session = None
+                await asyncio.shield(winding_down)
+            except asyncio.CancelledError:
+                # Shutdown was requested while in-flight tasks were draining, be
+                # it for another reason (e.g. in order to reconnect): that lets
+                # them finish too.  Only a second request interrupts them.
+                if shutting_down:
+                    winding_down.cancel()
+                await winding_down
+                raise
 
     async def _scheduler_loop(self, redis: Redis) -> None:
         session = self._processing_session
-- 
2.43.0


From 844effd67b134ace238105707a4b104dee06d918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:05 +0000
Subject: [PATCH 43/46] fix: clear removes only waiting tasks, atomically with
 their records

---
 src/docket/docket.py | 145 +++++++++++++++++++++++++++----------------
 1 file changed, 93 insertions(+), 52 deletions(-)

diff --git a/src/docket/docket.py b/src/docket/docket.py
index bba538b..3d3ad73 100644
--- a/src/docket/docket.py
+++ b/src/docket/docket.py
@@ -25,7 +25,7 @@ from ._docket_snapshot import DocketSnapshot as DocketSnapshot
 from ._docket_snapshot import DocketSnapshotMixin
 from ._docket_snapshot import RunningExecution as RunningExecution
 from ._docket_snapshot import WorkerInfo as WorkerInfo
-from ._lua import Arg, Key, redis_script
+from ._lua import Arg, Args, Key, redis_script
 from ._redis import (
     PubSubClient,
     RedisClient,
@@ -150,6 +150,61 @@ async def _cancel_task(
     ...
 
 
+@redis_script
+async def _clear_tasks(
+    redis: RedisClient,
+    *,
+    queue_key: Key[str],
+    stream_key: Key[str],
+    docket_prefix: Arg[str],
+    completed_at: Arg[str],
+    ttl_seconds: Arg[int],
+    tasks: Args[list[str | bytes]],
+) -> int:
+    """
+    -- ``tasks`` are triples of a key, the message it was seen in (or '') and the
+    -- state event to publish
+    local cleared = 0
+    for i = tasks_start, #ARGV, 3 do
+        local task_key, message_id = ARGV[i], ARGV[i + 1]
+        local runs_key = docket_prefix .. ':runs:' .. task_key
+        local state = redis.call('HGET', runs_key, 'state')
+        local queued = redis.call('ZSCORE', queue_key, task_key)
+        local waiting_message = redis.call('HGET', runs_key, 'stream_id')
+
+        if queued or waiting_message then
+            -- Waiting, though not necessarily where we have seen it
+            redis.call('ZREM', queue_key, task_key)
+            redis.call('DEL', docket_prefix .. ':' .. task_key)
+            if waiting_message then
+                redis.call('XDEL', stream_key, waiting_message)
+            end
+            -- TODO: Remove in v0.14.0 - legacy key locations
+            redis.call('DEL', docket_prefix .. ':known:' .. task_key,
+                docket_prefix .. ':stream-id:' .. task_key)
+
+            -- Clear scheduling markers so add() can reschedule this key
+            redis.call('HDEL', runs_key, 'known', 'stream_id')
+            if state == 'scheduled' or state == 'queued' then
+                redis.call('HSET', runs_key, 'state', 'cancelled', 'completed_at', completed_at)
+                if ttl_seconds > 0 then
+                    redis.call('EXPIRE', runs_key, ttl_seconds)
+                else
+                    redis.call('DEL', runs_key)
+                end
+                redis.call('PUBLISH', docket_prefix .. ':state:' .. task_key, ARGV[i + 2])
+            end
+            cleared = cleared + 1
+        elseif not state and message_id ~= '' then
+            -- Nobody tracks this message (anymore)
+            cleared = cleared + redis.call('XDEL', stream_key, message_id)
+        end
+    end
+    return cleared
+    """
+    ...
+
+
 P = ParamSpec("P")
 R = TypeVar("R")
 
@@ -893,58 +948,44 @@ class Docket(DocketSnapshotMixin):
         ):
             async with self.redis() as redis:
                 async with redis.pipeline() as pipeline:
-                    # Get counts before clearing
-                    pipeline.xlen(self.stream_key)
-                    pipeline.zcard(self.queue_key)
                     pipeline.zrange(self.queue_key, 0, -1)
+                    pipeline.xrange(self.stream_key, "-", "+")
 
-                    stream_count: int
-                    queue_count: int
                     scheduled_keys: list[bytes]
-                    stream_count, queue_count, scheduled_keys = await pipeline.execute()
-
-                # Get keys from stream messages before trimming
-                stream_keys: list[str] = []
-                if stream_count > 0:
-                    # Read all messages from the stream
-                    messages = await redis.xrange(self.stream_key, "-", "+")
-                    for message_id, fields in messages:
-                        # Extract the key field from the message
-                        if b"key" in fields:  # pragma: no branch
-                            stream_keys.append(fields[b"key"].decode())
+                    messages: list[tuple[RedisMessageID, RedisMessage]]
+                    scheduled_keys, messages = await pipeline.execute()
 
-                async with redis.pipeline() as pipeline:
-                    # Clear all data
-                    # Trim stream to 0 messages instead of deleting it to preserve consumer group
-                    if stream_count > 0:
-                        pipeline.xtrim(self.stream_key, maxlen=0, approximate=False)
-                    pipeline.delete(self.queue_key)
-
-                    # Clear parked task data and known task keys for scheduled tasks
-                    for key_bytes in scheduled_keys:
-                        task_key = key_bytes.decode()
-                        pipeline.delete(self.parked_task_key(task_key))
-                        pipeline.delete(self.known_task_key(task_key))
-                        pipeline.delete(self.stream_id_key(task_key))
-
-                        # Handle runs hash: set TTL or delete based on execution_ttl
-                        task_runs_key = self.runs_key(task_key)
-                        if self.execution_ttl:
-                            ttl_seconds = int(self.execution_ttl.total_seconds())
-                            pipeline.expire(task_runs_key, ttl_seconds)
-                        else:
-                            pipeline.delete(task_runs_key)
-
-                    # Handle runs hash for immediate tasks from stream
-                    for task_key in stream_keys:
-                        task_runs_key = self.runs_key(task_key)
-                        if self.execution_ttl:
-                            ttl_seconds = int(self.execution_ttl.total_seconds())
-                            pipeline.expire(task_runs_key, ttl_seconds)
-                        else:
-                            pipeline.delete(task_runs_key)
-
-                    await pipeline.execute()
-
-                    total_cleared = stream_count + queue_count
-                    return total_cleared
+                waiting: dict[bytes, bytes] = {key: b"" for key in scheduled_keys}
+                for message_id, fields in messages:
+                    if b"key" in fields:  # pragma: no branch
+                        waiting[fields[b"key"]] = message_id
+
+                completed_at = datetime.now(timezone.utc).isoformat()
+                ttl_seconds = (
+                    int(self.execution_ttl.total_seconds()) if self.execution_ttl else 0
+                )
+
+                total_cleared = 0
+                remaining = list(waiting.items())
+                while remaining:
+                    batch, remaining = remaining[:100], remaining[100:]
+                    tasks: list[str | bytes] = []
+                    for key, message_id in batch:
+                        payload = {
+                            "type": "state",
+                            "key": key.decode(),
+                            "state": "cancelled",
+                            "completed_at": completed_at,
+                        }
+                        tasks += [key, message_id, json.dumps(payload)]
+                    total_cleared += await _clear_tasks(
+                        redis,
+                        queue_key=self.queue_key,
+                        stream_key=self.stream_key,
+                        docket_prefix=self.prefix,
+                        completed_at=completed_at,
+                        ttl_seconds=ttl_seconds,
+                        tasks=tasks,
+                    )
+
+                return total_cleared
-- 
2.43.0


From d2420ceb2c207299af3e530e93e966cd2ca67151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:55 +0000
Subject: [PATCH 44/46] fix: a snapshot tells when a task was started, not when
 its lease was last renewed

---
 src/docket/_docket_snapshot.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/docket/_docket_snapshot.py b/src/docket/_docket_snapshot.py
index f78497b..f36efdf 100644
--- a/src/docket/_docket_snapshot.py
+++ b/src/docket/_docket_snapshot.py
@@ -183,6 +183,13 @@ class DocketSnapshotMixin:
                 started = now - timedelta(
                     milliseconds=pending_lookup[message_id]["time_since_delivered"]
                 )
+                if (
+                    execution.state == ExecutionState.RUNNING
+                    and execution.started_at
+                    and execution.worker == worker_name
+                ):
+                    # The message's idle time restarts with each lease renewal
+                    started = execution.started_at
                 running.append(RunningExecution(execution, worker_name, started))
             else:
                 future.append(execution)  # pragma: no cover
-- 
2.43.0


From 1d3b1c374c3abdde11a5f086b7434b4241ed3869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:20:53 +0000
Subject: [PATCH 45/46] fix: cancellations are heard whatever characters the
 docket's name has

---
 src/docket/dependencies/_concurrency.py | 2 +-
 src/docket/docket.py                    | 7 +++++++
 src/docket/worker.py                    | 2 +-
 3 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/docket/dependencies/_concurrency.py b/src/docket/dependencies/_concurrency.py
index f555b33..42926dd 100644
--- a/src/docket/dependencies/_concurrency.py
+++ b/src/docket/dependencies/_concurrency.py
@@ -788,7 +788,7 @@ class ConcurrencyLimit(Dependency["ConcurrencyLimit"]):
 
     @classmethod
     async def _clean_up_cancelled_waiters(cls, docket: "Docket") -> None:
-        pattern = f"{docket.prefix}:cancel:*"
+        pattern = docket.cancel_pattern
         async with docket.redis() as redis:
             pubsub = redis.pubsub()
             try:
diff --git a/src/docket/docket.py b/src/docket/docket.py
index 3d3ad73..2514f33 100644
--- a/src/docket/docket.py
+++ b/src/docket/docket.py
@@ -1,6 +1,7 @@
 import importlib
 import json
 import logging
+import re
 from contextlib import AsyncExitStack, asynccontextmanager
 from datetime import datetime, timedelta, timezone
 from types import TracebackType
@@ -800,6 +801,12 @@ class Docket(DocketSnapshotMixin):
         """Return the Redis pub/sub channel for cancellation signals for a task."""
         return self.key(f"cancel:{task_key}")
 
+    @property
+    def cancel_pattern(self) -> str:
+        """Return the Redis pub/sub pattern of all tasks' cancellation channels."""
+        # The docket's name is matched literally, whatever characters it has
+        return re.sub(r"([\\*?\[\]])", r"\\\1", self.key("cancel:")) + "*"
+
     @property
     def results_collection(self) -> str:
         """Return the collection name for result storage."""
diff --git a/src/docket/worker.py b/src/docket/worker.py
index 153997a..8c97e56 100644
--- a/src/docket/worker.py
+++ b/src/docket/worker.py
@@ -1484,7 +1484,7 @@ class Worker:
         if session is None:
             return  # pragma: no cover
 
-        cancel_pattern = self.docket.key("cancel:*")
+        cancel_pattern = self.docket.cancel_pattern
         log_context = self._log_context()
         while not session.stopping.is_set():
             try:
-- 
2.43.0


From 593014fbe66a5545a75d44b49ba390b3b0320c15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:20:53 +0000
Subject: [PATCH 46/46] fix: scatter over a change of the clocks keeps the
 tasks evenly spread

---
 src/docket/agenda.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/docket/agenda.py b/src/docket/agenda.py
index 2b95f98..da81afe 100644
--- a/src/docket/agenda.py
+++ b/src/docket/agenda.py
@@ -158,6 +158,10 @@ class Agenda:
 
         if start is None:
             start = datetime.now(timezone.utc)
+        elif start.tzinfo is not None:
+            # Wall-clock arithmetic would stretch or shrink a window in which the
+            # clocks of the start's timezone change
+            start = start.astimezone(timezone.utc)
 
         # Calculate even distribution over the time period
         task_count = len(self._tasks)
-- 
2.43.0

