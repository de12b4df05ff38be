From 5f09f0306fb7ab58f902397103e2b6d815a467e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:50 +0000
Subject: [PATCH 01/72] fix: template patterns with negative slice values or
 embedded delimiters

Negative slice values are documented but were rejected. Complex patterns were
matched by prefix up to the first closing delimiter, so {= x == 1 =} and
{% date +%s %} silently expanded something else and trailing text such as
{[0]abc} was dropped instead of being an unmatched pattern.
---
 src/hypershell/core/template.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hypershell/core/template.py b/src/hypershell/core/template.py
index 4a3ed21..b336ab9 100644
--- a/src/hypershell/core/template.py
+++ b/src/hypershell/core/template.py
@@ -97,7 +97,7 @@ class Template:
         """Expand complex (nested) patterns in template against `args`."""
         key_ = '{' + key + '}'
         for pattern, routine in self.complex_patterns.items():
-            if inner_match := re.match(pattern, key):
+            if inner_match := re.fullmatch(pattern, key):
                 try:
                     inner_key, = inner_match.groups()
                     return routine(args, inner_key)
@@ -171,7 +171,7 @@ class Template:
 
     def expand_slice(self: Template, args: str, key: str) -> str:
         """Expand slice `key` ([start][:stop][:step]) against args (on white space)."""
-        if re.match(r'(\d+)?:?(\d+)?:?(\d+)?$', key):
+        if re.fullmatch(r'-?\d+|(-?\d+)?:(-?\d+)?(:(-?\d+)?)?', key):
             result = eval(f'chunks[{key}]', {'chunks': args.split()})
             return ' '.join(result if isinstance(result, list) else [result, ])
         else:
-- 
2.43.0


From 571bf37615f6686485a4402c9deb26eaff6db6af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:08 +0000
Subject: [PATCH 02/72] fix: quote user and password in database URL

Characters such as @ : / % in the user or password changed the host and database the
URL pointed to, and an empty password silently dropped the user.
---
 src/hypershell/data/core.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/hypershell/data/core.py b/src/hypershell/data/core.py
index 55306ce..78415f8 100644
--- a/src/hypershell/data/core.py
+++ b/src/hypershell/data/core.py
@@ -11,7 +11,7 @@ from typing import Any, Type
 # standard libs
 import sys
 import logging
-from urllib.parse import urlencode
+from urllib.parse import quote, urlencode
 
 # external libs
 from cmdkit.app import exit_status
@@ -137,8 +137,8 @@ class DatabaseURL(dict):
                 return ''
 
     def _format_user_and_password(self: DatabaseURL) -> str:
-        if self.user and self.password:
-            return f'{self.user}:{self.password}@'
+        if self.user is not None and self.password is not None:
+            return f'{quote(str(self.user), safe="")}:{quote(str(self.password), safe="")}@'
         else:
             return ''
 
-- 
2.43.0


From fdd483ae64ea540a838875330e730b2b3befe480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:14 +0000
Subject: [PATCH 03/72] fix: bracket IPv6 hosts in database URL

---
 src/hypershell/data/core.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/hypershell/data/core.py b/src/hypershell/data/core.py
index 78415f8..e3fdde9 100644
--- a/src/hypershell/data/core.py
+++ b/src/hypershell/data/core.py
@@ -124,10 +124,11 @@ class DatabaseURL(dict):
             return ''
 
     def _format_host_and_port(self: DatabaseURL) -> str:
-        if self.host and self.port:
-            return f'{self.host}:{self.port}'
-        elif self.host and not self.port:
-            return f'{self.host}'
+        host = f'[{self.host}]' if self.host and ':' in self.host and self.host[0] != '[' else self.host  # IPv6
+        if host and self.port:
+            return f'{host}:{self.port}'
+        elif host and not self.port:
+            return f'{host}'
         elif self.port and not self.host:
             return f'localhost:{self.port}'
         else:
-- 
2.43.0


From 12c7b93bd787b55924d6575adf15cf1c4d6891d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:42 +0000
Subject: [PATCH 04/72] fix: expand every range of a host pattern

Only the first range of a host was expanded (and a repeated range raised ValueError),
and a padded range given in descending order lost its zero padding.
---
 src/hypershell/cluster/ssh.py | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/src/hypershell/cluster/ssh.py b/src/hypershell/cluster/ssh.py
index 7bda57b..8ff42cf 100644
--- a/src/hypershell/cluster/ssh.py
+++ b/src/hypershell/cluster/ssh.py
@@ -321,10 +321,10 @@ class NodeList(list):
             return cls(cls.from_pattern(pattern[0:idx]) + cls.from_pattern(pattern[idx+1:]))
         else:
             if match := cls.range_pattern.search(pattern):
-                range_spec = match.group()
-                prefix, suffix = pattern.split(range_spec)
-                segments = cls.expand_pattern(range_spec)
-                return cls([f'{prefix}{segment}{suffix}' for segment in segments])
+                prefix, suffix = pattern[:match.start()], pattern[match.end():]
+                segments = cls.expand_pattern(match.group())
+                endings = cls.from_pattern(suffix)  # NOTE: there can be more than one range
+                return cls([f'{prefix}{segment}{ending}' for segment in segments for ending in endings])
             else:
                 return cls([pattern, ])
 
@@ -336,11 +336,10 @@ class NodeList(list):
         for group in spec.split(','):
             if '-' in group:
                 start_chars, stop_chars = group.strip().split('-')
-                apply_padding = str if start_chars[0] != '0' else lambda s: str(s).zfill(len(start_chars))
-                start, stop = int(start_chars), int(stop_chars)
-                if stop < start:
-                    start, stop = stop, start
-                result.extend([apply_padding(value) for value in range(start, stop + 1)])
+                if int(stop_chars) < int(start_chars):
+                    start_chars, stop_chars = stop_chars, start_chars
+                width = len(start_chars) if start_chars[0] == '0' else 0
+                result.extend([str(value).zfill(width) for value in range(int(start_chars), int(stop_chars) + 1)])
             else:
                 result.extend([group, ])
         return result
-- 
2.43.0


From 5afd9ffd79235fb20673303a803c2ced95feb43a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:55 +0000
Subject: [PATCH 05/72] fix: host lists with a thousand or more comma separated
 groups

Expansion recursed once per group and ended in RecursionError.
---
 src/hypershell/cluster/ssh.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/hypershell/cluster/ssh.py b/src/hypershell/cluster/ssh.py
index 8ff42cf..b51ce79 100644
--- a/src/hypershell/cluster/ssh.py
+++ b/src/hypershell/cluster/ssh.py
@@ -316,9 +316,9 @@ class NodeList(list):
     def from_pattern(cls: Type[NodeList], pattern: str) -> NodeList:
         """Expand a `pattern` to multiple hostnames."""
         pattern = pattern.strip(',')
-        if match := cls.group_pattern.search(pattern):
-            idx = match.start()
-            return cls(cls.from_pattern(pattern[0:idx]) + cls.from_pattern(pattern[idx+1:]))
+        if cls.group_pattern.search(pattern):
+            groups = filter(None, cls.group_pattern.split(pattern))
+            return cls([host for group in groups for host in cls.from_pattern(group)])
         else:
             if match := cls.range_pattern.search(pattern):
                 prefix, suffix = pattern[:match.start()], pattern[match.end():]
-- 
2.43.0


From 4b8d0b5244720362b12f16956aff82474de33eee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:37 +0000
Subject: [PATCH 06/72] fix: keep scheduling until the submitter is done

---
 src/hypershell/server.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/hypershell/server.py b/src/hypershell/server.py
index abff879..057c05a 100644
--- a/src/hypershell/server.py
+++ b/src/hypershell/server.py
@@ -125,6 +125,7 @@ class Scheduler(StateMachine):
     states = SchedulerState
 
     startup_phase: bool = True
+    submitting: bool = False  # set by parent thread while tasks are still being submitted
 
     def __init__(self: Scheduler, queue: QueueServer, bundlesize: int = DEFAULT_BUNDLESIZE,
                  attempts: int = DEFAULT_ATTEMPTS, eager: bool = DEFAULT_EAGER_MODE,
@@ -174,12 +175,14 @@ class Scheduler(StateMachine):
         if check_signal() in (SIGUSR1, SIGUSR2):
             log.warning(f'Signal interrupt ({SIGNAL_MAP[check_signal()]})')
             return SchedulerState.FINAL
+        submitting = self.submitting  # NOTE: read before query, else we might miss the last tasks submitted
         self.tasks = Task.next(limit=self.bundlesize, attempts=self.attempts, eager=self.eager)
         if self.tasks:
             self.startup_phase = False
             return SchedulerState.PACK
         # An empty database must wait for at least one task
-        elif not self.forever_mode and Task.count() > 0 and Task.count_remaining() == 0 and not self.startup_phase:
+        elif (not self.forever_mode and not submitting and not self.startup_phase
+              and Task.count() > 0 and Task.count_remaining() == 0):
             return SchedulerState.FINAL
         else:
             time.sleep(DEFAULT_QUERY_PAUSE)
@@ -229,6 +232,10 @@ class SchedulerThread(Thread):
         self.machine.halt()
         super().stop(wait=wait, timeout=timeout)
 
+    def signal_submitting(self: SchedulerThread, submitting: bool) -> None:
+        """Set flag to tell scheduler whether tasks are still being submitted."""
+        self.machine.submitting = submitting
+
 
 class ConfirmState(State, Enum):
     """Finite states for task confirmation machine."""
@@ -749,6 +756,7 @@ class ServerThread(Thread):
         if self.submitter is not None:
             self.submitter.start()
         if self.scheduler is not None:
+            self.scheduler.signal_submitting(self.submitter is not None)
             self.scheduler.start()
         if not self.no_confirm:
             self.confirm.start()
@@ -760,6 +768,8 @@ class ServerThread(Thread):
         if self.submitter is not None:
             log.trace('Waiting (submitter)')
             self.submitter.join()
+            if self.scheduler is not None:
+                self.scheduler.signal_submitting(False)
 
     def wait_scheduler(self: ServerThread) -> None:
         """Wait scheduling until complete."""
-- 
2.43.0


From 8d71388683bc82eae600be108ce7bfddbbd32766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:59 +0000
Subject: [PATCH 07/72] fix: count remaining tasks before looking for failed
 tasks to retry

---
 src/hypershell/server.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/hypershell/server.py b/src/hypershell/server.py
index 057c05a..97cf1aa 100644
--- a/src/hypershell/server.py
+++ b/src/hypershell/server.py
@@ -176,13 +176,14 @@ class Scheduler(StateMachine):
             log.warning(f'Signal interrupt ({SIGNAL_MAP[check_signal()]})')
             return SchedulerState.FINAL
         submitting = self.submitting  # NOTE: read before query, else we might miss the last tasks submitted
+        remaining = Task.count_remaining()  # NOTE: a task that fails after this must not be missed for retry
         self.tasks = Task.next(limit=self.bundlesize, attempts=self.attempts, eager=self.eager)
         if self.tasks:
             self.startup_phase = False
             return SchedulerState.PACK
         # An empty database must wait for at least one task
         elif (not self.forever_mode and not submitting and not self.startup_phase
-              and Task.count() > 0 and Task.count_remaining() == 0):
+              and remaining == 0 and Task.count() > 0):
             return SchedulerState.FINAL
         else:
             time.sleep(DEFAULT_QUERY_PAUSE)
-- 
2.43.0


From c7eec51a0a56a259675dca981c8350286b6c5ce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:07 +0000
Subject: [PATCH 08/72] fix: ask clients that register late to disconnect and
 never block on the request

---
 src/hypershell/server.py | 29 +++++++++++++++++++++++------
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/src/hypershell/server.py b/src/hypershell/server.py
index 97cf1aa..8f68675 100644
--- a/src/hypershell/server.py
+++ b/src/hypershell/server.py
@@ -462,6 +462,8 @@ class HeartMonitor(StateMachine):
     startup_phase: bool = True  # should not halt until at least one client
     scheduler_done: bool = False  # set by parent thread when scheduling is over
     should_signal: bool = False  # set by parent thread to signal clients
+    disconnects: int = 0  # outstanding disconnect requests to be put on queue
+    disconnect_mode: bool = False  # clients joining late are also asked to disconnect
     latest_heartbeat: Heartbeat = None
 
     state = HeartbeatState.START
@@ -530,6 +532,8 @@ class HeartMonitor(StateMachine):
                         Client.update(old_client.id, disconnected_at=None, evicted=False)
                     except Client.NotFound:
                         Client.add(new_client)
+                if self.disconnect_mode:
+                    self.disconnects += 1
             self.beats[hb.uuid] = hb
             return HeartbeatState.SWITCH
         else:
@@ -538,6 +542,8 @@ class HeartMonitor(StateMachine):
                 self.beats.pop(hb.uuid)
                 if not self.in_memory:
                     Client.update(hb.uuid, disconnected_at=datetime.now().astimezone())
+            elif self.disconnect_mode:
+                self.disconnects += 1  # Left before we knew of it using the request meant for another
             return HeartbeatState.SWITCH
 
     def switch_mode(self: HeartMonitor) -> HeartbeatState:
@@ -545,9 +551,17 @@ class HeartMonitor(StateMachine):
         if self.startup_phase:
             return HeartbeatState.NEXT
         if self.should_signal:
-            return HeartbeatState.SIGNAL
+            self.should_signal = False
+            self.disconnect_mode = True
+            self.disconnects = len(self.beats)
         if not self.beats and self.scheduler_done:
             return HeartbeatState.FINAL
+        if self.disconnects > 0:
+            return HeartbeatState.SIGNAL
+        return self.next_or_check()
+
+    def next_or_check(self: HeartMonitor) -> HeartbeatState:
+        """Decide to check on clients or get another heartbeat."""
         now = datetime.now().astimezone()
         if (now - self.last_check) > self.wait_check:
             self.last_check = now
@@ -574,11 +588,14 @@ class HeartMonitor(StateMachine):
     def signal_clients(self: HeartMonitor) -> HeartbeatState:
         """Send shutdown signal to all connected clients."""
         log.debug(f'Signaling clients ({len(self.beats)} connected)')
-        for hb in self.beats.values():
-            self.queue.scheduled.put(None)
-            log.debug(f'Disconnect requested ({hb.host}: {hb.uuid})')
-        self.should_signal = False
-        return HeartbeatState.SWITCH
+        try:
+            while self.disconnects > 0:
+                self.queue.scheduled.put(None, timeout=2)
+                self.disconnects -= 1
+                log.debug('Disconnect requested')
+        except QueueFull:
+            log.trace('Disconnect pending')
+        return self.next_or_check()
 
     @staticmethod
     def finalize() -> HeartbeatState:
-- 
2.43.0


From 050e8df1e57372232313a24ade39bbffa66e4288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:56 +0000
Subject: [PATCH 09/72] fix: link both ends of a retry in one transaction

---
 src/hypershell/data/model.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/hypershell/data/model.py b/src/hypershell/data/model.py
index a5ef391..0252bf2 100644
--- a/src/hypershell/data/model.py
+++ b/src/hypershell/data/model.py
@@ -368,9 +368,11 @@ class Task(Entity):
                                  tag=task.tag)
                          for task in failed_tasks]
             tasks.extend(new_tasks)
+            # NOTE: both ends of the chain must be part of the same transaction
+            for old_task, new_task in zip(failed_tasks, new_tasks):
+                old_task.retried = True
+                old_task.next_id = new_task.id
             cls.add_all(tasks)
-            cls.update_all([{'id': old_task.id, 'retried': True, 'next_id': new_task.id}
-                            for old_task, new_task in zip(failed_tasks, new_tasks)])
         return tasks
 
     @classmethod
-- 
2.43.0


From 1a1fc34797da80f8479d52a9a9c89b14b8bdc763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:34 +0000
Subject: [PATCH 10/72] fix: return incomplete bundle of finished tasks when
 client stops

---
 src/hypershell/client.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/hypershell/client.py b/src/hypershell/client.py
index f3406ae..0074164 100644
--- a/src/hypershell/client.py
+++ b/src/hypershell/client.py
@@ -388,7 +388,9 @@ class ClientCollector(StateMachine):
 
     def finalize(self: ClientCollector) -> CollectorState:
         """Push out any remaining tasks and halt."""
-        self.put_remote()
+        self.pack_bundle()
+        while self.put_remote() is CollectorState.PUT_REMOTE:
+            log.trace('Queue full - waiting to return final bundle')
         log.debug('Done (collector)')
         return CollectorState.HALT
 
-- 
2.43.0


From 4cbc1785a46bfa375f5ac9079bfb0ecfe01b08a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:34 +0000
Subject: [PATCH 11/72] fix: wait for free space in queue to schedule final
 bundle without database

---
 src/hypershell/submit.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/hypershell/submit.py b/src/hypershell/submit.py
index f1e88d0..0e73e24 100644
--- a/src/hypershell/submit.py
+++ b/src/hypershell/submit.py
@@ -460,7 +460,8 @@ class QueueCommitter(StateMachine):
     def finalize(self) -> QueueCommitterState:
         """Force final commit of tasks and halt."""
         self.pack_bundle()
-        self.commit()
+        while self.commit() is QueueCommitterState.COMMIT:
+            log.trace('Queue full - waiting to schedule final bundle')
         log.debug('Done (committer: no database)')
         return QueueCommitterState.HALT
 
-- 
2.43.0


From 322675bc20af031a99737569e993eb5af8ab8ffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:41 +0000
Subject: [PATCH 12/72] fix: server does not need a database configuration with
 --no-db

---
 src/hypershell/server.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/hypershell/server.py b/src/hypershell/server.py
index 8f68675..5556a55 100644
--- a/src/hypershell/server.py
+++ b/src/hypershell/server.py
@@ -1224,7 +1224,8 @@ class ServerApp(Application):
     def __enter__(self: ServerApp) -> ServerApp:
         """Ensure context and database ready."""
         self.check_args()
-        ensuredb()
+        if not self.in_memory:
+            ensuredb()
         return self
 
     def __exit__(self: ServerApp,
-- 
2.43.0


From 71b3de758d46dbac6523004d9e14cd79af033ccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:58 +0000
Subject: [PATCH 13/72] fix: submission ends with an error when tasks cannot be
 stored

---
 src/hypershell/submit.py | 32 ++++++++++++++++++++++++++------
 1 file changed, 26 insertions(+), 6 deletions(-)

diff --git a/src/hypershell/submit.py b/src/hypershell/submit.py
index 0e73e24..a1474ad 100644
--- a/src/hypershell/submit.py
+++ b/src/hypershell/submit.py
@@ -280,6 +280,26 @@ class DatabaseCommitterThread(Thread):
         super().stop(wait=wait, timeout=timeout)
 
 
+def wait_loader(loader: LoaderThread, committer: Thread) -> None:
+    """Wait on `loader` to complete unless `committer` stops early."""
+    while loader.is_alive() and committer.is_alive():
+        loader.join(timeout=1)
+    if not committer.is_alive():
+        loader.stop()
+        committer.join()
+    loader.join()
+
+
+def put_sentinel(queue: Queue[Optional[Task]], committer: Thread) -> None:
+    """Put end-of-tasks marker on `queue` so long as there is a `committer` to read it."""
+    while committer.is_alive():
+        try:
+            queue.put(None, timeout=1)
+            break
+        except QueueFull:
+            continue
+
+
 class SubmitThread(Thread):
     """
     Submit tasks to database within dedicated thread.
@@ -338,8 +358,8 @@ class SubmitThread(Thread):
         log.debug(f'Started ({self.source_name})')
         self.loader.start()
         self.committer.start()
-        self.loader.join()
-        self.queue.put(None)
+        wait_loader(self.loader, self.committer)
+        put_sentinel(self.queue, self.committer)
         self.committer.join()
         log.debug('Done')
 
@@ -357,7 +377,7 @@ class SubmitThread(Thread):
         """Stop child threads before main thread."""
         log.warning('Stopping')
         self.loader.stop(wait=wait, timeout=timeout)
-        self.queue.put(None)
+        put_sentinel(self.queue, self.committer)
         self.committer.stop(wait=wait, timeout=timeout)
         super().stop(wait=wait, timeout=timeout)
 
@@ -556,8 +576,8 @@ class LiveSubmitThread(Thread):
             self.loader.start()
             self.committer.start()
             log.trace('Waiting (loader)')
-            self.loader.join()
-            self.local.put(None)
+            wait_loader(self.loader, self.committer)
+            put_sentinel(self.local, self.committer)
             log.trace('Waiting (committer)')
             self.committer.join()
         log.debug('Done')
@@ -576,7 +596,7 @@ class LiveSubmitThread(Thread):
         """Stop child threads before main thread."""
         log.warning('Stopping')
         self.loader.stop(wait=wait, timeout=timeout)
-        self.local.put(None)
+        put_sentinel(self.local, self.committer)
         self.committer.stop(wait=wait, timeout=timeout)
         super().stop(wait=wait, timeout=timeout)
 
-- 
2.43.0


From cc3f301bb8d42c12d689649994b1c89aa88d3854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:15 +0000
Subject: [PATCH 14/72] fix: do not interrupt tasks up to half a second before
 the walltime limit

---
 src/hypershell/client.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/hypershell/client.py b/src/hypershell/client.py
index 0074164..74ec4df 100644
--- a/src/hypershell/client.py
+++ b/src/hypershell/client.py
@@ -581,10 +581,10 @@ class TaskExecutor(StateMachine):
                 self.redirect_errors.close()
             return TaskState.PUT_LOCAL
         except TimeoutExpired:
+            self.elapsed = datetime.now().astimezone() - self.task.start_time
             # Only display time elapsed to the nearest second
-            self.elapsed = timedelta(seconds=round((datetime.now().astimezone() -
-                                                    self.task.start_time).total_seconds()))
-            log.trace(f'Waiting on task ({self.task.id}: {self.elapsed})')
+            elapsed = timedelta(seconds=round(self.elapsed.total_seconds()))
+            log.trace(f'Waiting on task ({self.task.id}: {elapsed})')
             if self.stop_requested:
                 return TaskState.WAIT_SIGNAL
             else:
-- 
2.43.0


From 2adff7101f91b089aea317bf1f3cd35ee43d1f90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:26 +0000
Subject: [PATCH 15/72] fix: task arguments that look like a date are not
 converted to a timestamp

---
 src/hypershell/data/model.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/hypershell/data/model.py b/src/hypershell/data/model.py
index 0252bf2..b8a3995 100644
--- a/src/hypershell/data/model.py
+++ b/src/hypershell/data/model.py
@@ -126,7 +126,9 @@ class Entity(DeclarativeBase):
     @classmethod
     def from_json(cls: Type[Entity], data: Dict[str, JSONValue]) -> Entity:
         """Build from JSON `text` string."""
-        return cls.from_dict({key: from_json_type(value) for key, value in data.items()})
+        # NOTE: text fields can have any content and must not be mistaken for timestamps
+        return cls.from_dict({key: from_json_type(value) if cls.columns.get(key) is datetime else value
+                              for key, value in data.items()})
 
     @classmethod
     def unpack(cls: Type[Entity], data: bytes) -> Entity:
-- 
2.43.0


From fd85e4c0b90d9291f2f10bf618f4743ad30a8971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:30 +0000
Subject: [PATCH 16/72] fix: an executor that ends does not close the output
 streams of the others

---
 src/hypershell/client.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/hypershell/client.py b/src/hypershell/client.py
index 74ec4df..c8c8fdd 100644
--- a/src/hypershell/client.py
+++ b/src/hypershell/client.py
@@ -656,9 +656,10 @@ class TaskExecutor(StateMachine):
     def finalize(self: TaskExecutor) -> TaskState:
         """Push out any remaining tasks and halt."""
         log.debug(f'Done (executor-{self.id})')
-        if self.redirect_output is not sys.stdout:
+        # NOTE: streams given to us are shared with other executors and closed by their owner
+        if self.capture and self.redirect_output is not sys.stdout:
             self.redirect_output.close()
-        if self.redirect_errors is not sys.stderr:
+        if self.capture and self.redirect_errors is not sys.stderr:
             self.redirect_errors.close()
         return TaskState.HALT
 
-- 
2.43.0


From 8fa0dcb43b218937a36bd6db8f15344ffb5d56a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:30 +0000
Subject: [PATCH 17/72] fix: print the output of a task byte for byte

---
 src/hypershell/task.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/hypershell/task.py b/src/hypershell/task.py
index a8c738d..24f69bc 100644
--- a/src/hypershell/task.py
+++ b/src/hypershell/task.py
@@ -209,8 +209,11 @@ class TaskInfoApp(Application):
             raise RuntimeError(f'No {out_stream.name} for task ({self.uuid})')
         if not os.path.exists(local_path) and self.task.client_host != HOSTNAME:
             self.copy_remote_files()
-        with open(local_path, mode='r') as in_stream:
-            copyfileobj(in_stream, out_stream)
+        # NOTE: task output can be any sequence of bytes and line endings
+        with open(local_path, mode='rb') as in_stream:
+            out_stream.flush()
+            copyfileobj(in_stream, out_stream.buffer)
+            out_stream.buffer.flush()
 
     @functools.cached_property
     def format_method(self: TaskInfoApp) -> Dict[str, Callable[[dict], str]]:
-- 
2.43.0


From f008a3334913ce9dee8d4bb163b22abac8d0fdd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:44 +0000
Subject: [PATCH 18/72] fix: a task that cannot be started is recorded as
 failed instead of stopping its executor

---
 src/hypershell/client.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/hypershell/client.py b/src/hypershell/client.py
index c8c8fdd..f068971 100644
--- a/src/hypershell/client.py
+++ b/src/hypershell/client.py
@@ -547,6 +547,17 @@ class TaskExecutor(StateMachine):
             return TaskState.PUT_LOCAL
 
     def start_task(self: TaskExecutor) -> TaskState:
+        """Start current task, or mark it failed if not possible."""
+        try:
+            return self.launch_task()
+        except Exception as error:
+            log.error(f'Failed to start task ({self.task.id}): {error.__class__.__name__}: {error}')
+            self.task.completion_time = datetime.now().astimezone()
+            self.task.duration = 0
+            self.task.exit_status = -1
+            return TaskState.PUT_LOCAL
+
+    def launch_task(self: TaskExecutor) -> TaskState:
         """Start current task locally."""
         # NOTE: enforce tz aware submit_time (in case of sqlite backend)
         self.task.start_time = datetime.now().astimezone()
-- 
2.43.0


From e4502adeb9dd0cf802a4a2d1bad99867dd5c6af1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:57 +0000
Subject: [PATCH 19/72] fix: results of other tasks are stored when a record
 was deleted or changed while its task was running

---
 src/hypershell/data/model.py | 22 +++++++++++++++++++++-
 src/hypershell/server.py     |  6 ++++--
 2 files changed, 25 insertions(+), 3 deletions(-)

diff --git a/src/hypershell/data/model.py b/src/hypershell/data/model.py
index b8a3995..0cf3ab5 100644
--- a/src/hypershell/data/model.py
+++ b/src/hypershell/data/model.py
@@ -17,7 +17,7 @@ from datetime import datetime
 # external libs
 from sqlalchemy import Column, Index, func
 from sqlalchemy.orm import Query, DeclarativeBase, Mapped, mapped_column
-from sqlalchemy.orm.exc import NoResultFound, MultipleResultsFound
+from sqlalchemy.orm.exc import NoResultFound, MultipleResultsFound, StaleDataError
 from sqlalchemy.ext.declarative import declared_attr
 from sqlalchemy.types import Integer, DateTime, Text, Boolean, JSON as _JSON
 from sqlalchemy.dialects.postgresql import UUID as POSTGRES_UUID, JSONB as POSTGRES_JSON
@@ -177,6 +177,20 @@ class Entity(DeclarativeBase):
             Session.commit()  # NOTE: why is this necessary?
             log.trace(f'Updated {len(changes)} {cls.__tablename__}s')
 
+    @classmethod
+    def update_existing(cls: Type[Entity], changes: List[Dict[str, Any]]) -> None:
+        """Bulk update, skip records that no longer exist."""
+        try:
+            cls.update_all(changes)
+        except StaleDataError:
+            Session.rollback()
+            for change in changes:
+                try:
+                    cls.update_all([change, ])
+                except StaleDataError:
+                    Session.rollback()
+                    log.warning(f'Missing {cls.__tablename__} ({change["id"]})')
+
     @classmethod
     def update(cls: Type[Entity], id: str, **changes) -> None:
         """Update by `id` with `changes`."""
@@ -255,6 +269,12 @@ class Task(Entity):
         'tag': dict,
     }
 
+    # Fields assigned by the server and client in running the task
+    run_columns = (
+        'server_id', 'server_host', 'schedule_time', 'client_id', 'client_host', 'command',
+        'start_time', 'completion_time', 'exit_status', 'outpath', 'errpath', 'waited', 'duration',
+    )
+
     class NotFound(NotFound):
         pass
 
diff --git a/src/hypershell/server.py b/src/hypershell/server.py
index 5556a55..748acb4 100644
--- a/src/hypershell/server.py
+++ b/src/hypershell/server.py
@@ -301,7 +301,7 @@ class Confirm(StateMachine):
     def update_info(self: Confirm) -> ConfirmState:
         """Update client info in database for confirmed task bundle."""
         if not self.in_memory:
-            Task.update_all(self.client_info.transpose())
+            Task.update_existing(self.client_info.transpose())
         return ConfirmState.UNLOAD
 
     @staticmethod
@@ -394,7 +394,9 @@ class Receiver(StateMachine):
     def update_tasks(self: Receiver) -> ReceiverState:
         """Update tasks in database with run details."""
         if not self.in_memory:
-            Task.update_all([task.to_dict() for task in self.tasks])
+            # NOTE: records may have changed or disappeared while the task was running
+            Task.update_existing([{'id': task.id, **{name: getattr(task, name) for name in Task.run_columns}}
+                                  for task in self.tasks])
         for task in self.tasks:
             log.debug(f'Completed task ({task.id})')
             if task.exit_status != 0:
-- 
2.43.0


From 914866ccc1fd29fcc9feeaa87918abe47a976519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:56 +0000
Subject: [PATCH 20/72] fix: deleting a task while it is being scheduled does
 not stop the server

---
 src/hypershell/data/model.py |  2 +-
 src/hypershell/server.py     | 19 ++++++++++++++++---
 2 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/hypershell/data/model.py b/src/hypershell/data/model.py
index 0cf3ab5..87dabc2 100644
--- a/src/hypershell/data/model.py
+++ b/src/hypershell/data/model.py
@@ -427,7 +427,7 @@ class Task(Entity):
     @classmethod
     def revert_all(cls: Type[Task], ids: List[str]) -> None:
         """Revert all tasks identified by `ids`."""
-        cls.update_all([
+        cls.update_existing([
             {
                 'id': id,
                 'schedule_time': None,
diff --git a/src/hypershell/server.py b/src/hypershell/server.py
index 748acb4..556a1e3 100644
--- a/src/hypershell/server.py
+++ b/src/hypershell/server.py
@@ -57,6 +57,7 @@ from queue import Empty as QueueEmpty, Full as QueueFull
 # external libs
 from cmdkit.app import Application
 from cmdkit.cli import Interface, ArgumentError
+from sqlalchemy.orm.exc import StaleDataError, ObjectDeletedError
 
 # internal libs
 from hypershell.core.exceptions import get_shared_exception_mapping
@@ -67,6 +68,7 @@ from hypershell.core.thread import Thread
 from hypershell.core.queue import QueueServer, QueueConfig
 from hypershell.core.signal import check_signal, SIGNAL_MAP, SIGUSR1, SIGUSR2
 from hypershell.core.heartbeat import Heartbeat, ClientState
+from hypershell.data.core import Session
 from hypershell.data.model import Task, Client
 from hypershell.data import ensuredb, DATABASE_ENABLED
 from hypershell.submit import SubmitThread, LiveSubmitThread, DEFAULT_BUNDLEWAIT
@@ -177,7 +179,12 @@ class Scheduler(StateMachine):
             return SchedulerState.FINAL
         submitting = self.submitting  # NOTE: read before query, else we might miss the last tasks submitted
         remaining = Task.count_remaining()  # NOTE: a task that fails after this must not be missed for retry
-        self.tasks = Task.next(limit=self.bundlesize, attempts=self.attempts, eager=self.eager)
+        try:
+            self.tasks = Task.next(limit=self.bundlesize, attempts=self.attempts, eager=self.eager)
+        except StaleDataError:
+            log.warning('Selected tasks no longer exist')
+            Session.rollback()
+            return SchedulerState.LOAD
         if self.tasks:
             self.startup_phase = False
             return SchedulerState.PACK
@@ -191,8 +198,14 @@ class Scheduler(StateMachine):
 
     def pack_bundle(self: Scheduler) -> SchedulerState:
         """Pack tasks into bundle (list)."""
-        self.bundle = [task.pack() for task in self.tasks]
-        return SchedulerState.POST
+        self.bundle = []
+        for task in list(self.tasks):
+            try:
+                self.bundle.append(task.pack())
+            except ObjectDeletedError:
+                log.warning('Scheduled task no longer exists')
+                self.tasks.remove(task)
+        return SchedulerState.POST if self.bundle else SchedulerState.LOAD
 
     def post_bundle(self: Scheduler) -> SchedulerState:
         """Put bundle on outbound queue."""
-- 
2.43.0


From 55d2f81bbb8671bed7280a1271932cd6fa4ab423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:26 +0000
Subject: [PATCH 21/72] fix: every value of a tag set is validated

---
 src/hypershell/data/model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hypershell/data/model.py b/src/hypershell/data/model.py
index 87dabc2..442d27b 100644
--- a/src/hypershell/data/model.py
+++ b/src/hypershell/data/model.py
@@ -317,10 +317,10 @@ class Task(Entity):
                 raise TypeError(f'Invalid type for tag value, {type(value)})')
             if isinstance(value, str):
                 if not value.strip():
-                    return  # Empty value is a naked tag (no value).
+                    continue  # Empty value is a naked tag (no value).
                 if len(value) > 120:
                     raise ValueError(f'Tag size ({len(value)}) exceeds 120 characters ({key}: {value})')
-                if not re.match(r'^[A-Za-z0-9_.+-]+$', value):
+                if not re.fullmatch(r'[A-Za-z0-9_.+-]+', value):
                     raise ValueError(f'Tag must only contain alphanumerics and basic symbols [+._-]: '
                                      f'({key}: {value})')
 
-- 
2.43.0


From 14d06fc936e77e742481c594c0c608f3b3c1081e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:26 +0000
Subject: [PATCH 22/72] fix: conditions with >= and <= are not read as > and <

---
 src/hypershell/task.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hypershell/task.py b/src/hypershell/task.py
index 24f69bc..cd9eb4a 100644
--- a/src/hypershell/task.py
+++ b/src/hypershell/task.py
@@ -1060,7 +1060,7 @@ class WhereClause:
     value: Any
     operand: str
 
-    pattern = re.compile(r'^([a-z_]+)\s*(==|!=|>|>=|<|<=|~)\s*(.*)$')
+    pattern = re.compile(r'^([a-z_]+)\s*(==|!=|>=|>|<=|<|~)\s*(.*)$')
     op_call = {
         '==': lambda lhs, rhs: lhs == rhs,
         '!=': lambda lhs, rhs: lhs != rhs,
-- 
2.43.0


From 2fdb0800795ac42efd926e915be7d3a5a97d38f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:40 +0000
Subject: [PATCH 23/72] fix: search for several tags, and for null, boolean and
 float tag values

---
 src/hypershell/task.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/hypershell/task.py b/src/hypershell/task.py
index cd9eb4a..d422b96 100644
--- a/src/hypershell/task.py
+++ b/src/hypershell/task.py
@@ -435,12 +435,19 @@ class SearchableMixin:
             if config.database.provider == 'sqlite':
                 # NOTE: sqlalchemy adds `json_quote(json_extract(task.tag, ?)) is not null`
                 # and cannot find a way to exclude `json_quote`, so we do it ourselves
-                query = query.filter(text('json_extract(task.tag, :key) is not null')).params(key=f'$."{name}"')
+                query = query.filter(func.json_type(Task.tag, f'$."{name}"').isnot(None))
             else:
                 query = query.filter(Task.tag[name].isnot(None))
         for name, value in tags_with_value.items():
-            if config.database.provider == 'sqlite' and value in (True, False):
-                value = int(value)  # NOTE: SQLite stores as 0/1 not JSON true/false :(
+            if config.database.provider == 'sqlite':
+                # NOTE: SQLite extracts true/false as 1/0, null as if missing, and re-formats floats
+                json_type = func.json_type(Task.tag, f'$."{name}"')
+                if value is None or isinstance(value, bool):
+                    query = query.filter(json_type == json.dumps(value))
+                else:
+                    query = query.filter(json_type.in_(['text'] if isinstance(value, str) else ['integer', 'real']),
+                                         func.json_extract(Task.tag, f'$."{name}"') == value)
+                continue
             query = query.filter(Task.tag[name] == type_coerce(value, JSON))
         return query
 
-- 
2.43.0


From 409338f2541539661dd56ecd662fa04fcfdf55a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:40 +0000
Subject: [PATCH 24/72] fix: task update applies all changes to the same
 selection

---
 src/hypershell/task.py | 101 ++++++++++++++---------------------------
 1 file changed, 33 insertions(+), 68 deletions(-)

diff --git a/src/hypershell/task.py b/src/hypershell/task.py
index d422b96..f7b403c 100644
--- a/src/hypershell/task.py
+++ b/src/hypershell/task.py
@@ -16,7 +16,6 @@ import csv
 import json
 import time
 import functools
-import itertools
 from datetime import timedelta, datetime
 from dataclasses import dataclass
 from shutil import copyfileobj
@@ -32,7 +31,7 @@ from sqlalchemy import Column, type_coerce, JSON, text, func, distinct
 from sqlalchemy.exc import StatementError
 from sqlalchemy.orm import Query
 from sqlalchemy.orm.exc import StaleDataError
-from sqlalchemy.sql.elements import BinaryExpression
+from sqlalchemy.sql.elements import BinaryExpression, TextClause
 
 # internal libs
 from hypershell.core.platform import default_path
@@ -870,6 +869,11 @@ class TaskUpdateApp(Application, SearchableMixin):
                 print(f'Stopping (invalid response: "{response}")')
                 return
 
+        if self.limit is not None:
+            # We cannot apply an UPDATE or DELETE query with a LIMIT
+            # The alternative is to select by the ID of those within the limit
+            query = Task.query().filter(Task.id.in_(query.with_entities(Task.id)))
+
         if self.delete_mode:
             query.delete()
             Session.commit()
@@ -877,10 +881,7 @@ class TaskUpdateApp(Application, SearchableMixin):
             return
 
         if self.cancel_mode:
-            if self.limit:
-                prev_count = sum([1 for task in query if task.schedule_time is not None])
-            else:
-                prev_count = query.filter(Task.schedule_time.isnot(None)).count()
+            prev_count = query.filter(Task.schedule_time.isnot(None)).count()
             if prev_count > 0:
                 log.warning(f'{prev_count} cancelled tasks already scheduled')
             field_updates['schedule_time'] = datetime.now().astimezone()
@@ -901,67 +902,14 @@ class TaskUpdateApp(Application, SearchableMixin):
             field_updates['waited'] = None
             field_updates['duration'] = None
 
-        if self.limit is not None:
-            # We cannot apply an UPDATE query with a LIMIT field
-            # The alternative is to pull the data and batch the update
-            # While terribly inefficient at least it has a LIMIT
-            if field_updates:
-                tasks = query.all()
-                tasks_it = iter(tasks)
-                while batch := tuple(itertools.islice(tasks_it, 100)):
-                    Task.update_all([{'id': task.id, **field_updates} for task in batch])
-            if tag_updates:
-                tasks = query.all()
-                tasks_it = iter(tasks)
-                while batch := tuple(itertools.islice(tasks_it, 100)):
-                    Task.update_all([{'id': task.id, 'tag': {**task.tag, **tag_updates}} for task in batch])
-            if self.remove_tag:
-                tasks = query.all()
-                tasks_it = iter(tasks)
-                while batch := tuple(itertools.islice(tasks_it, 100)):
-                    Task.update_all([
-                        {'id': task.id, 'tag': self.drop_items(task.tag, *self.remove_tag)}
-                        for task in batch
-                    ])
-            log.info(f'Updated {count} tasks')
-            return
+        # NOTE: everything is changed by a single statement, otherwise the changes made
+        # by the first could alter which of the tasks are matched by the next
+        if tag_updates or self.remove_tag:
+            field_updates['tag'] = self.build_tag_update(tag_updates, self.remove_tag or [])
 
         if field_updates:
             query.update(field_updates)
 
-        if tag_updates:
-            if config.database.provider == 'sqlite':
-                tag_changes = {}
-                change_expr = 'json_set(task.tag'
-                for i, (k, v) in enumerate(tag_updates.items()):
-                    tag_changes[f'k{i}'] = f'$.{k}'
-                    tag_changes[f'v{i}'] = v
-                    change_expr += f', :k{i}, :v{i}'
-                change_expr += ')'
-                query.update({Task.tag: text(change_expr).params(tag_changes)})
-            else:
-                # We cannot stack inserts with Postgres
-                # Instead we do them with individual update queries
-                for i, (k, v) in enumerate(tag_updates.items()):
-                    change_expr = 'jsonb_set(task.tag, :key, :value)'
-                    params = {'key': '{' + k + '}', 'value': json.dumps(to_json_type(v))}
-                    query.update({Task.tag: text(change_expr).params(**params)})
-
-        if self.remove_tag:
-            if config.database.provider == 'sqlite':
-                tag_changes = {}
-                change_expr = 'json_remove(task.tag'
-                for i, name in enumerate(self.remove_tag):
-                    tag_changes[f'k{i}'] = f'$.{name}'
-                    change_expr += f', :k{i}'
-                change_expr += ')'
-                query.update({Task.tag: text(change_expr).params(tag_changes)})
-            else:
-                # We cannot stack subtractions with Postgres
-                # Instead we do them with individual update queries
-                for name in self.remove_tag:
-                    query.update({Task.tag: text('task.tag - :name').params(name=name)})
-
         Session.commit()
         log.info(f'Updated {count} tasks')
 
@@ -979,6 +927,8 @@ class TaskUpdateApp(Application, SearchableMixin):
                     raise ArgumentError(f'Cannot alter task "id" (given: {field}={value})')
                 if field not in Task.columns:
                     raise ArgumentError(f'Unrecognized task field "{field}"')
+                if field == 'tag':
+                    raise ArgumentError(f'Tags are set with KEY:VALUE (given: {field}={value})')
                 if Task.columns.get(field) is str:
                     # We want to coerce the value (e.g., as an int or None)
                     # But also allow for, e.g., args==1 which expects type str.
@@ -1003,11 +953,26 @@ class TaskUpdateApp(Application, SearchableMixin):
         return field_updates, tag_updates
 
     @staticmethod
-    def drop_items(d: dict, *keys: str) -> dict:
-        """Drop items by key if they exist."""
-        for key in keys:
-            d.pop(key, None)
-        return d
+    def build_tag_update(tag_updates: Dict[str, Any], remove_tag: List[str]) -> TextClause:
+        """Build SQL expression for all tag changes and removals."""
+        params = {}
+        change_expr = 'task.tag'
+        for i, (k, v) in enumerate(tag_updates.items()):
+            params[f'v{i}'] = json.dumps(to_json_type(v))
+            if config.database.provider == 'sqlite':
+                params[f'k{i}'] = f'$."{k}"'
+                change_expr = f'json_set({change_expr}, :k{i}, json(:v{i}))'
+            else:
+                params[f'k{i}'] = '{"' + k + '"}'
+                change_expr = f'jsonb_set({change_expr}, :k{i}, :v{i})'
+        for i, name in enumerate(remove_tag):
+            if config.database.provider == 'sqlite':
+                params[f'r{i}'] = f'$."{name}"'
+                change_expr = f'json_remove({change_expr}, :r{i})'
+            else:
+                params[f'r{i}'] = name
+                change_expr = f'({change_expr} - :r{i})'
+        return text(change_expr).params(**params)
 
 
 TASK_PROGRAM = 'hs task'
-- 
2.43.0


From 5c95c1067e06cba73a5079964a24f71e3ee59356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:49 +0000
Subject: [PATCH 25/72] fix: text is listed as it is stored

---
 src/hypershell/task.py | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/src/hypershell/task.py b/src/hypershell/task.py
index f7b403c..f4278de 100644
--- a/src/hypershell/task.py
+++ b/src/hypershell/task.py
@@ -23,6 +23,7 @@ from shutil import copyfileobj
 # external libs
 import yaml
 from rich.console import Console
+from rich.markup import escape
 from rich.syntax import Syntax
 from rich.table import Table
 from cmdkit.app import Application, ApplicationGroup, exit_status
@@ -178,9 +179,9 @@ class TaskInfoApp(Application):
     def print_field(self: TaskInfoApp) -> None:
         """Print single field."""
         if self.extract_field != 'tag':
-            print(json.dumps(self.task.to_json().get(self.extract_field)).strip('"'))
+            print(format_value(getattr(self.task, self.extract_field)))
         elif self.output_format == 'normal':
-            print(', '.join(f'{k}:{v}' if v else k for k, v in self.task.tag.items()))
+            print(', '.join(format_tag(k, v) for k, v in self.task.tag.items()))
         else:
             formatter = self.format_method[self.output_format]
             output = formatter(self.task.tag)
@@ -649,7 +650,7 @@ class TaskSearchApp(Application, SearchableMixin):
         for name in self.field_names:
             table.add_column(name)
         for record in results:
-            table.add_row(*[json.dumps(to_json_type(value)).strip('"') for value in record])
+            table.add_row(*[escape(format_line(value)) for value in record])
         Console().print(table)
 
     @staticmethod
@@ -662,7 +663,7 @@ class TaskSearchApp(Application, SearchableMixin):
     def print_plain(self: TaskSearchApp, results: List[Tuple]) -> None:
         """Print plain text output with given field names, one task per line."""
         for record in results:
-            data = [json.dumps(to_json_type(value)).strip('"') for value in record]
+            data = [format_line(value) for value in record]
             print(self.output_delimiter.join(map(str, data)))
 
     def print_json(self: TaskSearchApp, results: List[Tuple]) -> None:
@@ -1101,9 +1102,9 @@ class Tag:
 
 def print_normal(task: Task) -> None:
     """Print semi-structured task metadata with all field names."""
-    task_data = {k: json.dumps(to_json_type(v)).strip('"') for k, v in task.to_dict().items()}
-    task_data['waited'] = 'null' if not task.waited else timedelta(seconds=int(task_data['waited']))
-    task_data['duration'] = 'null' if not task.duration else timedelta(seconds=int(task_data['duration']))
+    task_data = {k: format_line(v) for k, v in task.to_dict().items()}
+    task_data['waited'] = 'null' if task.waited is None else timedelta(seconds=int(task_data['waited']))
+    task_data['duration'] = 'null' if task.duration is None else timedelta(seconds=int(task_data['duration']))
     task_data['tag'] = ', '.join(format_tag(k, v) for k, v in task.tag.items())
     print(f'          id: {task_data["id"]}')
     print(f'        args: {task_data["args"]}')
@@ -1125,6 +1126,17 @@ def print_normal(task: Task) -> None:
     print(f'        tags: {task_data["tag"]}')
 
 
+def format_value(value: Any) -> str:
+    """Format as plain text (strings as they are, otherwise as in JSON)."""
+    value = to_json_type(value)
+    return value if isinstance(value, str) else json.dumps(value)
+
+
+def format_line(value: Any) -> str:
+    """Format as plain text on a single line, tabs and line breaks are escaped."""
+    return re.sub(r'[\x00-\x1f]', lambda match: json.dumps(match.group())[1:-1], format_value(value))
+
+
 def format_tag(key: str, value: JSONValue) -> str:
     """Format as `key` or `key:value` if not empty string."""
     if isinstance(value, str) and not value:
-- 
2.43.0


From 8d3bd6d0c5d6e863a8834218fe06de356feab2a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:32 +0000
Subject: [PATCH 26/72] fix: config which fails with non-zero exit status on
 unknown option

---
 src/hypershell/config.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/hypershell/config.py b/src/hypershell/config.py
index 2300b93..a9c9492 100644
--- a/src/hypershell/config.py
+++ b/src/hypershell/config.py
@@ -356,9 +356,8 @@ class ConfigWhichApp(Application):
         """Business logic for `config which`."""
         try:
             site = full_config.which(*self.varpath.split('.'))
-        except KeyError:
-            log.critical(f'"{self.varpath}" not found')
-            return
+        except (KeyError, TypeError) as error:
+            raise ConfigurationError(f'"{self.varpath}" not found') from error
         if self.site_only:
             print(site)
             return
-- 
2.43.0


From e5da40c61a4e721042625fa858c59a040cb79d63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:32 +0000
Subject: [PATCH 27/72] fix: config which on options set by the logging style

---
 src/hypershell/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hypershell/config.py b/src/hypershell/config.py
index a9c9492..67f807a 100644
--- a/src/hypershell/config.py
+++ b/src/hypershell/config.py
@@ -381,7 +381,7 @@ class ConfigWhichApp(Application):
             value = '[...]'
         if '[' in default_value:
             default_value = '[...]'
-        if site in ('default', 'logging', ):
+        if site in ('default', 'preload', ):
             print(f'{value} ({site})')
         elif site == 'env':
             env_varname = 'HYPERSHELL_' + self.varpath.upper().replace('.', '_')
-- 
2.43.0


From c8ea0c3e56fd82a0a6de61189fed73287dd09936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:32 +0000
Subject: [PATCH 28/72] fix: config get prints text as it is

---
 src/hypershell/config.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/hypershell/config.py b/src/hypershell/config.py
index 67f807a..3ab8494 100644
--- a/src/hypershell/config.py
+++ b/src/hypershell/config.py
@@ -218,15 +218,16 @@ class ConfigGetApp(Application):
 
     def print_output(self: ConfigGetApp, value: Any) -> None:
         """Format and print final `value`."""
-        value = self.format_output(value)
+        # NOTE: JSON formatting puts quotations and escapes - we don't want these on raw output
+        if not isinstance(value, str) or (sys.stdout.isatty() and not self.raw_mode):
+            value = self.format_output(value)
         if sys.stdout.isatty() and not self.raw_mode:
             output = Syntax(value, 'toml', word_wrap=True,
                             theme = full_config.console.theme,
                             background_color = 'default')
             Console().print(output)
         else:
-            # NOTE: JSON formatting puts quotations - we don't want these on raw output
-            print(value.strip('"'), file=sys.stdout, flush=True)
+            print(value, file=sys.stdout, flush=True)
 
     def format_output(self: ConfigGetApp, value: Any) -> str:
         """Format `value` as appropriate text."""
-- 
2.43.0


From 3340e6d934a5de405ec589ee05ee93f8be7a5cdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:32 +0000
Subject: [PATCH 29/72] fix: configuration backups made within one second do
 not overwrite each other

---
 src/hypershell/core/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hypershell/core/config.py b/src/hypershell/core/config.py
index 8e5f855..4ebf0d9 100644
--- a/src/hypershell/core/config.py
+++ b/src/hypershell/core/config.py
@@ -299,7 +299,7 @@ def update(scope: str, partial: dict) -> None:
     config_path = path[scope].config
     os.makedirs(os.path.dirname(config_path), exist_ok=True)
     if os.path.exists(config_path):
-        timestamp = datetime.now().strftime('%Y%m%d-%H%M%S')
+        timestamp = datetime.now().strftime('%Y%m%d-%H%M%S-%f')
         config_backup_path = os.path.join(os.path.dirname(config_path), f'.config.{timestamp}.toml')
         shutil.copy(config_path, config_backup_path)
         shutil.copystat(config_path, config_backup_path)
-- 
2.43.0


From 73b22e24657aceacb2558feb0f8c21c056abd772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:33 +0000
Subject: [PATCH 30/72] fix: config get of the whole configuration failing on
 nested sections

---
 src/hypershell/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hypershell/config.py b/src/hypershell/config.py
index 3ab8494..1f4bf50 100644
--- a/src/hypershell/config.py
+++ b/src/hypershell/config.py
@@ -240,7 +240,7 @@ class ConfigGetApp(Application):
     def format_section(self: ConfigGetApp, value: dict) -> str:
         """Format an entire section for output."""
         if self.varpath == '.':
-            value = toml.dumps(value)
+            value = toml.dumps(dict(value))  # NOTE: a Namespace holds copies that the encoder mistakes for circular references
         else:
             value = toml.dumps({self.varpath: value})
         # NOTE: Fix weird formatting of section headings.
-- 
2.43.0


From 49ff87f35b12ac78a8de1eae28c6963b0e1ede4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:29 +0000
Subject: [PATCH 31/72] fix: config set corrupting dotted keys and dropping
 comments of separated sections

---
 src/hypershell/core/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hypershell/core/config.py b/src/hypershell/core/config.py
index 4ebf0d9..dd27e3c 100644
--- a/src/hypershell/core/config.py
+++ b/src/hypershell/core/config.py
@@ -322,7 +322,7 @@ def _inplace_update(original: dict, partial: dict) -> dict:
     """
     for key, value in partial.items():
         if isinstance(value, dict) and isinstance(original.get(key), dict):
-            original[key] = _inplace_update(original.get(key, {}), value)
+            _inplace_update(original[key], value)  # NOTE: re-assigning would have tomlkit move or corrupt the table
         else:
             original[key] = value
     return original
-- 
2.43.0


From 5d8ecf33883740effc116b63ca8d0c76b7e266d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:08 +0000
Subject: [PATCH 32/72] fix: cancelled tasks are neither retried, reverted at
 restart nor waited for

---
 src/hypershell/data/model.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/hypershell/data/model.py b/src/hypershell/data/model.py
index 442d27b..6b938a2 100644
--- a/src/hypershell/data/model.py
+++ b/src/hypershell/data/model.py
@@ -337,6 +337,7 @@ class Task(Entity):
         """Select failed tasks for retry up to some `limit` under given number of `attempts`."""
         return (cls.query()
                 .order_by(cls.completion_time)
+                .filter(cls.completion_time.isnot(None))  # NOTE: cancelled tasks have only an exit status
                 .filter(cls.exit_status.isnot(None))
                 .filter(cls.exit_status != 0)
                 .filter(cls.attempt < attempts)
@@ -400,7 +401,7 @@ class Task(Entity):
     @classmethod
     def count_remaining(cls: Type[Task]) -> int:
         """Count of remaining unfinished tasks."""
-        return cls.query().filter(cls.completion_time.is_(None)).count()
+        return cls.query().filter(cls.completion_time.is_(None)).filter(cls.exit_status.is_(None)).count()
 
     @classmethod
     def count_interrupted(cls: Type[Task]) -> int:
@@ -409,6 +410,7 @@ class Task(Entity):
             cls.query()
             .filter(cls.schedule_time.isnot(None))
             .filter(cls.completion_time.is_(None))
+            .filter(cls.exit_status.is_(None))
             .count()
         )
 
@@ -420,6 +422,7 @@ class Task(Entity):
             .order_by(cls.schedule_time)
             .filter(cls.schedule_time.isnot(None))
             .filter(cls.completion_time.is_(None))
+            .filter(cls.exit_status.is_(None))
             .limit(limit)
             .all()
         )
@@ -487,6 +490,7 @@ class Task(Entity):
             .order_by(cls.schedule_time)
             .filter(cls.schedule_time.isnot(None))
             .filter(cls.completion_time.is_(None))
+            .filter(cls.exit_status.is_(None))
             .filter(cls.client_id == client_id)
             .limit(limit)
             .all()
-- 
2.43.0


From 0386df13259636daa45015fabe84fa8ce9b25b4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:08 +0000
Subject: [PATCH 33/72] fix: a task cancelled while it is being scheduled does
 not run

---
 src/hypershell/server.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/hypershell/server.py b/src/hypershell/server.py
index 556a1e3..268aeb0 100644
--- a/src/hypershell/server.py
+++ b/src/hypershell/server.py
@@ -201,7 +201,11 @@ class Scheduler(StateMachine):
         self.bundle = []
         for task in list(self.tasks):
             try:
-                self.bundle.append(task.pack())
+                if task.exit_status is not None:
+                    log.warning(f'Scheduled task was cancelled ({task.id})')
+                    self.tasks.remove(task)
+                else:
+                    self.bundle.append(task.pack())
             except ObjectDeletedError:
                 log.warning('Scheduled task no longer exists')
                 self.tasks.remove(task)
-- 
2.43.0


From 2d9ce34cad2d76c34c296afc2dab238c6c2f61e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:09 +0000
Subject: [PATCH 34/72] fix: server finishes although its tasks were all
 cancelled or deleted

---
 src/hypershell/server.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/hypershell/server.py b/src/hypershell/server.py
index 268aeb0..c12a987 100644
--- a/src/hypershell/server.py
+++ b/src/hypershell/server.py
@@ -161,6 +161,8 @@ class Scheduler(StateMachine):
             log.info('Scheduler will run forever')
         task_count = Task.count()
         tasks_remaining = Task.count_remaining()
+        if task_count == 0:
+            self.startup_phase = True  # An empty database must wait for at least one task
         if task_count > 0:
             log.warning(f'Database exists ({task_count} previous tasks)')
             if tasks_remaining == 0:
@@ -188,9 +190,7 @@ class Scheduler(StateMachine):
         if self.tasks:
             self.startup_phase = False
             return SchedulerState.PACK
-        # An empty database must wait for at least one task
-        elif (not self.forever_mode and not submitting and not self.startup_phase
-              and remaining == 0 and Task.count() > 0):
+        elif not self.forever_mode and not submitting and not self.startup_phase and remaining == 0:
             return SchedulerState.FINAL
         else:
             time.sleep(DEFAULT_QUERY_PAUSE)
@@ -250,8 +250,10 @@ class SchedulerThread(Thread):
         self.machine.halt()
         super().stop(wait=wait, timeout=timeout)
 
-    def signal_submitting(self: SchedulerThread, submitting: bool) -> None:
+    def signal_submitting(self: SchedulerThread, submitting: bool, submitted: int = 0) -> None:
         """Set flag to tell scheduler whether tasks are still being submitted."""
+        if submitted > 0:
+            self.machine.startup_phase = False  # NOTE: even if all have been cancelled or deleted since
         self.machine.submitting = submitting
 
 
@@ -806,7 +808,7 @@ class ServerThread(Thread):
             log.trace('Waiting (submitter)')
             self.submitter.join()
             if self.scheduler is not None:
-                self.scheduler.signal_submitting(False)
+                self.scheduler.signal_submitting(False, submitted=self.submitter.task_count)
 
     def wait_scheduler(self: ServerThread) -> None:
         """Wait scheduling until complete."""
-- 
2.43.0


From 6211dcca45c962183af5c79257c6739c193530de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:40 +0000
Subject: [PATCH 35/72] fix: a completed task is not reverted when its client
 is evicted

---
 src/hypershell/data/model.py | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/src/hypershell/data/model.py b/src/hypershell/data/model.py
index 6b938a2..de88536 100644
--- a/src/hypershell/data/model.py
+++ b/src/hypershell/data/model.py
@@ -500,7 +500,30 @@ class Task(Entity):
     def revert_orphaned(cls: Type[Task], client_id: str) -> None:
         """Revert orphaned tasks from an evicted client to un-scheduled state."""
         while tasks := cls.select_orphaned(client_id, 100):
-            cls.revert_all([task.id for task in tasks])
+            # NOTE: results may still arrive in the meantime (falsely-evicted client)
+            (
+                cls.query()
+                .filter(cls.id.in_([task.id for task in tasks]))
+                .filter(cls.completion_time.is_(None))
+                .filter(cls.exit_status.is_(None))
+                .filter(cls.client_id == client_id)
+                .update({
+                    'schedule_time': None,
+                    'server_host': None,
+                    'server_id': None,
+                    'client_host': None,
+                    'client_id': None,
+                    'command': None,
+                    'start_time': None,
+                    'outpath': None,
+                    'errpath': None,
+                    'waited': None,
+                    'duration': None,
+                }, synchronize_session=False)
+            )
+            Session.commit()
+            for task in tasks:
+                log.trace(f'Reverted orphaned task ({task.id})')
 
     @classmethod
     def latest_server(cls: Type[Client]) -> Optional[str]:
-- 
2.43.0


From cabaedf83fc64c420bafac925b111cfb60b0aa64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:40 +0000
Subject: [PATCH 36/72] fix: clients are evicted by the clock of the server

---
 src/hypershell/server.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/hypershell/server.py b/src/hypershell/server.py
index c12a987..aa39b08 100644
--- a/src/hypershell/server.py
+++ b/src/hypershell/server.py
@@ -532,6 +532,7 @@ class HeartMonitor(StateMachine):
                 return HeartbeatState.FINAL
             else:
                 self.latest_heartbeat = Heartbeat.unpack(hb_data)
+                self.latest_heartbeat.time = datetime.now().astimezone()  # NOTE: client clock may differ from ours
                 return HeartbeatState.UPDATE
         except QueueEmpty:
             return HeartbeatState.SWITCH
-- 
2.43.0


From 29c6943bfee1b88f27af2b4c8d45d23b9bd82b0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:40 +0000
Subject: [PATCH 37/72] fix: do not evict clients whose heartbeats are still
 pending

---
 src/hypershell/server.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/hypershell/server.py b/src/hypershell/server.py
index aa39b08..91e3362 100644
--- a/src/hypershell/server.py
+++ b/src/hypershell/server.py
@@ -585,7 +585,9 @@ class HeartMonitor(StateMachine):
     def next_or_check(self: HeartMonitor) -> HeartbeatState:
         """Decide to check on clients or get another heartbeat."""
         now = datetime.now().astimezone()
-        if (now - self.last_check) > self.wait_check:
+        if not self.queue.heartbeat.empty():
+            return HeartbeatState.NEXT  # Do not judge clients with heartbeats still pending
+        elif (now - self.last_check) > self.wait_check:
             self.last_check = now
             return HeartbeatState.CHECK
         else:
-- 
2.43.0


From a36d5970704c22dc5af6652f2d960138105fc4ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:20 +0000
Subject: [PATCH 38/72] fix: --eager of server and cluster reaches the
 scheduler

---
 src/hypershell/cluster/__init__.py | 1 +
 src/hypershell/server.py           | 2 +-
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/hypershell/cluster/__init__.py b/src/hypershell/cluster/__init__.py
index 6ea63b2..a4bc6f5 100644
--- a/src/hypershell/cluster/__init__.py
+++ b/src/hypershell/cluster/__init__.py
@@ -212,6 +212,7 @@ class ClusterApp(Application):
         launcher = self.launchers.get(self.mode)
         launcher(source=self.source, num_tasks=self.num_tasks, template=self.template,
                  bundlesize=self.bundlesize, bundlewait=self.bundlewait, max_retries=self.max_retries,
+                 eager=self.eager_mode,
                  in_memory=self.in_memory, no_confirm=self.no_confirm, forever_mode=self.forever_mode,
                  restart_mode=self.restart_mode, redirect_failures=self.failure_stream,
                  delay_start=self.delay_start, capture=self.capture,
diff --git a/src/hypershell/server.py b/src/hypershell/server.py
index 91e3362..75b1188 100644
--- a/src/hypershell/server.py
+++ b/src/hypershell/server.py
@@ -1152,7 +1152,7 @@ class ServerApp(Application):
     eager_mode: bool = config.server.eager
     max_retries: int = config.server.attempts - 1
     interface.add_argument('-r', '--max-retries', type=int, default=max_retries)
-    interface.add_argument('--eager', action='store_true')
+    interface.add_argument('--eager', action='store_true', default=eager_mode, dest='eager_mode')
 
     forever_mode: bool = False
     interface.add_argument('--forever', action='store_true', dest='forever_mode')
-- 
2.43.0


From e08810287c78fab0b709b4a0dcb3d095b1e8aeee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:20 +0000
Subject: [PATCH 39/72] fix: retries are not scheduled twice in eager mode

---
 src/hypershell/data/model.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/hypershell/data/model.py b/src/hypershell/data/model.py
index de88536..aa9515f 100644
--- a/src/hypershell/data/model.py
+++ b/src/hypershell/data/model.py
@@ -363,7 +363,8 @@ class Task(Entity):
         """Select next batch of tasks from database preferring previously failed tasks."""
         tasks = cls.__schedule_next_failed_tasks(attempts, limit)
         if len(tasks) < limit:
-            new_tasks = cls.select_new(limit=limit - len(tasks))
+            # NOTE: the retries just added are themselves not yet scheduled
+            new_tasks = [task for task in cls.select_new(limit=limit) if task not in tasks][:limit - len(tasks)]
             tasks.extend(new_tasks)
             log.trace(f'Selected {len(new_tasks)} new tasks')
         return tasks
-- 
2.43.0


From 83ffe8983a13439c29e79adc235895b249dad0f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:20 +0000
Subject: [PATCH 40/72] fix: flush buffered tasks after the bundle wait also
 when nothing follows

---
 src/hypershell/submit.py | 32 ++++++++++++++++++++------------
 1 file changed, 20 insertions(+), 12 deletions(-)

diff --git a/src/hypershell/submit.py b/src/hypershell/submit.py
index a1474ad..aa7db79 100644
--- a/src/hypershell/submit.py
+++ b/src/hypershell/submit.py
@@ -231,17 +231,21 @@ class DatabaseCommitter(StateMachine):
         try:
             task = self.queue.get(timeout=1)
         except QueueEmpty:
-            return DatabaseCommitterState.GET
+            return self.check_bundle()
         if task is not None:
             self.tasks.append(task)
-            since_last = (datetime.now() - self.previous_submit).total_seconds()
-            if len(self.tasks) >= self.bundlesize or since_last >= self.bundlewait:
-                return DatabaseCommitterState.COMMIT
-            else:
-                return DatabaseCommitterState.GET
+            return self.check_bundle()
         else:
             return DatabaseCommitterState.FINAL
 
+    def check_bundle(self: DatabaseCommitter) -> DatabaseCommitterState:
+        """Proceed if enough tasks are waiting or they have waited long enough."""
+        since_last = (datetime.now() - self.previous_submit).total_seconds()
+        if self.tasks and (len(self.tasks) >= self.bundlesize or since_last >= self.bundlewait):
+            return DatabaseCommitterState.COMMIT
+        else:
+            return DatabaseCommitterState.GET
+
     def commit(self: DatabaseCommitter) -> DatabaseCommitterState:
         """Commit tasks to database."""
         if self.tasks:
@@ -444,17 +448,21 @@ class QueueCommitter(StateMachine):
         try:
             task = self.local.get(timeout=1)
         except QueueEmpty:
-            return QueueCommitterState.GET
+            return self.check_bundle()
         if task is not None:
             self.tasks.append(task)
-            since_last = (datetime.now() - self.previous_submit).total_seconds()
-            if len(self.tasks) >= self.bundlesize or since_last >= self.bundlewait:
-                return QueueCommitterState.PACK
-            else:
-                return QueueCommitterState.GET
+            return self.check_bundle()
         else:
             return QueueCommitterState.FINAL
 
+    def check_bundle(self: QueueCommitter) -> QueueCommitterState:
+        """Proceed if enough tasks are waiting or they have waited long enough."""
+        since_last = (datetime.now() - self.previous_submit).total_seconds()
+        if self.tasks and (len(self.tasks) >= self.bundlesize or since_last >= self.bundlewait):
+            return QueueCommitterState.PACK
+        else:
+            return QueueCommitterState.GET
+
     def pack_bundle(self: QueueCommitter) -> QueueCommitterState:
         """Pack tasks into bundle for remote queue."""
         if self.tasks:
-- 
2.43.0


From e1b311f66db853b5292310bccd675cdf27161ea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:20 +0000
Subject: [PATCH 41/72] fix: client uses its own bundle settings

---
 src/hypershell/client.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hypershell/client.py b/src/hypershell/client.py
index f068971..c8ebef6 100644
--- a/src/hypershell/client.py
+++ b/src/hypershell/client.py
@@ -1177,10 +1177,10 @@ class ClientApp(Application):
     template: str = DEFAULT_TEMPLATE
     interface.add_argument('-t', '--template', default=template)
 
-    bundlesize: int = config.submit.bundlesize
+    bundlesize: int = config.client.bundlesize
     interface.add_argument('-b', '--bundlesize', type=int, default=bundlesize)
 
-    bundlewait: int = config.submit.bundlewait
+    bundlewait: int = config.client.bundlewait
     interface.add_argument('-w', '--bundlewait', type=int, default=bundlewait)
 
     delay_start: float = DEFAULT_DELAY
-- 
2.43.0


From 8788c993117d5a44c9cfbc9227953188846777f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:20 +0000
Subject: [PATCH 42/72] fix: reject --forever with --no-db for the server

---
 src/hypershell/server.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/hypershell/server.py b/src/hypershell/server.py
index 75b1188..d68c501 100644
--- a/src/hypershell/server.py
+++ b/src/hypershell/server.py
@@ -1226,6 +1226,8 @@ class ServerApp(Application):
             self.filepath = '-'  # NOTE: assume STDIN
         if self.restart_mode and self.forever_mode:
             raise ArgumentError('Using --forever with --restart is invalid')
+        if self.in_memory and self.forever_mode:
+            raise ArgumentError('Using --forever with --no-db is invalid')
 
     @cached_property
     def input_stream(self: ServerApp) -> Optional[IO]:
-- 
2.43.0


From 72f78ff4a187b803a3666c20833a34381682ae4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:21 +0000
Subject: [PATCH 43/72] fix: honour polling interval of the configuration

---
 src/hypershell/server.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hypershell/server.py b/src/hypershell/server.py
index d68c501..33cc750 100644
--- a/src/hypershell/server.py
+++ b/src/hypershell/server.py
@@ -193,7 +193,7 @@ class Scheduler(StateMachine):
         elif not self.forever_mode and not submitting and not self.startup_phase and remaining == 0:
             return SchedulerState.FINAL
         else:
-            time.sleep(DEFAULT_QUERY_PAUSE)
+            time.sleep(config.server.wait)
             return SchedulerState.LOAD
 
     def pack_bundle(self: Scheduler) -> SchedulerState:
-- 
2.43.0


From 0751a0a11e8d2161400a2835be1dac8478e7d6e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:55 +0000
Subject: [PATCH 44/72] fix: database given by file_env or file_eval is a
 database

---
 src/hypershell/data/__init__.py | 3 +--
 src/hypershell/data/core.py     | 3 ++-
 src/hypershell/submit.py        | 5 ++---
 3 files changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/hypershell/data/__init__.py b/src/hypershell/data/__init__.py
index 016d969..1d32f66 100644
--- a/src/hypershell/data/__init__.py
+++ b/src/hypershell/data/__init__.py
@@ -66,8 +66,7 @@ def ensuredb(auto_init: bool = False) -> None:
 
     If SQLite and `auto_init` we run :meth:`initdb`, else :meth:`checkdb`.
     """
-    db = config.database.get('file', None) or config.database.get('database', None)
-    if config.database.provider == 'sqlite' and db in ('', ':memory:', None):
+    if in_memory:
         raise ConfigurationError('Missing database configuration')
     if config.database.provider == 'sqlite' or auto_init is True:
         initdb()
diff --git a/src/hypershell/data/core.py b/src/hypershell/data/core.py
index e3fdde9..bdd59ba 100644
--- a/src/hypershell/data/core.py
+++ b/src/hypershell/data/core.py
@@ -188,7 +188,8 @@ engine_config = {}
 # sqlite specific configuration
 in_memory = False
 if config.provider == 'sqlite':
-    in_memory = (config.get('file', None) or config.get('database', None)) in ('', ':memory:', None)
+    # NOTE: by attribute because of possible `_env` and `_eval` variants
+    in_memory = (getattr(config, 'file', None) or getattr(config, 'database', None)) in ('', ':memory:', None)
     if in_memory:
         engine_config['poolclass'] = StaticPool
     if 'check_same_thread' not in connect_args:
diff --git a/src/hypershell/submit.py b/src/hypershell/submit.py
index aa7db79..844ff96 100644
--- a/src/hypershell/submit.py
+++ b/src/hypershell/submit.py
@@ -65,7 +65,7 @@ from hypershell.core.template import Template, DEFAULT_TEMPLATE
 from hypershell.core.exceptions import get_shared_exception_mapping
 from hypershell.core.types import JSONValue
 from hypershell.data.model import Task
-from hypershell.data import initdb, checkdb
+from hypershell.data import initdb, checkdb, in_memory
 from hypershell.task import Tag
 
 # public interface
@@ -812,8 +812,7 @@ class SubmitApp(Application):
     @staticmethod
     def check_config():
         """Halt if we are not connected to database."""
-        db = config.database.get('file', None) or config.database.get('database', None)
-        if config.database.provider == 'sqlite' and db in ('', ':memory:', None):
+        if in_memory:
             raise ConfigurationError('Submitting tasks to in-memory database has no effect')
 
     def __enter__(self: SubmitApp) -> SubmitApp:
-- 
2.43.0


From 984b3b67b1b9fa9e6d192672edfaaa1802f1970d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:55 +0000
Subject: [PATCH 45/72] fix: sqlite given by its database name in prompts

---
 src/hypershell/data/__init__.py | 2 +-
 src/hypershell/task.py          | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/hypershell/data/__init__.py b/src/hypershell/data/__init__.py
index 1d32f66..8b2c9fd 100644
--- a/src/hypershell/data/__init__.py
+++ b/src/hypershell/data/__init__.py
@@ -123,7 +123,7 @@ class InitDBApp(Application):
             raise RuntimeError('Non-interactive prompt cannot confirm --truncate (see --yes).')
         else:
             if config.database.provider == 'sqlite':
-                site = config.database.file
+                site = engine.url.database
             else:
                 site = config.database.get('host', 'localhost')
             print(f'Connected to: {config.database.provider} ({site})')
diff --git a/src/hypershell/task.py b/src/hypershell/task.py
index f4278de..e14ea7d 100644
--- a/src/hypershell/task.py
+++ b/src/hypershell/task.py
@@ -44,6 +44,7 @@ from hypershell.core.types import smart_coerce, JSONValue
 from hypershell.data.core import Session
 from hypershell.data.model import Task, to_json_type
 from hypershell.data import ensuredb
+from hypershell.data.core import engine
 
 # public interface
 __all__ = ['TaskGroupApp', 'Tag', ]
@@ -848,7 +849,7 @@ class TaskUpdateApp(Application, SearchableMixin):
         field_updates, tag_updates = self.process_arguments()
 
         if config.database.provider == 'sqlite':
-            site = config.database.file
+            site = engine.url.database
         else:
             site = config.database.get('host', 'localhost')
 
-- 
2.43.0


From caddab8e07df8c9d0a9707735b30135faec63501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:55 +0000
Subject: [PATCH 46/72] fix: several commands can initialize a database at once

---
 src/hypershell/data/__init__.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/hypershell/data/__init__.py b/src/hypershell/data/__init__.py
index 8b2c9fd..a79f6b5 100644
--- a/src/hypershell/data/__init__.py
+++ b/src/hypershell/data/__init__.py
@@ -18,7 +18,7 @@ from cmdkit.cli import Interface
 from cmdkit.config import ConfigurationError
 from sqlalchemy import inspect
 from sqlalchemy.orm import close_all_sessions
-from sqlalchemy.exc import OperationalError
+from sqlalchemy.exc import DBAPIError, OperationalError
 
 # internal libs
 from hypershell.core.logging import Logger
@@ -40,7 +40,17 @@ DATABASE_ENABLED: Final[bool] = not in_memory
 
 def initdb() -> None:
     """Initialize database tables."""
-    Entity.metadata.create_all(engine)
+    tables = None
+    while True:
+        try:
+            Entity.metadata.create_all(engine)
+            return
+        except DBAPIError:
+            # NOTE: another process might create the same tables at this very moment
+            existing = inspect(engine).get_table_names(schema=schema)
+            if existing == tables:
+                raise
+            tables = existing
 
 
 def truncatedb() -> None:
-- 
2.43.0


From 8207c416150f7cc8f7adc8c9c007558ee563ce15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:04 +0000
Subject: [PATCH 47/72] fix: local cluster uses the given port

---
 src/hypershell/cluster/__init__.py |  3 ++-
 src/hypershell/cluster/local.py    | 18 ++++++++++++++----
 2 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/hypershell/cluster/__init__.py b/src/hypershell/cluster/__init__.py
index a4bc6f5..20e1d71 100644
--- a/src/hypershell/cluster/__init__.py
+++ b/src/hypershell/cluster/__init__.py
@@ -221,7 +221,8 @@ class ClusterApp(Application):
 
     def run_local(self: ClusterApp, **options) -> None:
         """Run local cluster."""
-        run_local(**options, redirect_output=self.output_stream, redirect_errors=self.errors_stream)
+        run_local(**options, redirect_output=self.output_stream, redirect_errors=self.errors_stream,
+                  bind=(QueueConfig.host, self.port))
 
     def run_launch(self: ClusterApp, **options) -> None:
         """Run remote cluster with custom launcher."""
diff --git a/src/hypershell/cluster/local.py b/src/hypershell/cluster/local.py
index 7ded8b5..2ec5c3a 100644
--- a/src/hypershell/cluster/local.py
+++ b/src/hypershell/cluster/local.py
@@ -6,18 +6,19 @@
 
 # type annotations
 from __future__ import annotations
-from typing import Iterable, IO
+from typing import Tuple, Iterable, IO
 
 # standard libs
 import time
 import secrets
 
 # internal libs
+from hypershell.core.config import config
 from hypershell.core.thread import Thread
 from hypershell.core.logging import Logger
 from hypershell.core.template import DEFAULT_TEMPLATE
 from hypershell.submit import DEFAULT_BUNDLEWAIT
-from hypershell.server import ServerThread, DEFAULT_BUNDLESIZE, DEFAULT_ATTEMPTS
+from hypershell.server import ServerThread, DEFAULT_BIND, DEFAULT_PORT, DEFAULT_BUNDLESIZE, DEFAULT_ATTEMPTS
 from hypershell.client import ClientThread, DEFAULT_DELAY, DEFAULT_SIGNALWAIT, set_client_standalone
 
 # public interface
@@ -76,6 +77,10 @@ class LocalCluster(Thread):
             Waiting period in seconds before forcing return of task bundle to server.
             See :const:`~hypershell.server.DEFAULT_BUNDLEWAIT`.
 
+        bind (tuple, optional):
+            Bind address for server with port number.
+            See :const:`~hypershell.server.DEFAULT_BIND` and :const:`~hypershell.server.DEFAULT_PORT`.
+
         in_memory (bool, optional):
             If True, revert to basic in-memory queue.
 
@@ -164,7 +169,8 @@ class LocalCluster(Thread):
                  capture: bool = False,
                  client_timeout: int = None,
                  task_timeout: int = None,
-                 task_signalwait: int = DEFAULT_SIGNALWAIT) -> None:
+                 task_signalwait: int = DEFAULT_SIGNALWAIT,
+                 bind: Tuple[str, int] = (DEFAULT_BIND, DEFAULT_PORT)) -> None:
         """Initialize with server and single client thread."""
         auth = secrets.token_hex(64)
         self.server = ServerThread(source=source,
@@ -173,19 +179,23 @@ class LocalCluster(Thread):
                                    auth=auth,
                                    in_memory=in_memory,
                                    no_confirm=no_confirm,
+                                   address=bind,
                                    max_retries=max_retries,
                                    eager=eager,
                                    forever_mode=forever_mode,
                                    restart_mode=restart_mode,
-                                   redirect_failures=redirect_failures)
+                                   redirect_failures=redirect_failures,
+                                   evict_after=config.server.evict)
         self.client = ClientThread(num_tasks=num_tasks,
                                    template=template,
                                    bundlesize=bundlesize,
                                    bundlewait=bundlewait,
+                                   address=bind,
                                    auth=auth,
                                    no_confirm=no_confirm,
                                    redirect_output=redirect_output,
                                    redirect_errors=redirect_errors,
+                                   heartrate=config.client.heartrate,
                                    delay_start=delay_start,
                                    capture=capture,
                                    client_timeout=client_timeout,
-- 
2.43.0


From 1d516bd8d7e319528fce8ad893beb9a96afbb0ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:04 +0000
Subject: [PATCH 48/72] fix: quote template for the remote shell

---
 src/hypershell/cluster/ssh.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hypershell/cluster/ssh.py b/src/hypershell/cluster/ssh.py
index b51ce79..5c742f0 100644
--- a/src/hypershell/cluster/ssh.py
+++ b/src/hypershell/cluster/ssh.py
@@ -235,7 +235,7 @@ class SSHCluster(Thread):
         self.client_argv = [
             [*launcher, *launcher_args, host, *launcher_env, remote_exe, 'client', '-H', HOSTNAME,
              '-p', str(bind[1]), '-N', str(num_tasks), '-b', str(bundlesize), '-w', str(bundlewait),
-             '-t', f'\'{template}\'', '-k', auth, '-d', str(delay_start),
+             '-t', shlex.quote(template), '-k', auth, '-d', str(delay_start),
              '-S', str(task_signalwait), *client_args]
             for host in nodelist
         ]
-- 
2.43.0


From 9b5b6e3a9d195e16c332334d9ca0779bdbb99ba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:04 +0000
Subject: [PATCH 49/72] fix: use ssh arguments of the configuration

---
 src/hypershell/cluster/__init__.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/hypershell/cluster/__init__.py b/src/hypershell/cluster/__init__.py
index 20e1d71..2303a10 100644
--- a/src/hypershell/cluster/__init__.py
+++ b/src/hypershell/cluster/__init__.py
@@ -156,7 +156,7 @@ class ClusterApp(Application):
     mode_interface.add_argument('--mpi', action='store_true', dest='mpi_mode')
     mode_interface.add_argument('--launcher', default=None, dest='launch_mode')
 
-    ssh_args: str = ''
+    ssh_args: str = None
     interface.add_argument('--ssh-args', default=ssh_args)
 
     ssh_group: str = None
@@ -240,12 +240,13 @@ class ClusterApp(Application):
             nodelist = NodeList.from_config(self.ssh_group)
         else:
             nodelist = NodeList.from_cmdline(self.ssh_mode if self.ssh_mode != '<default>' else None)
-        run_ssh(**options, launcher='ssh', launcher_args=shlex.split(self.ssh_args), nodelist=nodelist,
+        launcher_args = None if self.ssh_args is None else shlex.split(self.ssh_args)
+        run_ssh(**options, launcher='ssh', launcher_args=launcher_args, nodelist=nodelist,
                 remote_exe=self.remote_exe, bind=('0.0.0.0', self.port), export_env=self.export_env)
 
     def run_autoscaling(self: ClusterApp, **options) -> None:
         """Run remote cluster with custom launcher and autoscaling."""
-        run_cluster(**options, autoscaling=True, launcher=(self.launch_mode or ''),
+        run_cluster(**options, autoscaling=True, launcher=(self.launch_mode or config.autoscale.launcher),
                     policy=self.autoscaling_policy, factor=self.autoscaling_factor,
                     period=self.autoscaling_period, init_size=self.autoscaling_initial,
                     min_size=self.autoscaling_minimum, max_size=self.autoscaling_maximum,
-- 
2.43.0


From 3abee212434e64de7bdde75fc5d3c5eea98b84b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:04 +0000
Subject: [PATCH 50/72] fix: quote exported environment for the remote shell

---
 src/hypershell/cluster/ssh.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/hypershell/cluster/ssh.py b/src/hypershell/cluster/ssh.py
index 5c742f0..706b4f8 100644
--- a/src/hypershell/cluster/ssh.py
+++ b/src/hypershell/cluster/ssh.py
@@ -9,6 +9,7 @@ from __future__ import annotations
 from typing import Type, List, Iterable, Tuple, IO, Final
 
 # standard libs
+import os
 import re
 import sys
 import time
@@ -17,7 +18,7 @@ import secrets
 from subprocess import Popen
 
 # external libs
-from cmdkit.config import ConfigurationError, Namespace
+from cmdkit.config import ConfigurationError
 
 # internal libs
 from hypershell.core.config import config, blame
@@ -218,9 +219,10 @@ class SSHCluster(Thread):
                                    eager=eager,
                                    forever_mode=forever_mode,
                                    restart_mode=restart_mode,
-                                   redirect_failures=redirect_failures)
+                                   redirect_failures=redirect_failures,
+                                   evict_after=config.server.evict)
         launcher = shlex.split(launcher)
-        launcher_env = shlex.split('' if not export_env else compile_env())
+        launcher_env = [] if not export_env else [compile_env()]  # NOTE: expanded by remote shell
         if launcher_args is None:
             launcher_args = shlex.split(config.ssh.get('args', ''))
         client_args = []
@@ -347,4 +349,5 @@ class NodeList(list):
 
 def compile_env() -> str:
     """Build environment variable argument expansion for remote client launch command."""
-    return ' '.join([f'{key}="{value}"' for key, value in Namespace.from_env('HYPERSHELL').items()])
+    return ' '.join([f'{key}={shlex.quote(value)}' for key, value in os.environ.items()
+                     if key.startswith('HYPERSHELL')])
-- 
2.43.0


From 5ad675e9937e71bd79d43df61a94f7bc94be469d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:04 +0000
Subject: [PATCH 51/72] fix: reject task file with --restart

---
 src/hypershell/cluster/__init__.py | 2 ++
 src/hypershell/server.py           | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/hypershell/cluster/__init__.py b/src/hypershell/cluster/__init__.py
index 2303a10..0d5c302 100644
--- a/src/hypershell/cluster/__init__.py
+++ b/src/hypershell/cluster/__init__.py
@@ -279,6 +279,8 @@ class ClusterApp(Application):
         given_filepath = self.filepath is not None
         if self.filepath is None and not self.restart_mode:
             self.filepath = '-'  # NOTE: assume STDIN
+        if self.restart_mode and self.filepath is not None:
+            raise ArgumentError('Cannot specify both FILE and --restart')
         if self.restart_mode and self.in_memory:
             raise ArgumentError('Cannot restart without database (given --no-db)')
         if self.output_path and self.mode != 'local':
diff --git a/src/hypershell/server.py b/src/hypershell/server.py
index 33cc750..22e02b5 100644
--- a/src/hypershell/server.py
+++ b/src/hypershell/server.py
@@ -1222,6 +1222,8 @@ class ServerApp(Application):
         """Fail particular argument combinations."""
         if self.filepath and self.forever_mode:
             raise ArgumentError('Cannot specify both FILE and --forever')
+        if self.filepath and self.restart_mode:
+            raise ArgumentError('Cannot specify both FILE and --restart')
         if self.filepath is None and not self.forever_mode:
             self.filepath = '-'  # NOTE: assume STDIN
         if self.restart_mode and self.forever_mode:
-- 
2.43.0


From 9f956c281015cea78103a58d7619247042e1ded8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:05 +0000
Subject: [PATCH 52/72] fix: task pressure without datetime arithmetic in the
 database

---
 src/hypershell/data/model.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/hypershell/data/model.py b/src/hypershell/data/model.py
index aa9515f..5e0fc67 100644
--- a/src/hypershell/data/model.py
+++ b/src/hypershell/data/model.py
@@ -544,10 +544,13 @@ class Task(Entity):
     def effective_rate_by_client(cls: Type[Task]) -> Optional[Dict[str, float]]:
         """Effective completion rate in tasks per second by client."""
         if server_id := cls.latest_server():
-            return {id: 1 / dt.total_seconds() for id, dt in (
+            # NOTE: elapsed time computed here because not all providers support datetime arithmetic
+            return {id: count / (stop - start).total_seconds() for id, start, stop, count in (
                 cls.query(
                     cls.client_id,
-                    (func.max(cls.completion_time) - func.min(cls.start_time)) / func.count(cls.id)
+                    func.min(cls.start_time),
+                    func.max(cls.completion_time),
+                    func.count(cls.id)
                 )
                 .join(Client, Task.client_id == Client.id)
                 .filter(cls.server_id == server_id)
@@ -555,7 +558,7 @@ class Task(Entity):
                 .filter(Client.disconnected_at == None)  # noqa: comparison to None
                 .group_by(cls.client_id)
                 .all()
-            )}
+            ) if start and stop > start}
         else:
             return None
 
-- 
2.43.0


From 74541184ca4707b68d2ab7466387f07ba8aa82ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:15 +0000
Subject: [PATCH 53/72] fix: cluster honours server settings of the
 configuration

---
 src/hypershell/cluster/__init__.py | 8 ++++----
 src/hypershell/cluster/remote.py   | 8 +++++---
 2 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/hypershell/cluster/__init__.py b/src/hypershell/cluster/__init__.py
index 0d5c302..8e375d4 100644
--- a/src/hypershell/cluster/__init__.py
+++ b/src/hypershell/cluster/__init__.py
@@ -128,10 +128,10 @@ class ClusterApp(Application):
     delay_start: float = DEFAULT_DELAY
     interface.add_argument('-d', '--delay-start', type=float, default=delay_start)
 
-    eager_mode: bool = False
-    max_retries: int = DEFAULT_ATTEMPTS - 1
+    eager_mode: bool = config.server.eager
+    max_retries: int = config.server.attempts - 1
     interface.add_argument('-r', '--max-retries', type=int, default=max_retries)
-    interface.add_argument('--eager', action='store_true', dest='eager_mode')
+    interface.add_argument('--eager', action='store_true', default=eager_mode, dest='eager_mode')
 
     in_memory: bool = False
     auto_initdb: bool = False
@@ -168,7 +168,7 @@ class ClusterApp(Application):
     export_env: bool = False
     interface.add_argument('-E', '--env', action='store_true', dest='export_env')
 
-    port: int = QueueConfig.port
+    port: int = config.server.port
     interface.add_argument('-p', '--port', default=port, type=int)
 
     capture: bool = False
diff --git a/src/hypershell/cluster/remote.py b/src/hypershell/cluster/remote.py
index 57dee7f..a5db190 100644
--- a/src/hypershell/cluster/remote.py
+++ b/src/hypershell/cluster/remote.py
@@ -21,7 +21,7 @@ from subprocess import Popen
 
 # internal libs
 from hypershell.core.fsm import State, StateMachine
-from hypershell.core.config import default, load_task_env
+from hypershell.core.config import config, default, load_task_env
 from hypershell.core.thread import Thread
 from hypershell.core.logging import Logger, HOSTNAME
 from hypershell.core.template import DEFAULT_TEMPLATE
@@ -222,7 +222,8 @@ class RemoteCluster(Thread):
                                    eager=eager,
                                    forever_mode=forever_mode,
                                    restart_mode=restart_mode,
-                                   redirect_failures=redirect_failures)
+                                   redirect_failures=redirect_failures,
+                                   evict_after=config.server.evict)
         launcher = shlex.split(launcher)
         if launcher_args is None:
             launcher_args = []
@@ -682,7 +683,8 @@ class AutoScalingCluster(Thread):
         auth = secrets.token_hex(64)
         self.server = ServerThread(source=source, auth=auth, bundlesize=bundlesize, bundlewait=bundlewait,
                                    max_retries=max_retries, eager=eager, address=bind, forever_mode=True,
-                                   redirect_failures=redirect_failures)
+                                   redirect_failures=redirect_failures,
+                                   evict_after=config.server.evict)
         launcher = shlex.split(launcher)
         if launcher_args is None:
             launcher_args = []
-- 
2.43.0


From e6093e95c4eeec1c18c4bb7b857b1fbd97db03e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:16 +0000
Subject: [PATCH 54/72] fix: lost clients do not keep the dynamic policy from
 adding one

---
 src/hypershell/cluster/remote.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/hypershell/cluster/remote.py b/src/hypershell/cluster/remote.py
index a5db190..fcd03d6 100644
--- a/src/hypershell/cluster/remote.py
+++ b/src/hypershell/cluster/remote.py
@@ -439,6 +439,10 @@ class AutoScaler(StateMachine):
         if launched_size < self.min_size:
             log.debug(f'Autoscale min-size reached ({launched_size} < {self.min_size})')
             return AutoScalerState.SCALE
+        if launched_size == 0 and task_count > 0:
+            # NOTE: regardless of pressure, which considers clients lost but not yet evicted
+            log.debug(f'Autoscale adding client ({task_count} tasks remaining)')
+            return AutoScalerState.SCALE
         if pressure is not None:
             if pressure > 1:
                 log.debug(f'Autoscale pressure high ({pressure:.2f})')
@@ -454,9 +458,6 @@ class AutoScaler(StateMachine):
             if launched_size == 0 and task_count == 0:
                 log.debug(f'Autoscale pause (no clients and no tasks)')
                 return AutoScalerState.WAIT
-            if launched_size == 0 and task_count > 0:
-                log.debug(f'Autoscale adding client ({task_count} tasks remaining)')
-                return AutoScalerState.SCALE
             else:
                 log.debug('Autoscale pause (waiting on clients to complete initial tasks)')
                 return AutoScalerState.WAIT
-- 
2.43.0


From fd285ac4640facb83b7dc4bde15c71e8d8830250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:42 +0000
Subject: [PATCH 55/72] fix: options with a default can be given by _env and
 _eval

---
 src/hypershell/core/config.py | 28 ++++++++++++++++++++++------
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/src/hypershell/core/config.py b/src/hypershell/core/config.py
index dd27e3c..0043578 100644
--- a/src/hypershell/core/config.py
+++ b/src/hypershell/core/config.py
@@ -25,6 +25,7 @@ from cmdkit.app import exit_status
 
 # internal libs
 from hypershell.core.platform import path, home
+from hypershell.core.types import smart_coerce
 from hypershell.core.exceptions import write_traceback
 
 # public interface
@@ -142,6 +143,21 @@ def reload_file(filepath: str) -> Namespace:
         raise ConfigurationError(f'(from file: {filepath}) {err.__class__.__name__}: {err}')
 
 
+def expand_options(source: Namespace, options: Namespace = default) -> Namespace:
+    """Expand `_env` and `_eval` variants in `source` of `options` that have a default (which they replace)."""
+    result = Namespace(source)
+    for name, value in options.items():
+        if isinstance(value, dict) and isinstance(source.get(name), dict):
+            result[name] = expand_options(source[name], value)
+        elif name not in source and (f'{name}_env' in source or f'{name}_eval' in source):
+            text = getattr(source, name)
+            result.pop(f'{name}_env', None)
+            result.pop(f'{name}_eval', None)
+            if text is not None:
+                result[name] = text if isinstance(value, str) else smart_coerce(text)
+    return result
+
+
 @functools.lru_cache(maxsize=None)
 def load_file(filepath: str) -> Namespace:
     """Load configuration file."""
@@ -166,9 +182,9 @@ def partial_load(system: Optional[str] = path.system.config,
     """Load configuration from files and merge environment variables."""
     return Configuration(**{
         'default': default, **preload,
-        'system': {} if not system else load_file(system),
-        'user': {} if not user else load_file(user),
-        'local': {} if not user else load_file(local),
+        'system': {} if not system else expand_options(load_file(system)),
+        'user': {} if not user else expand_options(load_file(user)),
+        'local': {} if not user else expand_options(load_file(local)),
         'env': load_env(),
     })
 
@@ -180,9 +196,9 @@ def partial_reload(system: Optional[str] = path.system.config,
     """Force reload configuration from files and merge environment variables."""
     return Configuration(**{
         'default': default, **preload,
-        'system': {} if not system else reload_file(system),
-        'user': {} if not user else reload_file(user),
-        'local': {} if not local else reload_file(local),
+        'system': {} if not system else expand_options(reload_file(system)),
+        'user': {} if not user else expand_options(reload_file(user)),
+        'local': {} if not local else expand_options(reload_file(local)),
         'env': reload_env(),
     })
 
-- 
2.43.0


From 15213bd3b4b15733bc25a264a3223fdf823bb7c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:42 +0000
Subject: [PATCH 56/72] fix: text given by environment variables stays as it is

---
 src/hypershell/core/config.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/hypershell/core/config.py b/src/hypershell/core/config.py
index 0043578..b426864 100644
--- a/src/hypershell/core/config.py
+++ b/src/hypershell/core/config.py
@@ -166,7 +166,19 @@ def load_file(filepath: str) -> Namespace:
 
 def reload_env() -> Environ:
     """Force reloading environment variables and expanding hierarchy as namespace."""
-    return Environ(prefix='HYPERSHELL').expand()
+    env = Environ(prefix='HYPERSHELL').expand()
+    exported = Namespace({})
+    for name, text in os.environ.items():
+        section, _, option = name.removeprefix('HYPERSHELL_').lower().partition('_')
+        if not name.startswith('HYPERSHELL_') or not isinstance(default.get(section), dict):
+            continue
+        if section == 'export':
+            exported[option] = text  # NOTE: verbatim, and `a_b` is not `b` within `a`
+        elif isinstance(default[section].get(option), str) and env[section][option] is not None:
+            env[section][option] = text  # NOTE: not a number even if it looks like one
+    if exported:
+        env['export'] = exported
+    return env
 
 
 @functools.lru_cache(maxsize=None)
-- 
2.43.0


From a6f114b9db909fdd7511eb3eab20be451aa0fb75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:46 +0000
Subject: [PATCH 57/72] fix: honour the port of the SSH configuration

---
 src/hypershell/core/remote.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/hypershell/core/remote.py b/src/hypershell/core/remote.py
index b64a784..bd28454 100644
--- a/src/hypershell/core/remote.py
+++ b/src/hypershell/core/remote.py
@@ -12,6 +12,7 @@ from types import TracebackType
 # standard libs
 import os
 import sys
+from uuid import uuid4
 from dataclasses import dataclass
 
 # external libs
@@ -39,6 +40,7 @@ class SSHConfig:
     """Connection details for an SSHConnection."""
 
     hostname: str
+    port: int = 22
     timeout: Optional[float] = None
     username: Optional[str] = None
     password: Optional[str] = None
@@ -61,6 +63,7 @@ class SSHConfig:
         if profile := cls.check_config(hostname, filepath):
             return cls(**{
                 'hostname': profile.get('hostname', hostname),
+                'port': int(profile.get('port', 22)),
                 'username': profile.get('user', None),
                 'key_filename': profile.get('identityfile', None),
                 'sock': None if 'proxycommand' not in profile else ProxyCommand(profile['proxycommand']),
-- 
2.43.0


From 1a16b0d31142633018eaac7c82cbc5c993a5ce30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:46 +0000
Subject: [PATCH 58/72] fix: interrupted fetch leaves no partial output behind

---
 src/hypershell/core/remote.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/hypershell/core/remote.py b/src/hypershell/core/remote.py
index bd28454..734e6ef 100644
--- a/src/hypershell/core/remote.py
+++ b/src/hypershell/core/remote.py
@@ -129,7 +129,14 @@ class SSHConnection:
         """Use SFTP to copy remote file to local file."""
         self.open_sftp()
         log.trace(f'GET {self.config.hostname}:{remote_path} -> {local_path}')
-        self.sftp.get(remote_path, local_path)
+        # NOTE: an incomplete file must never be taken for the real one (by anyone, at any time)
+        partial_path = f'{local_path}.{uuid4()}.part'
+        try:
+            self.sftp.get(remote_path, partial_path)
+            os.replace(partial_path, local_path)
+        finally:
+            if os.path.exists(partial_path):
+                os.remove(partial_path)
 
     def put_file(self: SSHConnection, local_path: str, remote_path: str) -> None:
         """Use SFTP to copy local file to remote file."""
-- 
2.43.0


From 1d9ff7e2a3c61a2a03b1292bc0ea7431704a2540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:46 +0000
Subject: [PATCH 59/72] fix: output of an earlier run is not shown for the
 current one

---
 src/hypershell/task.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/hypershell/task.py b/src/hypershell/task.py
index e14ea7d..040388a 100644
--- a/src/hypershell/task.py
+++ b/src/hypershell/task.py
@@ -208,7 +208,7 @@ class TaskInfoApp(Application):
         """Print file contents, fetch from client if necessary."""
         if task_path is None:
             raise RuntimeError(f'No {out_stream.name} for task ({self.uuid})')
-        if not os.path.exists(local_path) and self.task.client_host != HOSTNAME:
+        if self.task.client_host != HOSTNAME and not self.is_current(local_path):
             self.copy_remote_files()
         # NOTE: task output can be any sequence of bytes and line endings
         with open(local_path, mode='rb') as in_stream:
@@ -216,6 +216,15 @@ class TaskInfoApp(Application):
             copyfileobj(in_stream, out_stream.buffer)
             out_stream.buffer.flush()
 
+    def is_current(self: TaskInfoApp, local_path: str) -> bool:
+        """Check local file exists and is not left from an earlier run of the task (e.g., reverted)."""
+        if not os.path.exists(local_path):
+            return False
+        if self.task.start_time is None:
+            return True
+        # NOTE: allow for limited resolution of file timestamps
+        return os.path.getmtime(local_path) > self.task.start_time.timestamp() - 1
+
     @functools.cached_property
     def format_method(self: TaskInfoApp) -> Dict[str, Callable[[dict], str]]:
         """Format data method."""
-- 
2.43.0


From 6974135e6045de5ab2300ca036bfc4fd54ab835b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:22:14 +0000
Subject: [PATCH 60/72] fix: client ends when results cannot be returned
 anymore

---
 src/hypershell/client.py | 29 +++++++++++++++++++++++++----
 1 file changed, 25 insertions(+), 4 deletions(-)

diff --git a/src/hypershell/client.py b/src/hypershell/client.py
index c8ebef6..c99c240 100644
--- a/src/hypershell/client.py
+++ b/src/hypershell/client.py
@@ -984,21 +984,42 @@ class ClientThread(Thread):
     def wait_scheduler(self: ClientThread) -> None:
         """Wait for all tasks to be completed."""
         log.trace('Waiting (scheduler)')
-        self.scheduler.join()
+        self.wait_on(self.scheduler)
 
     def wait_collector(self: ClientThread) -> None:
         """Signal collector to halt."""
         log.trace('Waiting (collector)')
-        self.outbound.put(None)
+        self.put_sentinel(self.outbound)
         self.collector.join()
 
     def wait_executors(self: ClientThread) -> None:
         """Send disconnect signal to each task executor thread."""
         for _ in self.executors:
-            self.inbound.put(None)  # signal executors to shut down
+            self.put_sentinel(self.inbound)  # signal executors to shut down
         for thread in self.executors:
             log.trace(f'Waiting (executor-{thread.id})')
-            thread.join()
+            self.wait_on(thread)
+
+    def put_sentinel(self: ClientThread, queue: Queue) -> None:
+        """Put end-of-tasks marker on local `queue` unless the collector fails."""
+        while True:
+            try:
+                queue.put(None, timeout=1)
+                break
+            except QueueFull:
+                self.check_collector()
+
+    def wait_on(self: ClientThread, thread: Thread) -> None:
+        """Wait on child `thread` to complete unless the collector fails."""
+        while thread.is_alive():
+            thread.join(timeout=1)
+            self.check_collector()
+        thread.join()
+
+    def check_collector(self: ClientThread) -> None:
+        """Nothing can complete anymore without the collector (e.g., connection lost)."""
+        if not self.collector.is_alive():
+            self.collector.join()  # NOTE: raises the exception if there was one
 
     def wait_heartbeat(self: ClientThread) -> None:
         """Signal HALT on heartbeat."""
-- 
2.43.0


From eb6e4897acfd50615e5fbdc184f4f88c3101279c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:22:14 +0000
Subject: [PATCH 61/72] fix: server ends with an error when one of its threads
 fails

---
 src/hypershell/server.py | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/src/hypershell/server.py b/src/hypershell/server.py
index 22e02b5..17b86ef 100644
--- a/src/hypershell/server.py
+++ b/src/hypershell/server.py
@@ -71,7 +71,7 @@ from hypershell.core.heartbeat import Heartbeat, ClientState
 from hypershell.data.core import Session
 from hypershell.data.model import Task, Client
 from hypershell.data import ensuredb, DATABASE_ENABLED
-from hypershell.submit import SubmitThread, LiveSubmitThread, DEFAULT_BUNDLEWAIT
+from hypershell.submit import SubmitThread, LiveSubmitThread, put_sentinel, DEFAULT_BUNDLEWAIT
 from hypershell.client import ClientInfo
 
 # public interface
@@ -805,11 +805,20 @@ class ServerThread(Thread):
         self.heartmonitor.start()
         self.receiver.start()
 
+    def wait_on(self: ServerThread, thread: Thread) -> None:
+        """Wait on child `thread` to complete unless another one fails."""
+        while thread.is_alive():
+            thread.join(timeout=1)
+            for other in self.submitter, self.scheduler, self.confirm, self.heartmonitor, self.receiver:
+                if other is not None and not other.is_alive():
+                    other.join()  # NOTE: raises the exception if there was one
+        thread.join()
+
     def wait_submitter(self: ServerThread) -> None:
         """Wait on task submission to complete."""
         if self.submitter is not None:
             log.trace('Waiting (submitter)')
-            self.submitter.join()
+            self.wait_on(self.submitter)
             if self.scheduler is not None:
                 self.scheduler.signal_submitting(False, submitted=self.submitter.task_count)
 
@@ -817,27 +826,27 @@ class ServerThread(Thread):
         """Wait scheduling until complete."""
         if self.scheduler is not None:
             log.trace('Waiting (scheduler)')
-            self.scheduler.join()
+            self.wait_on(self.scheduler)
 
     def wait_heartbeat(self: ServerThread) -> None:
         """Wait for heartmonitor to stop."""
         log.trace('Waiting (heartbeat)')
         self.heartmonitor.signal_scheduler_done()
         self.heartmonitor.signal_clients()
-        self.heartmonitor.join()
+        self.wait_on(self.heartmonitor)
 
     def wait_receiver(self: ServerThread) -> None:
         """Wait for receiver to stop."""
         log.trace('Waiting (receiver)')
-        self.queue.completed.put(None)
-        self.receiver.join()
+        put_sentinel(self.queue.completed, self.receiver)
+        self.wait_on(self.receiver)
 
     def wait_confirm(self: ServerThread) -> None:
         """Wait for confirm thread to stop."""
         if not self.no_confirm:
             log.trace('Waiting (confirm)')
             self.queue.confirmed.put(None)
-            self.confirm.join()
+            self.wait_on(self.confirm)
 
     def stop(self: ServerThread, wait: bool = False, timeout: int = None) -> None:
         """Stop child threads before main thread."""
@@ -847,7 +856,7 @@ class ServerThread(Thread):
         if self.scheduler is not None:
             self.scheduler.stop(wait=wait, timeout=timeout)
         self.heartmonitor.stop(wait=wait, timeout=timeout)
-        self.queue.completed.put(None)
+        put_sentinel(self.queue.completed, self.receiver)
         self.receiver.stop(wait=wait, timeout=timeout)
         if not self.no_confirm:
             self.queue.confirmed.put(None)
-- 
2.43.0


From faf48e0eb9e957e40140a92c236353f784143fbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:22:14 +0000
Subject: [PATCH 62/72] fix: autoscaling cluster ends along with its server

---
 src/hypershell/cluster/remote.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/hypershell/cluster/remote.py b/src/hypershell/cluster/remote.py
index fcd03d6..7c09712 100644
--- a/src/hypershell/cluster/remote.py
+++ b/src/hypershell/cluster/remote.py
@@ -712,6 +712,9 @@ class AutoScalingCluster(Thread):
         self.server.start()
         time.sleep(2)  # NOTE: give the server a chance to start
         self.autoscaler.start()
+        while self.server.is_alive() and self.autoscaler.is_alive():
+            self.server.join(timeout=1)
+        self.autoscaler.stop()
         self.autoscaler.join()
         self.server.join()
 
-- 
2.43.0


From 5ac7676411d0b07a1c4f72d49ba49d96ebb97d93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:22:15 +0000
Subject: [PATCH 63/72] fix: items left in a queue do not keep the server from
 exiting

---
 src/hypershell/core/queue.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/hypershell/core/queue.py b/src/hypershell/core/queue.py
index 06824f1..26553ed 100644
--- a/src/hypershell/core/queue.py
+++ b/src/hypershell/core/queue.py
@@ -89,6 +89,8 @@ class QueueServer(QueueInterface):
         self.completed = JoinableQueue(maxsize=self.config.size)
         self.heartbeat = JoinableQueue(maxsize=0)
         self.confirmed = JoinableQueue(maxsize=0)
+        for queue in self.scheduled, self.completed, self.heartbeat, self.confirmed:
+            queue.cancel_join_thread()  # NOTE: what nobody takes anymore must not keep us from exiting
         self.register('_get_scheduled', callable=self._get_scheduled)
         self.register('_get_completed', callable=self._get_completed)
         self.register('_get_heartbeat', callable=self._get_heartbeat)
-- 
2.43.0


From d643e1e34cc68041d0e504d35c7053db75b0b1a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:25:07 +0000
Subject: [PATCH 64/72] fix: a server embedded without a database does not fail
 on eviction

---
 src/hypershell/server.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hypershell/server.py b/src/hypershell/server.py
index 17b86ef..7a5ac1f 100644
--- a/src/hypershell/server.py
+++ b/src/hypershell/server.py
@@ -778,7 +778,7 @@ class ServerThread(Thread):
             self.confirm = ConfirmThread(queue=self.queue, in_memory=self.in_memory)
         self.receiver = ReceiverThread(queue=self.queue, in_memory=self.in_memory, redirect_failures=redirect_failures)
         self.heartmonitor = HeartMonitorThread(queue=self.queue, evict_after=evict_after,
-                                               in_memory=in_memory, no_confirm=no_confirm)
+                                               in_memory=self.in_memory, no_confirm=no_confirm)
         super().__init__(name='hypershell-server')
 
     def run_with_exceptions(self: ServerThread) -> None:
-- 
2.43.0


From 29f5e23671918c6ff878ba6361d2cf214016a480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:25:07 +0000
Subject: [PATCH 65/72] fix: more than one server can run in the same process

---
 src/hypershell/core/queue.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/hypershell/core/queue.py b/src/hypershell/core/queue.py
index 26553ed..78b7a8c 100644
--- a/src/hypershell/core/queue.py
+++ b/src/hypershell/core/queue.py
@@ -91,10 +91,10 @@ class QueueServer(QueueInterface):
         self.confirmed = JoinableQueue(maxsize=0)
         for queue in self.scheduled, self.completed, self.heartbeat, self.confirmed:
             queue.cancel_join_thread()  # NOTE: what nobody takes anymore must not keep us from exiting
-        self.register('_get_scheduled', callable=self._get_scheduled)
-        self.register('_get_completed', callable=self._get_completed)
-        self.register('_get_heartbeat', callable=self._get_heartbeat)
-        self.register('_get_confirmed', callable=self._get_confirmed)
+        self.register('_get_scheduled', callable=self._get_scheduled, create_method=False)
+        self.register('_get_completed', callable=self._get_completed, create_method=False)
+        self.register('_get_heartbeat', callable=self._get_heartbeat, create_method=False)
+        self.register('_get_confirmed', callable=self._get_confirmed, create_method=False)
         super().start()
 
     def _get_scheduled(self: QueueServer) -> JoinableQueue[Optional[List[bytes]]]:
-- 
2.43.0


From b7b40c4f1e63e1fdb9e215167b396b5f8b11e010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:25:07 +0000
Subject: [PATCH 66/72] fix: threads which have not been started yet can be
 stopped

---
 src/hypershell/core/thread.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hypershell/core/thread.py b/src/hypershell/core/thread.py
index 6df278b..d278f85 100644
--- a/src/hypershell/core/thread.py
+++ b/src/hypershell/core/thread.py
@@ -46,7 +46,7 @@ class Thread(threading.Thread, ABC):
     def stop(self: Thread, wait: bool = False, timeout: int = None) -> None:
         """Signal to terminate."""
         self.__should_halt = True
-        if wait:
+        if wait and self.ident is not None:  # NOTE: may not have been started yet
             self.join(timeout=timeout)
 
     def join(self: Thread, timeout: Optional[float] = None) -> None:
-- 
2.43.0


From 004531ffed93b9c521aaf2ccb8e943c0e1a754a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:25:07 +0000
Subject: [PATCH 67/72] fix: stopping a submission neither blocks nor loses
 tasks

---
 src/hypershell/submit.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/hypershell/submit.py b/src/hypershell/submit.py
index 844ff96..be2d76c 100644
--- a/src/hypershell/submit.py
+++ b/src/hypershell/submit.py
@@ -381,8 +381,8 @@ class SubmitThread(Thread):
         """Stop child threads before main thread."""
         log.warning('Stopping')
         self.loader.stop(wait=wait, timeout=timeout)
-        put_sentinel(self.queue, self.committer)
-        self.committer.stop(wait=wait, timeout=timeout)
+        if not self.is_alive():  # NOTE: otherwise done by the main thread as soon as the loader stops
+            put_sentinel(self.queue, self.committer)
         super().stop(wait=wait, timeout=timeout)
 
     @property
@@ -488,8 +488,9 @@ class QueueCommitter(StateMachine):
     def finalize(self) -> QueueCommitterState:
         """Force final commit of tasks and halt."""
         self.pack_bundle()
-        while self.commit() is QueueCommitterState.COMMIT:
+        if self.commit() is QueueCommitterState.COMMIT:
             log.trace('Queue full - waiting to schedule final bundle')
+            return QueueCommitterState.FINAL
         log.debug('Done (committer: no database)')
         return QueueCommitterState.HALT
 
@@ -604,7 +605,6 @@ class LiveSubmitThread(Thread):
         """Stop child threads before main thread."""
         log.warning('Stopping')
         self.loader.stop(wait=wait, timeout=timeout)
-        put_sentinel(self.local, self.committer)
         self.committer.stop(wait=wait, timeout=timeout)
         super().stop(wait=wait, timeout=timeout)
 
-- 
2.43.0


From 25b0c0f8378fa2471c2b034349ab83f49aa0a380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:25:07 +0000
Subject: [PATCH 68/72] fix: stopping a client neither blocks nor loses tasks

---
 src/hypershell/client.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/hypershell/client.py b/src/hypershell/client.py
index c99c240..7662df4 100644
--- a/src/hypershell/client.py
+++ b/src/hypershell/client.py
@@ -152,6 +152,7 @@ class ClientScheduler(StateMachine):
     timeout: Optional[timedelta]
 
     previous_received: datetime
+    should_stop: bool = False  # set by parent thread
 
     task: Task
     tasks: List[Task]
@@ -197,6 +198,8 @@ class ClientScheduler(StateMachine):
         if check_signal() in (SIGUSR1, SIGUSR2) and CLIENT_STANDALONE_MODE:
             log.warning(f'Signal interrupt ({SIGNAL_MAP[check_signal()]})')
             return SchedulerState.FINAL
+        if self.should_stop:
+            return SchedulerState.FINAL
         try:
             self.bundle = self.queue.scheduled.get(timeout=2)
             self.queue.scheduled.task_done()
@@ -275,7 +278,7 @@ class ClientSchedulerThread(Thread):
     def stop(self: ClientSchedulerThread, wait: bool = False, timeout: int = None) -> None:
         """Stop machine."""
         log.warning('Stopping (scheduler)')
-        self.machine.halt()
+        self.machine.should_stop = True  # NOTE: not before passing on all tasks already received
         super().stop(wait=wait, timeout=timeout)
 
 
@@ -1031,7 +1034,6 @@ class ClientThread(Thread):
         """Stop child threads before main thread."""
         log.warning('Stopping')
         self.scheduler.stop(wait=wait, timeout=timeout)
-        self.collector.stop(wait=wait, timeout=timeout)
         super().stop(wait=wait, timeout=timeout)
 
 
-- 
2.43.0


From 559efcc3652a7a2778692919558d482df8ca809c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:25:07 +0000
Subject: [PATCH 69/72] fix: clusters started from a program do not retry
 unless asked to

---
 src/hypershell/cluster/local.py  | 2 +-
 src/hypershell/cluster/remote.py | 4 ++--
 src/hypershell/cluster/ssh.py    | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/hypershell/cluster/local.py b/src/hypershell/cluster/local.py
index 2ec5c3a..8ee1db6 100644
--- a/src/hypershell/cluster/local.py
+++ b/src/hypershell/cluster/local.py
@@ -160,7 +160,7 @@ class LocalCluster(Thread):
                  no_confirm: bool = False,
                  forever_mode: bool = False,
                  restart_mode: bool = False,
-                 max_retries: int = DEFAULT_ATTEMPTS,
+                 max_retries: int = DEFAULT_ATTEMPTS - 1,
                  eager: bool = False,
                  redirect_failures: IO = None,
                  redirect_output: IO = None,
diff --git a/src/hypershell/cluster/remote.py b/src/hypershell/cluster/remote.py
index 7c09712..da32b2f 100644
--- a/src/hypershell/cluster/remote.py
+++ b/src/hypershell/cluster/remote.py
@@ -201,7 +201,7 @@ class RemoteCluster(Thread):
                  no_confirm: bool = False,
                  forever_mode: bool = False,
                  restart_mode: bool = False,
-                 max_retries: int = DEFAULT_ATTEMPTS,
+                 max_retries: int = DEFAULT_ATTEMPTS - 1,
                  eager: bool = False,
                  redirect_failures: IO = None,
                  delay_start: float = DEFAULT_DELAY,
@@ -665,7 +665,7 @@ class AutoScalingCluster(Thread):
                  no_confirm: bool = False,  # noqa: ignored (passed by ClusterApp)
                  forever_mode: bool = False,  # noqa: ignored (passed by ClusterApp)
                  restart_mode: bool = False,  # noqa: ignored (passed by ClusterApp)
-                 max_retries: int = DEFAULT_ATTEMPTS,
+                 max_retries: int = DEFAULT_ATTEMPTS - 1,
                  eager: bool = False,
                  redirect_failures: IO = None,
                  delay_start: float = DEFAULT_DELAY,
diff --git a/src/hypershell/cluster/ssh.py b/src/hypershell/cluster/ssh.py
index 706b4f8..18cfa04 100644
--- a/src/hypershell/cluster/ssh.py
+++ b/src/hypershell/cluster/ssh.py
@@ -196,7 +196,7 @@ class SSHCluster(Thread):
                  no_confirm: bool = False,
                  forever_mode: bool = False,
                  restart_mode: bool = False,
-                 max_retries: int = DEFAULT_ATTEMPTS,
+                 max_retries: int = DEFAULT_ATTEMPTS - 1,
                  eager: bool = False,
                  redirect_failures: IO = None,
                  delay_start: float = DEFAULT_DELAY,
-- 
2.43.0


From c3f4f0f3a15860c80622a457a38832435862ed1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:25:08 +0000
Subject: [PATCH 70/72] fix: error of a cluster which could not be launched is
 raised

---
 src/hypershell/cluster/remote.py | 7 ++++---
 src/hypershell/cluster/ssh.py    | 3 ++-
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/hypershell/cluster/remote.py b/src/hypershell/cluster/remote.py
index da32b2f..332e287 100644
--- a/src/hypershell/cluster/remote.py
+++ b/src/hypershell/cluster/remote.py
@@ -6,7 +6,7 @@
 
 # type annotations
 from __future__ import annotations
-from typing import Tuple, List, Dict, IO, Iterable, Callable, Type, Final
+from typing import Tuple, List, Dict, IO, Iterable, Callable, Type, Optional, Final
 
 # standard libs
 import os
@@ -184,7 +184,7 @@ class RemoteCluster(Thread):
     """
 
     server: ServerThread
-    clients: Popen
+    clients: Optional[Popen] = None
     client_argv: List[str]
 
     def __init__(self: RemoteCluster,
@@ -259,7 +259,8 @@ class RemoteCluster(Thread):
     def stop(self: RemoteCluster, wait: bool = False, timeout: int = None) -> None:
         """Stop child threads before main thread."""
         self.server.stop(wait=wait, timeout=timeout)
-        self.clients.terminate()
+        if self.clients is not None:
+            self.clients.terminate()
         super().stop(wait=wait, timeout=timeout)
 
 
diff --git a/src/hypershell/cluster/ssh.py b/src/hypershell/cluster/ssh.py
index 18cfa04..cdbcd1e 100644
--- a/src/hypershell/cluster/ssh.py
+++ b/src/hypershell/cluster/ssh.py
@@ -221,6 +221,7 @@ class SSHCluster(Thread):
                                    restart_mode=restart_mode,
                                    redirect_failures=redirect_failures,
                                    evict_after=config.server.evict)
+        self.clients = []
         launcher = shlex.split(launcher)
         launcher_env = [] if not export_env else [compile_env()]  # NOTE: expanded by remote shell
         if launcher_args is None:
@@ -247,7 +248,7 @@ class SSHCluster(Thread):
         """Start child threads, wait."""
         self.server.start()
         time.sleep(2)  # NOTE: give the server a chance to start
-        self.clients = []
+        self.server.join(timeout=0)  # NOTE: raises the exception if it could not
         for argv in self.client_argv:
             log.debug(f'Launching client: {argv}')
             self.clients.append(Popen(argv, stdout=sys.stdout, stderr=sys.stderr))
-- 
2.43.0


From 1f8f8c908ddc9aa1f8cde088776a2bb9a1a3e698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:25:16 +0000
Subject: [PATCH 71/72] fix: cluster ends with an error when its server could
 not start

---
 src/hypershell/cluster/local.py  | 1 +
 src/hypershell/cluster/remote.py | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/hypershell/cluster/local.py b/src/hypershell/cluster/local.py
index 8ee1db6..783cfc3 100644
--- a/src/hypershell/cluster/local.py
+++ b/src/hypershell/cluster/local.py
@@ -208,6 +208,7 @@ class LocalCluster(Thread):
         set_client_standalone(False)
         self.server.start()
         time.sleep(2)  # NOTE: give the server a chance to start
+        self.server.join(timeout=0)  # NOTE: raises the exception if it could not
         self.client.start()
         self.client.join()
         self.server.join()
diff --git a/src/hypershell/cluster/remote.py b/src/hypershell/cluster/remote.py
index 332e287..3b55e43 100644
--- a/src/hypershell/cluster/remote.py
+++ b/src/hypershell/cluster/remote.py
@@ -249,6 +249,7 @@ class RemoteCluster(Thread):
         """Start child threads, wait."""
         self.server.start()
         time.sleep(2)  # NOTE: give the server a chance to start
+        self.server.join(timeout=0)  # NOTE: raises the exception if it could not
         log.debug(f'Launching clients: {self.client_argv}')
         self.clients = Popen(self.client_argv,
                              stdout=sys.stdout, stderr=sys.stderr,
-- 
2.43.0


From 056b380853cde3a30b238d5af33bd489aefb38c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:25:16 +0000
Subject: [PATCH 72/72] fix: run_local accepts its source as documented

---
 src/hypershell/cluster/local.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hypershell/cluster/local.py b/src/hypershell/cluster/local.py
index 783cfc3..d578407 100644
--- a/src/hypershell/cluster/local.py
+++ b/src/hypershell/cluster/local.py
@@ -28,7 +28,7 @@ __all__ = ['run_local', 'LocalCluster']
 log = Logger.with_name('hypershell.cluster')
 
 
-def run_local(**options) -> None:
+def run_local(*args, **options) -> None:
     """
     Run local cluster until completion.
 
@@ -43,7 +43,7 @@ def run_local(**options) -> None:
     See Also:
         - :class:`~hypershell.cluster.local.LocalCluster`
     """
-    thread = LocalCluster.new(**options)
+    thread = LocalCluster.new(*args, **options)
     try:
         thread.join()
     except Exception:
-- 
2.43.0

