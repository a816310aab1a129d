From 0e3606b6bf0ae6a73ed69a86b06d046879acf786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:59 +0000
Subject: [PATCH 01/91] fix: task scheduler registered an engine twice when
 notified and listed in the connection reply

---
 ipyparallel/controller/task_scheduler.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ipyparallel/controller/task_scheduler.py b/ipyparallel/controller/task_scheduler.py
index b354b96..65a967c 100644
--- a/ipyparallel/controller/task_scheduler.py
+++ b/ipyparallel/controller/task_scheduler.py
@@ -258,6 +258,11 @@ class TaskScheduler(Scheduler):
 
     def _register_engine(self, uid):
         """New engine with ident `uid` became available."""
+        if uid in self.targets:
+            # already registered: the reply to our connection_request
+            # can include engines we were already notified about
+            return
+
         # head of the line:
         self.targets.insert(0, uid)
         self.loads.insert(0, 0)
-- 
2.43.0


From e74dc52d4470252def7c6a892dc0a0f02ea46cf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:38 +0000
Subject: [PATCH 02/91] fix: task scheduler assigned new tasks to an engine
 while unregistering it

---
 ipyparallel/controller/task_scheduler.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/ipyparallel/controller/task_scheduler.py b/ipyparallel/controller/task_scheduler.py
index 65a967c..e67c2af 100644
--- a/ipyparallel/controller/task_scheduler.py
+++ b/ipyparallel/controller/task_scheduler.py
@@ -281,9 +281,6 @@ class TaskScheduler(Scheduler):
             # this was our only engine
             pass
 
-        # handle any potentially finished tasks:
-        self.engine_stream.flush()
-
         # don't pop destinations, because they might be used later
         # map(self.destinations.pop, self.completed.pop(uid))
         # map(self.destinations.pop, self.failed.pop(uid))
@@ -293,6 +290,11 @@ class TaskScheduler(Scheduler):
         self.targets.pop(idx)
         self.loads.pop(idx)
 
+        # handle any potentially finished tasks:
+        # only after removing the engine from targets,
+        # otherwise these results would free it up to be assigned new tasks
+        self.engine_stream.flush()
+
         # wait 5 seconds before cleaning up pending jobs, since the results might
         # still be incoming
         if self.pending[uid]:
-- 
2.43.0


From c87729f10e99482d836dfc0152ed80b0e2f6d97b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:57 +0000
Subject: [PATCH 03/91] fix: failing an unreachable task crashed when it was
 not in the dependency graph

---
 ipyparallel/controller/task_scheduler.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ipyparallel/controller/task_scheduler.py b/ipyparallel/controller/task_scheduler.py
index e67c2af..d6f4415 100644
--- a/ipyparallel/controller/task_scheduler.py
+++ b/ipyparallel/controller/task_scheduler.py
@@ -470,7 +470,8 @@ class TaskScheduler(Scheduler):
         job.removed = True
         for mid in job.dependents:
             if mid in self.graph:
-                self.graph[mid].remove(msg_id)
+                # may not be present, if failing before being saved to the graph
+                self.graph[mid].discard(msg_id)
 
         try:
             raise why()
-- 
2.43.0


From 60433febd30abd6f6c800163cbe7b2b4ca48e5f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:57 +0000
Subject: [PATCH 04/91] fix: task scheduler reversed the order of waiting tasks
 on every queue scan

---
 ipyparallel/controller/task_scheduler.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ipyparallel/controller/task_scheduler.py b/ipyparallel/controller/task_scheduler.py
index d6f4415..3dc49c5 100644
--- a/ipyparallel/controller/task_scheduler.py
+++ b/ipyparallel/controller/task_scheduler.py
@@ -768,7 +768,8 @@ class TaskScheduler(Scheduler):
 
         # put back any tasks we popped but didn't run
         if using_queue:
-            self.queue.extendleft(to_restore)
+            # extendleft reverses the order of its argument
+            self.queue.extendleft(reversed(to_restore))
 
     # ----------------------------------------------------------------------
     # methods to be overridden by subclasses
-- 
2.43.0


From 42b07de1ecafdd5f97c0ba37f2529c6aebc8bf2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:57 +0000
Subject: [PATCH 05/91] fix: tasks started via the dependency graph were run
 again from the queue

---
 ipyparallel/controller/task_scheduler.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ipyparallel/controller/task_scheduler.py b/ipyparallel/controller/task_scheduler.py
index 3dc49c5..92c735b 100644
--- a/ipyparallel/controller/task_scheduler.py
+++ b/ipyparallel/controller/task_scheduler.py
@@ -730,9 +730,11 @@ class TaskScheduler(Scheduler):
         to_restore = []
         while jobs:
             job = jobs.popleft()
-            if job.removed:
-                continue
             msg_id = job.msg_id
+            if job.removed or msg_id not in self.queue_map:
+                # already failed, or already running:
+                # jobs found via the graph are not removed from the queue
+                continue
 
             put_it_back = True
 
-- 
2.43.0


From bf08ee7da8d160d94fee614235553626e8bdbe6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:57 +0000
Subject: [PATCH 06/91] fix: follow dependency on a task that failed without
 running crashed the scheduler

---
 ipyparallel/controller/task_scheduler.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ipyparallel/controller/task_scheduler.py b/ipyparallel/controller/task_scheduler.py
index 92c735b..8551fda 100644
--- a/ipyparallel/controller/task_scheduler.py
+++ b/ipyparallel/controller/task_scheduler.py
@@ -543,7 +543,9 @@ class TaskScheduler(Scheduler):
                     if job.follow.failure:
                         relevant = relevant.union(self.all_failed)
                     for m in job.follow.intersection(relevant):
-                        dests.add(self.destinations[m])
+                        # unreachable tasks fail without ever having a destination
+                        if m in self.destinations:
+                            dests.add(self.destinations[m])
                     if len(dests) > 1:
                         self.queue_map[msg_id] = job
                         self.fail_unreachable(msg_id)
-- 
2.43.0


From 43a459a801e6308fe77c257d2a9cd10c5b905e34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:16 +0000
Subject: [PATCH 07/91] fix: late results from engines already declared dead
 were relayed and corrupted task state

---
 ipyparallel/controller/task_scheduler.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/ipyparallel/controller/task_scheduler.py b/ipyparallel/controller/task_scheduler.py
index 8551fda..74f5bb3 100644
--- a/ipyparallel/controller/task_scheduler.py
+++ b/ipyparallel/controller/task_scheduler.py
@@ -620,6 +620,16 @@ class TaskScheduler(Scheduler):
             idents, msg = self.session.feed_identities(raw_msg, copy=False)
             msg = self.session.deserialize(msg, content=False, copy=False)
             engine = idents[0]
+            parent = msg['parent_header']
+            if parent['msg_id'] not in self.pending[engine]:
+                # e.g. the engine was declared dead, and the task already
+                # failed or was assigned to another engine
+                self.log.warning(
+                    "task::ignoring result of %r, not pending on engine %r",
+                    parent['msg_id'],
+                    engine,
+                )
+                return
             try:
                 idx = self.targets.index(engine)
             except ValueError:
@@ -631,7 +641,6 @@ class TaskScheduler(Scheduler):
             return
 
         md = msg['metadata']
-        parent = msg['parent_header']
         if md.get('dependencies_met', True):
             success = md['status'] == 'ok'
             msg_id = parent['msg_id']
-- 
2.43.0


From c035c881be2f86462959fb162ada0d17e5c3e4c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:43 +0000
Subject: [PATCH 08/91] fix: tasks failing during a graph update hid waiting
 tasks from the nested update

---
 ipyparallel/controller/task_scheduler.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/ipyparallel/controller/task_scheduler.py b/ipyparallel/controller/task_scheduler.py
index 74f5bb3..aaa05fd 100644
--- a/ipyparallel/controller/task_scheduler.py
+++ b/ipyparallel/controller/task_scheduler.py
@@ -186,6 +186,8 @@ class TaskScheduler(Scheduler):
 
     queue_map = Dict()  # dict by msg_id of Jobs (for O(1) access to the Queue)
     graph = Dict()  # dict by msg_id of [ msg_ids that depend on key ]
+    _graph_updates = Instance(deque, ())  # dep_ids waiting to be handled in update_graph
+    _updating_graph = False
     retries = Dict()  # dict by msg_id of retries remaining (non-neg ints)
     # waiting = List() # list of msg_ids ready to run, but haven't due to HWM
     pending = Dict()  # dict by engine_uuid of submitted tasks
@@ -713,6 +715,21 @@ class TaskScheduler(Scheduler):
 
         Called with dep_id=None to update entire graph for hwm, but without finishing a task.
         """
+        # Tasks that fail during an update trigger further updates.
+        # Those must wait for the current update to finish,
+        # because it is holding part of the queue.
+        self._graph_updates.append(dep_id)
+        if self._updating_graph:
+            return
+        self._updating_graph = True
+        try:
+            while self._graph_updates:
+                self._update_graph(self._graph_updates.popleft())
+        finally:
+            self._updating_graph = False
+
+    def _update_graph(self, dep_id):
+        """Handle a single graph update"""
         # print ("\n\n***********")
         # pprint (dep_id)
         # pprint (self.graph)
-- 
2.43.0


From 5bc31deab817155354791a3736d1b4d8bbe18b51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:22 +0000
Subject: [PATCH 09/91] fix: tasks restricted to an engine that went away could
 wait forever

---
 ipyparallel/controller/task_scheduler.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ipyparallel/controller/task_scheduler.py b/ipyparallel/controller/task_scheduler.py
index aaa05fd..1dab82e 100644
--- a/ipyparallel/controller/task_scheduler.py
+++ b/ipyparallel/controller/task_scheduler.py
@@ -307,6 +307,9 @@ class TaskScheduler(Scheduler):
             self.completed.pop(uid)
             self.failed.pop(uid)
 
+        # tasks may have become impossible without this engine
+        self.update_graph(None)
+
     def handle_stranded_tasks(self, engine):
         """Deal with jobs resident in an engine that died."""
         lost = self.pending[engine]
-- 
2.43.0


From 9cd039fbd78397d985b4ac3c3047a76aaf4c1167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:32 +0000
Subject: [PATCH 10/91] fix: load_request reply was keyed by zero-filled bytes
 instead of engine ids

---
 ipyparallel/controller/hub.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ipyparallel/controller/hub.py b/ipyparallel/controller/hub.py
index 282ffa1..c9e785c 100644
--- a/ipyparallel/controller/hub.py
+++ b/ipyparallel/controller/hub.py
@@ -1169,7 +1169,7 @@ class Hub(LoggingConfigurable):
         content = dict(status='ok')
         # loads = {}
         for t in targets:
-            content[bytes(t)] = len(self.queues[t]) + len(self.tasks[t])
+            content[str(t)] = len(self.queues[t]) + len(self.tasks[t])
         self.session.send(
             self.query, "load_reply", content=content, ident=client_id, parent=msg
         )
-- 
2.43.0


From bd2c207391c1b17cc1c170f8f6e266d43edfb048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:32 +0000
Subject: [PATCH 11/91] fix: result requests for tasks of an earlier controller
 looked at the wrong record, and failed for status_only

---
 ipyparallel/controller/hub.py | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/ipyparallel/controller/hub.py b/ipyparallel/controller/hub.py
index c9e785c..87cec36 100644
--- a/ipyparallel/controller/hub.py
+++ b/ipyparallel/controller/hub.py
@@ -1391,11 +1391,16 @@ class Hub(LoggingConfigurable):
         content['pending'] = pending
         content['completed'] = completed
         buffers = []
-        if not statusonly:
+        records = {}
+        if not statusonly or not all(
+            msg_id in self.pending or msg_id in self.all_completed for msg_id in msg_ids
+        ):
             try:
-                matches = self.db.find_records(dict(msg_id={'$in': msg_ids}))
+                matches = self.db.find_records(
+                    dict(msg_id={'$in': msg_ids}),
+                    keys=['completed'] if statusonly else None,
+                )
                 # turn match list into dict, for faster lookup
-                records = {}
                 for rec in matches:
                     records[rec['msg_id']] = rec
             except Exception:
@@ -1409,8 +1414,6 @@ class Hub(LoggingConfigurable):
                     ident=client_id,
                 )
                 return
-        else:
-            records = {}
         for msg_id in msg_ids:
             if msg_id in self.pending:
                 pending.append(msg_id)
@@ -1421,11 +1424,12 @@ class Hub(LoggingConfigurable):
                     content[msg_id] = c
                     buffers.extend(bufs)
             elif msg_id in records:
-                if rec['completed']:
+                if records[msg_id]['completed']:
                     completed.append(msg_id)
-                    c, bufs = self._extract_record(records[msg_id])
-                    content[msg_id] = c
-                    buffers.extend(bufs)
+                    if not statusonly:
+                        c, bufs = self._extract_record(records[msg_id])
+                        content[msg_id] = c
+                        buffers.extend(bufs)
                 else:
                     pending.append(msg_id)
             else:
-- 
2.43.0


From 1aca1c7bf1f15f4412237a101f72e2a2e7d998ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:52 +0000
Subject: [PATCH 12/91] fix: canceling a pending engine registration left its
 timeout running, purging a later registration early

---
 ipyparallel/controller/hub.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ipyparallel/controller/hub.py b/ipyparallel/controller/hub.py
index 87cec36..2355df7 100644
--- a/ipyparallel/controller/hub.py
+++ b/ipyparallel/controller/hub.py
@@ -965,6 +965,8 @@ class Hub(LoggingConfigurable):
             if remove_heart_id is not None:
                 self.log.info(f"registration::canceling registration {ec.id}:{ec.uuid}")
                 self.incoming_registrations.pop(remove_heart_id)
+                if ec.stallback is not None:
+                    self.loop.remove_timeout(ec.stallback)
             else:
                 self.log.info(
                     f"registration::unregister_engine({eid}) already unregistered"
-- 
2.43.0


From fb25729c55b084de8e2b149e67b8b5e64b7166f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:52 +0000
Subject: [PATCH 13/91] fix: restoring engine state reset the saved id counter,
 so a second restart reused engine ids

---
 ipyparallel/controller/hub.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ipyparallel/controller/hub.py b/ipyparallel/controller/hub.py
index 2355df7..c6b51bc 100644
--- a/ipyparallel/controller/hub.py
+++ b/ipyparallel/controller/hub.py
@@ -1120,6 +1120,8 @@ class Hub(LoggingConfigurable):
 
         save_notifier = self.notifier
         self.notifier = None
+        # finish_registration saves the state again, so restore the counter first
+        self._idcounter = state['next_id']
         for eid, uuid in state['engines'].items():
             heart = uuid.encode('ascii')
 
@@ -1130,8 +1132,6 @@ class Hub(LoggingConfigurable):
 
         self.notifier = save_notifier
 
-        self._idcounter = state['next_id']
-
     # -------------------------------------------------------------------------
     # Client Requests
     # -------------------------------------------------------------------------
-- 
2.43.0


From 3cc6755c9e16a3ed7a78349eedf7bb95a25c69bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:52 +0000
Subject: [PATCH 14/91] fix: requests of a lost engine were never failed, and
 those of a new engine failed, when its id was reused

---
 ipyparallel/controller/hub.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/ipyparallel/controller/hub.py b/ipyparallel/controller/hub.py
index c6b51bc..c69be97 100644
--- a/ipyparallel/controller/hub.py
+++ b/ipyparallel/controller/hub.py
@@ -13,6 +13,7 @@ import sys
 import time
 from collections import deque
 from datetime import datetime
+from functools import partial
 
 import zmq
 from jupyter_client.jsonutil import parse_date
@@ -984,7 +985,7 @@ class Hub(LoggingConfigurable):
 
         self.loop.add_timeout(
             self.loop.time() + self.registration_timeout,
-            lambda: self._handle_stranded_msgs(eid, ec.uuid),
+            partial(self._handle_stranded_msgs, eid, ec.uuid, self.queues[eid]),
         )
 
         # cleanup mappings
@@ -998,7 +999,7 @@ class Hub(LoggingConfigurable):
                 self.notifier, "unregistration_notification", content=content
             )
 
-    def _handle_stranded_msgs(self, eid, uuid):
+    def _handle_stranded_msgs(self, eid, uuid, outstanding):
         """Handle messages known to be on an engine when the engine unregisters.
 
         It is possible that this will fire prematurely - that is, an engine will
@@ -1006,8 +1007,8 @@ class Hub(LoggingConfigurable):
         that the result failed and later receive the actual result.
         """
 
-        outstanding = self.queues[eid]
-
+        # outstanding is the queue of the lost engine:
+        # its id may have been taken over by another engine by now
         for msg_id in outstanding:
             self.pending.remove(msg_id)
             self.all_completed.add(msg_id)
-- 
2.43.0


From 98fcd0a127bbe59d2f7851007e7da57333d2639d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:52 +0000
Subject: [PATCH 15/91] fix: tasks that were refused or retried stayed listed
 as pending on their previous engines

---
 ipyparallel/controller/hub.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/ipyparallel/controller/hub.py b/ipyparallel/controller/hub.py
index c69be97..a2d104e 100644
--- a/ipyparallel/controller/hub.py
+++ b/ipyparallel/controller/hub.py
@@ -174,6 +174,7 @@ class Hub(LoggingConfigurable):
     completed = Dict()  # completed msg_ids keyed by engine_id
     all_completed = Set()  # completed msg_ids keyed by engine_id
     unassigned = Set()  # set of task msg_ids not yet assigned a destination
+    _task_destinations = Dict()  # task list (in self.tasks) holding each assigned task
     incoming_registrations = Dict()
     registration_timeout = Integer()
     _idcounter = Integer(0)
@@ -731,6 +732,9 @@ class Hub(LoggingConfigurable):
             self.log.info("task::task %r finished on %s", msg_id, eid)
             self.pending.remove(msg_id)
             self.all_completed.add(msg_id)
+            destination = self._task_destinations.pop(msg_id, None)
+            if destination is not None and msg_id in destination:
+                destination.remove(msg_id)
             if eid is not None:
                 if status != 'aborted':
                     self.completed[eid].append(msg_id)
@@ -768,6 +772,10 @@ class Hub(LoggingConfigurable):
         # print (content)
         msg_id = content['msg_id']
         engine_uuid = content['engine_id']
+        # a task that is retried or was refused moves on from its previous engine
+        previous = self._task_destinations.pop(msg_id, None)
+        if previous is not None and msg_id in previous:
+            previous.remove(msg_id)
         eid = self.by_ident[engine_uuid.encode("utf8")]
 
         self.log.info("task::task %r arrived on %r", msg_id, eid)
@@ -777,6 +785,7 @@ class Hub(LoggingConfigurable):
         #     self.log.debug("task::task %r not listed as MIA?!"%(msg_id))
 
         self.tasks[eid].append(msg_id)
+        self._task_destinations[msg_id] = self.tasks[eid]
         try:
             self.db.update_record(msg_id, dict(engine_uuid=engine_uuid))
         except Exception:
-- 
2.43.0


From 0236bc36b013b98a530b11c865ded9d93fd4f0ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:13 +0000
Subject: [PATCH 16/91] fix: DictDB queries with several conditions compared
 every equality with the last value

---
 ipyparallel/controller/dictdb.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ipyparallel/controller/dictdb.py b/ipyparallel/controller/dictdb.py
index e9e67e7..b5b2e29 100644
--- a/ipyparallel/controller/dictdb.py
+++ b/ipyparallel/controller/dictdb.py
@@ -158,7 +158,7 @@ class DictDB(BaseDB):
             if isinstance(v, dict):
                 tests[k] = CompositeFilter(v)
             else:
-                tests[k] = lambda o: _add_tz(o) == _add_tz(v)
+                tests[k] = lambda o, v=v: _add_tz(o) == _add_tz(v)
 
         for rec in self._records.values():
             if self._match_one(rec, tests):
-- 
2.43.0


From 6f925620b5df51f1ae9a9b3cf57fc3801216dded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:13 +0000
Subject: [PATCH 17/91] fix: $gt on DictDB matched smaller values

---
 ipyparallel/controller/dictdb.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ipyparallel/controller/dictdb.py b/ipyparallel/controller/dictdb.py
index b5b2e29..3156461 100644
--- a/ipyparallel/controller/dictdb.py
+++ b/ipyparallel/controller/dictdb.py
@@ -50,7 +50,7 @@ copy._deepcopy_dispatch[memoryview] = lambda x, memo: memoryview(x)
 
 filters = {
     '$lt': lambda a, b: a < b,
-    '$gt': lambda a, b: b > a,
+    '$gt': lambda a, b: a > b,
     '$eq': lambda a, b: a == b,
     '$ne': lambda a, b: a != b,
     '$lte': lambda a, b: a <= b,
-- 
2.43.0


From 234aa438afd8fd02b90b905851cdca586d32c4f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:13 +0000
Subject: [PATCH 18/91] fix: SQLite backend failed on empty $in/$nin lists
 (e.g. purging by engine) and on empty queries

---
 ipyparallel/controller/sqlitedb.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/ipyparallel/controller/sqlitedb.py b/ipyparallel/controller/sqlitedb.py
index 8eb42ff..e5334f2 100644
--- a/ipyparallel/controller/sqlitedb.py
+++ b/ipyparallel/controller/sqlitedb.py
@@ -357,7 +357,11 @@ class SQLiteDB(BaseDB):
                                 raise ValueError(
                                     f"Cannot use {test!r} test with NULL values on SQLite backend"
                                 )
-                            expr = f'( {join.join([expr] * len(value))} )'
+                            if value:
+                                expr = f'( {join.join([expr] * len(value))} )'
+                            else:
+                                # nothing is in an empty list
+                                expr = '0' if test == '$in' else '1'
                             args.extend(value)
                         else:
                             args.append(value)
@@ -370,7 +374,8 @@ class SQLiteDB(BaseDB):
                     expressions.append(f"{name} = ?")
                     args.append(sub_check)
 
-        expr = " AND ".join(expressions)
+        # an empty check matches everything
+        expr = " AND ".join(expressions) or "1"
         return expr, args
 
     def add_record(self, msg_id, rec):
-- 
2.43.0


From 016e4eac1ab54c158e096f220d98231babb0e923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:13 +0000
Subject: [PATCH 19/91] fix: SQLite backend returned execute_result and error
 as JSON text instead of dicts

---
 ipyparallel/controller/sqlitedb.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ipyparallel/controller/sqlitedb.py b/ipyparallel/controller/sqlitedb.py
index e5334f2..3f92316 100644
--- a/ipyparallel/controller/sqlitedb.py
+++ b/ipyparallel/controller/sqlitedb.py
@@ -322,6 +322,9 @@ class SQLiteDB(BaseDB):
         keys = self._keys if keys is None else keys
         d = self._defaults(keys)
         for key, value in zip(keys, line):
+            if key in ('execute_result', 'error') and isinstance(value, str):
+                # dicts, but the columns are declared as plain text
+                value = _convert_dict(value)
             d[key] = value
 
         return d
-- 
2.43.0


From 25ef833d6fc8403f959f7a85bb43b73874781431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:01 +0000
Subject: [PATCH 20/91] fix: SQLite task database was never recognized when
 reopened, losing all earlier records

---
 ipyparallel/controller/sqlitedb.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ipyparallel/controller/sqlitedb.py b/ipyparallel/controller/sqlitedb.py
index 3f92316..2c7f914 100644
--- a/ipyparallel/controller/sqlitedb.py
+++ b/ipyparallel/controller/sqlitedb.py
@@ -248,7 +248,8 @@ class SQLiteDB(BaseDB):
             self.log.warning('keys mismatch')
             return False
         for key in self._keys:
-            if types[key] != self._types[key]:
+            # recent SQLite reports standard types in upper case
+            if types[key].lower() != self._types[key]:
                 self.log.warning(
                     f'type mismatch: {key}: {types[key]} != {self._types[key]}'
                 )
-- 
2.43.0


From 2a2e6b105cc4f417e7d80814d18b26b6931cc289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:24 +0000
Subject: [PATCH 21/91] fix: broadcast requests were not recorded when their
 output reached the hub first

---
 ipyparallel/controller/hub.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/ipyparallel/controller/hub.py b/ipyparallel/controller/hub.py
index a2d104e..0030974 100644
--- a/ipyparallel/controller/hub.py
+++ b/ipyparallel/controller/hub.py
@@ -581,9 +581,20 @@ class Hub(LoggingConfigurable):
         self.pending.add(msg_id)
 
         try:
-            self.db.add_record(msg_id, record)
-        except Exception as e:
-            self.log.error(f'DB Error adding record {msg_id}', exc_info=True)
+            # it's posible iopub arrived first:
+            existing = self.db.get_record(msg_id)
+            for key, evalue in existing.items():
+                if evalue and not record.get(key, None):
+                    record[key] = evalue
+            try:
+                self.db.update_record(msg_id, record)
+            except Exception:
+                self.log.error("DB Error updating record %r", msg_id, exc_info=True)
+        except KeyError:
+            try:
+                self.db.add_record(msg_id, record)
+            except Exception as e:
+                self.log.error(f'DB Error adding record {msg_id}', exc_info=True)
 
     def save_broadcast_result(self, idents, msg):
         client_id = idents[0]
-- 
2.43.0


From 2e1ebb612d8168c199f4d2f7d4642f19404caa5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:59 +0000
Subject: [PATCH 22/91] fix: DictDB queries comparing a field that is None in
 some record failed

---
 ipyparallel/controller/dictdb.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/ipyparallel/controller/dictdb.py b/ipyparallel/controller/dictdb.py
index 3156461..cd51a58 100644
--- a/ipyparallel/controller/dictdb.py
+++ b/ipyparallel/controller/dictdb.py
@@ -48,13 +48,14 @@ from ..util import ensure_timezone
 # Python can't copy memoryviews, but creating another memoryview works for us
 copy._deepcopy_dispatch[memoryview] = lambda x, memo: memoryview(x)
 
+# None (e.g. not completed yet) is never before or after anything
 filters = {
-    '$lt': lambda a, b: a < b,
-    '$gt': lambda a, b: a > b,
+    '$lt': lambda a, b: a is not None and a < b,
+    '$gt': lambda a, b: a is not None and a > b,
     '$eq': lambda a, b: a == b,
     '$ne': lambda a, b: a != b,
-    '$lte': lambda a, b: a <= b,
-    '$gte': lambda a, b: a >= b,
+    '$lte': lambda a, b: a is not None and a <= b,
+    '$gte': lambda a, b: a is not None and a >= b,
     '$in': lambda a, b: a in b,
     '$nin': lambda a, b: a not in b,
     '$all': lambda a, b: all([a in bb for bb in b]),
-- 
2.43.0


From 2dbfc31db0621f5fa51e8904d68eef417572e909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:59 +0000
Subject: [PATCH 23/91] fix: DictDB never culled when record_limit *
 cull_fraction is less than one record

---
 ipyparallel/controller/dictdb.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ipyparallel/controller/dictdb.py b/ipyparallel/controller/dictdb.py
index cd51a58..5e8e4c8 100644
--- a/ipyparallel/controller/dictdb.py
+++ b/ipyparallel/controller/dictdb.py
@@ -198,7 +198,8 @@ class DictDB(BaseDB):
     def _maybe_cull(self):
         # cull by count:
         if len(self._records) > self.record_limit:
-            to_cull = int(self.cull_fraction * self.record_limit)
+            # always make room for at least the record above the limit
+            to_cull = max(1, int(self.cull_fraction * self.record_limit))
             self.log.info(
                 "%i records exceeds limit of %i, culling oldest %i",
                 len(self._records),
-- 
2.43.0


From 0373392d55fc25d6567ea1c32d03a978636a0ac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:59 +0000
Subject: [PATCH 24/91] fix: DictDB looped forever when only records without
 submission time were left to cull

---
 ipyparallel/controller/dictdb.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ipyparallel/controller/dictdb.py b/ipyparallel/controller/dictdb.py
index 5e8e4c8..1b588f4 100644
--- a/ipyparallel/controller/dictdb.py
+++ b/ipyparallel/controller/dictdb.py
@@ -190,7 +190,11 @@ class DictDB(BaseDB):
 
     def _cull_oldest(self, n=1):
         """cull the oldest N records"""
-        for msg_id in self.get_history()[:n]:
+        msg_ids = self.get_history()
+        if len(msg_ids) < n:
+            # records that do not have a submitted timestamp come last
+            msg_ids.extend(m for m in self._records if m not in set(msg_ids))
+        for msg_id in msg_ids[:n]:
             self.log.debug("Culling record: %r", msg_id)
             self._culled_ids.add(msg_id)
             self.drop_record(msg_id)
-- 
2.43.0


From e77536c5f43d7b2aab57392521562bfb645ef99e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:59 +0000
Subject: [PATCH 25/91] fix: ids culled from one DictDB were reported as culled
 by every other

---
 ipyparallel/controller/dictdb.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ipyparallel/controller/dictdb.py b/ipyparallel/controller/dictdb.py
index 1b588f4..44cd4c9 100644
--- a/ipyparallel/controller/dictdb.py
+++ b/ipyparallel/controller/dictdb.py
@@ -40,7 +40,7 @@ import fnmatch
 from copy import deepcopy
 from datetime import datetime
 
-from traitlets import Dict, Float, Integer, Unicode
+from traitlets import Dict, Float, Integer, Set, Unicode
 from traitlets.config.configurable import LoggingConfigurable
 
 from ..util import ensure_timezone
@@ -109,7 +109,7 @@ class DictDB(BaseDB):
     """
 
     _records = Dict()
-    _culled_ids = set()  # set of ids which have been culled
+    _culled_ids = Set()  # set of ids which have been culled
     _buffer_bytes = Integer(0)  # running total of the bytes in the DB
 
     size_limit = Integer(
-- 
2.43.0


From 9fc93210a11cab08c5807b1d1a83d473711515f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:59 +0000
Subject: [PATCH 26/91] fix: $ne and $nin never matched unset values on SQLite

---
 ipyparallel/controller/sqlitedb.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/ipyparallel/controller/sqlitedb.py b/ipyparallel/controller/sqlitedb.py
index 2c7f914..f6368c7 100644
--- a/ipyparallel/controller/sqlitedb.py
+++ b/ipyparallel/controller/sqlitedb.py
@@ -39,11 +39,12 @@ operators = {
     '$gt': ">",
     # null is handled weird with ==,!=
     '$eq': "=",
-    '$ne': "!=",
+    '$ne': "IS NOT",
     '$lte': "<=",
     '$gte': ">=",
     '$in': ('=', ' OR '),
-    '$nin': ('!=', ' AND '),
+    # unlike !=, also matches NULL
+    '$nin': ('IS NOT', ' AND '),
     # '$all': None,
     # '$mod': None,
     # '$exists' : None
@@ -51,7 +52,7 @@ operators = {
 }
 null_operators = {
     '=': "IS NULL",
-    '!=': "IS NOT NULL",
+    'IS NOT': "IS NOT NULL",
 }
 
 
-- 
2.43.0


From daf88133c22233adb24e4475929401f4952df1c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:59 +0000
Subject: [PATCH 27/91] fix: SQLite compared timestamps of different timezones
 as text

---
 ipyparallel/controller/sqlitedb.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ipyparallel/controller/sqlitedb.py b/ipyparallel/controller/sqlitedb.py
index f6368c7..af17b12 100644
--- a/ipyparallel/controller/sqlitedb.py
+++ b/ipyparallel/controller/sqlitedb.py
@@ -10,7 +10,7 @@ try:
 except ImportError:
     import pickle
 
-from datetime import datetime
+from datetime import datetime, timezone
 
 try:
     import sqlite3
@@ -92,7 +92,8 @@ def _convert_bufs(bs):
 
 def _adapt_timestamp(dt):
     """Adapt datetime to text"""
-    return ensure_timezone(dt).isoformat()
+    # always UTC, because timestamps are compared as text
+    return ensure_timezone(dt).astimezone(timezone.utc).isoformat()
 
 
 def _convert_timestamp(s):
-- 
2.43.0


From 899ef5211ccbe3eb0c5667173f07bf4e2bee65a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:59 +0000
Subject: [PATCH 28/91] fix: SQLite find_records changed the caller's list of
 keys

---
 ipyparallel/controller/sqlitedb.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/ipyparallel/controller/sqlitedb.py b/ipyparallel/controller/sqlitedb.py
index af17b12..0ac628d 100644
--- a/ipyparallel/controller/sqlitedb.py
+++ b/ipyparallel/controller/sqlitedb.py
@@ -451,9 +451,7 @@ class SQLiteDB(BaseDB):
 
         if keys:
             # ensure msg_id is present and first:
-            if 'msg_id' in keys:
-                keys.remove('msg_id')
-            keys.insert(0, 'msg_id')
+            keys = ['msg_id'] + [key for key in keys if key != 'msg_id']
             req = ', '.join(keys)
         else:
             req = '*'
-- 
2.43.0


From caa4ae2c97518f57232063ffaf108d10d8287c2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:59 +0000
Subject: [PATCH 29/91] fix: $glob on SQLite did not follow fnmatch for [!seq]

---
 ipyparallel/controller/sqlitedb.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ipyparallel/controller/sqlitedb.py b/ipyparallel/controller/sqlitedb.py
index 0ac628d..e1db459 100644
--- a/ipyparallel/controller/sqlitedb.py
+++ b/ipyparallel/controller/sqlitedb.py
@@ -2,6 +2,7 @@
 
 # Copyright (c) IPython Development Team.
 # Distributed under the terms of the Modified BSD License.
+import fnmatch
 import json
 import os
 
@@ -275,6 +276,10 @@ class SQLiteDB(BaseDB):
             # isolation_level = None)#,
             cached_statements=64,
         )
+        # the builtin GLOB operator does not negate with [!seq] as fnmatch does
+        self._db.create_function(
+            'glob', 2, lambda pat, s: s is not None and fnmatch.fnmatch(str(s), pat)
+        )
         # print dir(self._db)
         first_table = previous_table = self.table
         i = 0
-- 
2.43.0


From 97a7534b63c6425457bb7b131b6f2584c5c4ad0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:59 +0000
Subject: [PATCH 30/91] fix: SQLite turned user text looking like a date in
 message contents into datetimes

---
 ipyparallel/controller/sqlitedb.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ipyparallel/controller/sqlitedb.py b/ipyparallel/controller/sqlitedb.py
index e1db459..d4f836a 100644
--- a/ipyparallel/controller/sqlitedb.py
+++ b/ipyparallel/controller/sqlitedb.py
@@ -68,7 +68,7 @@ def _convert_dict(ds):
         if isinstance(ds, bytes):
             # If I understand the sqlite doc correctly, this will always be utf8
             ds = ds.decode('utf8')
-        return extract_dates(json.loads(ds))
+        return json.loads(ds)
 
 
 def _adapt_bufs(bufs):
@@ -333,6 +333,8 @@ class SQLiteDB(BaseDB):
             if key in ('execute_result', 'error') and isinstance(value, str):
                 # dicts, but the columns are declared as plain text
                 value = _convert_dict(value)
+            if key.endswith(('header', 'metadata')):
+                value = extract_dates(value)
             d[key] = value
 
         return d
-- 
2.43.0


From 567f9a271ae9eddc64d2b955d4ea684937410033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:59 +0000
Subject: [PATCH 31/91] fix: result requests for records culled from the
 database were never answered

---
 ipyparallel/controller/hub.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ipyparallel/controller/hub.py b/ipyparallel/controller/hub.py
index 0030974..ffc263d 100644
--- a/ipyparallel/controller/hub.py
+++ b/ipyparallel/controller/hub.py
@@ -1440,7 +1440,7 @@ class Hub(LoggingConfigurable):
         for msg_id in msg_ids:
             if msg_id in self.pending:
                 pending.append(msg_id)
-            elif msg_id in self.all_completed:
+            elif msg_id in self.all_completed and (statusonly or msg_id in records):
                 completed.append(msg_id)
                 if not statusonly:
                     c, bufs = self._extract_record(records[msg_id])
-- 
2.43.0


From ab232eabe419a6cbde0b9fa2bb910ba22745ba19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:15 +0000
Subject: [PATCH 32/91] fix: broadcast schedulers running in threads overwrote
 each other's coalescing state

---
 ipyparallel/controller/broadcast_scheduler.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ipyparallel/controller/broadcast_scheduler.py b/ipyparallel/controller/broadcast_scheduler.py
index 667b9b1..4b93212 100644
--- a/ipyparallel/controller/broadcast_scheduler.py
+++ b/ipyparallel/controller/broadcast_scheduler.py
@@ -1,7 +1,7 @@
 import logging
 
 import zmq
-from traitlets import Bool, Bytes, Integer, List, Unicode
+from traitlets import Bool, Bytes, Dict, Integer, List, Unicode
 
 from ipyparallel import util
 from ipyparallel.controller.scheduler import (
@@ -13,8 +13,8 @@ from ipyparallel.controller.scheduler import (
 
 class BroadcastScheduler(Scheduler):
     port_name = 'broadcast'
-    accumulated_replies = {}
-    accumulated_targets = {}
+    accumulated_replies = Dict()
+    accumulated_targets = Dict()
     is_leaf = Bool(False)
     connected_sub_scheduler_ids = List(Bytes())
     outgoing_streams = List()
-- 
2.43.0


From 4fdd35fee7b07c5685524f6f56ec514d3cc1d3b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:15 +0000
Subject: [PATCH 33/91] fix: coalesced replies of a single broadcast scheduler
 (depth 0) lacked the engine ids

---
 ipyparallel/controller/broadcast_scheduler.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/ipyparallel/controller/broadcast_scheduler.py b/ipyparallel/controller/broadcast_scheduler.py
index 4b93212..1acaecd 100644
--- a/ipyparallel/controller/broadcast_scheduler.py
+++ b/ipyparallel/controller/broadcast_scheduler.py
@@ -34,11 +34,11 @@ class BroadcastScheduler(Scheduler):
     def send_to_targets(self, msg, original_msg_id, targets, idents, is_coalescing):
         if is_coalescing:
             self.accumulated_replies[original_msg_id] = {
-                target.encode('utf8'): None for target in targets
+                target.encode('utf8'): None for target, _ in targets
             }
             self.accumulated_targets[original_msg_id] = targets
 
-        for target in targets:
+        for target, _ in targets:
             new_msg = self.append_new_msg_id_to_msg(
                 self.get_new_msg_id(original_msg_id, target), target, idents, msg
             )
@@ -137,10 +137,7 @@ class BroadcastScheduler(Scheduler):
 
         original_msg_id = metadata['original_msg_id']
         if self.is_leaf:
-            target_idents = [t[0] for t in targets]
-            self.send_to_targets(
-                msg, original_msg_id, target_idents, idents, is_coalescing
-            )
+            self.send_to_targets(msg, original_msg_id, targets, idents, is_coalescing)
         else:
             self.send_to_sub_schedulers(
                 msg, original_msg_id, targets, idents, is_coalescing
-- 
2.43.0


From deaae76a66dcf9822254fed3addf143a47b78c7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:15 +0000
Subject: [PATCH 34/91] fix: coalesced results were attributed to the wrong
 engines with broadcast depth >= 2

---
 ipyparallel/controller/broadcast_scheduler.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ipyparallel/controller/broadcast_scheduler.py b/ipyparallel/controller/broadcast_scheduler.py
index 1acaecd..2c4348e 100644
--- a/ipyparallel/controller/broadcast_scheduler.py
+++ b/ipyparallel/controller/broadcast_scheduler.py
@@ -88,6 +88,11 @@ class BroadcastScheduler(Scheduler):
     def coalescing_reply(self, raw_msg, msg, original_msg_id, outgoing_id, idents):
         # accumulate buffers
         self.accumulated_replies[original_msg_id][outgoing_id] = msg['buffers']
+        if not self.is_leaf:
+            # the targets in the order of the coalesced buffers
+            self.accumulated_targets[original_msg_id][outgoing_id] = msg['metadata'][
+                'broadcast_targets'
+            ]
         if all(
             msg_buffers is not None
             for msg_buffers in self.accumulated_replies[original_msg_id].values()
-- 
2.43.0


From 22bd2410a8938665898a631fdfed89d459b4c872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:15 +0000
Subject: [PATCH 35/91] fix: errors of coalesced broadcasts were dropped unless
 the failing engine answered last

---
 ipyparallel/controller/broadcast_scheduler.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ipyparallel/controller/broadcast_scheduler.py b/ipyparallel/controller/broadcast_scheduler.py
index 2c4348e..19d7a0f 100644
--- a/ipyparallel/controller/broadcast_scheduler.py
+++ b/ipyparallel/controller/broadcast_scheduler.py
@@ -15,6 +15,7 @@ class BroadcastScheduler(Scheduler):
     port_name = 'broadcast'
     accumulated_replies = Dict()
     accumulated_targets = Dict()
+    accumulated_errors = Dict()
     is_leaf = Bool(False)
     connected_sub_scheduler_ids = List(Bytes())
     outgoing_streams = List()
@@ -93,6 +94,8 @@ class BroadcastScheduler(Scheduler):
             self.accumulated_targets[original_msg_id][outgoing_id] = msg['metadata'][
                 'broadcast_targets'
             ]
+        if msg['metadata'].get('status', 'ok') != 'ok':
+            self.accumulated_errors.setdefault(original_msg_id, msg)
         if all(
             msg_buffers is not None
             for msg_buffers in self.accumulated_replies[original_msg_id].values()
@@ -101,7 +104,8 @@ class BroadcastScheduler(Scheduler):
             self.log.debug(f"Coalescing {len(replies)} reply to {original_msg_id}")
             targets = self.accumulated_targets.pop(original_msg_id)
 
-            new_msg = msg.copy()
+            # if any engine failed, the coalesced reply is that failure
+            new_msg = self.accumulated_errors.pop(original_msg_id, msg).copy()
             # begin rebuilding message
             # metadata['targets']
             if self.is_leaf:
-- 
2.43.0


From 7ef65949fb2cf7b7a3efcf45b7ddce8d675b67cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:14 +0000
Subject: [PATCH 36/91] fix: client.wait() never returned after a broadcast:
 the id of the original message stayed outstanding

---
 ipyparallel/client/view.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/ipyparallel/client/view.py b/ipyparallel/client/view.py
index f5ca23b..b16e385 100644
--- a/ipyparallel/client/view.py
+++ b/ipyparallel/client/view.py
@@ -946,8 +946,17 @@ class BroadcastView(DirectView):
                 self.client._outstanding_dict[ident].add(msg_and_target_id)
                 self.outstanding.add(msg_and_target_id)
                 futures.append(future[0])
-            if original_msg_id in self.outstanding:
-                self.outstanding.remove(original_msg_id)
+            # there is no reply to the original message,
+            # only to the messages it is split into
+            self.client.outstanding.discard(original_msg_id)
+            for cache in (
+                self.client._futures,
+                self.client._output_futures,
+                self.client.metadata,
+            ):
+                cache.pop(original_msg_id, None)
+            if original_msg_id in self.client.history[-1:]:
+                self.client.history[-1:] = [f.msg_id for f in futures]
         else:
             self.client.outstanding.add(original_msg_id)
             for ident in s_idents:
-- 
2.43.0


From 5ddb27f615db83265cb13690df6fcd94398253c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:19 +0000
Subject: [PATCH 37/91] fix: AsyncResult.get_dict() raised TypeError for
 coalesced broadcasts

---
 ipyparallel/client/asyncresult.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ipyparallel/client/asyncresult.py b/ipyparallel/client/asyncresult.py
index 3478d34..05fdbe0 100644
--- a/ipyparallel/client/asyncresult.py
+++ b/ipyparallel/client/asyncresult.py
@@ -574,6 +574,9 @@ class AsyncResult(Future):
         if self._single_result:
             results = [results]
         engine_ids = [md['engine_id'] for md in self._metadata]
+        if self._single_result and isinstance(engine_ids[0], list):
+            # a coalesced broadcast: one result with the values of all engines
+            engine_ids, results = engine_ids[0], results[0]
 
         rdict = {}
         for engine_id, result in zip(engine_ids, results):
-- 
2.43.0


From 18f0897bb62c1e44d58fa36ab4c020959b259f01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:19 +0000
Subject: [PATCH 38/91] fix: aborting a coalesced broadcast had no effect:
 engines know it by another id

---
 ipyparallel/engine/kernel.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/ipyparallel/engine/kernel.py b/ipyparallel/engine/kernel.py
index f346371..515c189 100644
--- a/ipyparallel/engine/kernel.py
+++ b/ipyparallel/engine/kernel.py
@@ -56,9 +56,13 @@ class IPythonParallelKernel(IPythonKernel):
             return False
         msg_id = msg['header']['msg_id']
         msg_type = msg['header']['msg_type']
-        if msg_id in self.aborted:
+        aborted = self.aborted.intersection(
+            # coalesced broadcasts are known to the client by their original id
+            {msg_id, msg['metadata'].get('original_msg_id', msg_id)}
+        )
+        if aborted:
             # is it safe to assume a msg_id will not be resubmitted?
-            self.aborted.remove(msg_id)
+            self.aborted -= aborted
             f = self._send_abort_reply(stream, msg, idents)
             if inspect.isawaitable(f):
                 asyncio.ensure_future(f)
-- 
2.43.0


From a55e3d199ac365294cece2321e3f100b406db88a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:50 +0000
Subject: [PATCH 39/91] fix: blocking control requests (abort, clear, signal,
 shutdown) hung forever when the engine died

---
 ipyparallel/client/client.py | 60 ++++++++++++++++++++++++++++++------
 1 file changed, 50 insertions(+), 10 deletions(-)

diff --git a/ipyparallel/client/client.py b/ipyparallel/client/client.py
index 0e7fd64..0c3928d 100644
--- a/ipyparallel/client/client.py
+++ b/ipyparallel/client/client.py
@@ -356,6 +356,8 @@ class Client(HasTraits):
             return 'default'
 
     _outstanding_dict = Instance('collections.defaultdict', (set,))
+    # control requests by engine, so that they are resolved if the engine dies
+    _control_requests = Instance('collections.defaultdict', (dict,))
     _ids = List()
     _connected = Bool(False)
     _ssh = Bool(False)
@@ -862,6 +864,7 @@ class Client(HasTraits):
             uuid = self._engines.pop(eid)
 
             self._handle_stranded_msgs(eid, uuid)
+            self._handle_stranded_control_requests(eid, uuid)
 
         if self._task_socket and self._task_scheme == 'pure':
             self._stop_scheduling_tasks()
@@ -897,6 +900,25 @@ class Client(HasTraits):
             msg['metadata']['engine'] = uuid
             self._handle_apply_reply(msg)
 
+    def _handle_stranded_control_requests(self, eid, uuid):
+        """Resolve the control requests an engine left unanswered when it unregistered"""
+        for future, msg_type in list(
+            self._control_requests.pop(uuid, {}).items()
+        ):
+            if future.done():
+                continue
+            if msg_type == 'shutdown_request':
+                # it is gone, which is what was asked for
+                content = {'status': 'ok'}
+            else:
+                try:
+                    raise error.EngineError(f"Engine {eid!r} died before {msg_type}")
+                except Exception:
+                    content = error.wrap_exception()
+            future.set_result(
+                self.session.msg(msg_type.replace('_request', '_reply'), content)
+            )
+
     def _handle_execute_reply(self, msg):
         """Save the reply to an execute_request into our results.
 
@@ -1095,7 +1117,7 @@ class Client(HasTraits):
         """Dispatch single (non-execution) replies"""
         msg_id = msg['parent_header'].get('msg_id', None)
         future = self._futures.get(msg_id)
-        if future is not None:
+        if future is not None and not future.done():
             future.set_result(msg)
 
     @unpack_message
@@ -1678,14 +1700,37 @@ class Client(HasTraits):
     # Control methods
     # --------------------------------------------------------------------------
 
+    def _send_to_engine_control(self, ident, msg_type, content):
+        """Send one request to one engine, return the Future of its reply"""
+        uuid = ident.decode("utf8")
+
+        def track(future):
+            requests = self._control_requests[uuid]
+            requests[future] = msg_type
+            future.add_done_callback(lambda f: requests.pop(f, None))
+
+        future = self._send(
+            self._control_stream,
+            msg_type,
+            content=content,
+            ident=ident,
+            message_future_hook=track,
+        )
+
+        def check_registered():
+            # in case the engine was unregistered before we tracked the request
+            if uuid not in self._engines.values():
+                self._handle_stranded_control_requests(None, uuid)
+
+        self._io_loop.add_callback(check_registered)
+        return future
+
     def _send_control_request(self, targets, msg_type, content, block):
         """Send a request on the control channel"""
         target_identities = self._build_targets(targets)[0]
         futures = []
         for ident in target_identities:
-            futures.append(
-                self._send(self._control_stream, msg_type, content=content, ident=ident)
-            )
+            futures.append(self._send_to_engine_control(ident, msg_type, content))
         if not block:
             return multi_future(futures)
         for future in futures:
@@ -1796,12 +1841,7 @@ class Client(HasTraits):
         futures = []
         for t in targets:
             futures.append(
-                self._send(
-                    self._control_stream,
-                    'shutdown_request',
-                    content={'restart': restart},
-                    ident=t,
-                )
+                self._send_to_engine_control(t, 'shutdown_request', {'restart': restart})
             )
         error = False
         if block or hub:
-- 
2.43.0


From e6ecde3676901925b1ee119c9d1a0ea45610ff8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:49 +0000
Subject: [PATCH 40/91] fix: get() returned the TaskAborted of aborted calls as
 if they were results, unless there was only one

---
 ipyparallel/error.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ipyparallel/error.py b/ipyparallel/error.py
index d09144e..ffbddc6 100644
--- a/ipyparallel/error.py
+++ b/ipyparallel/error.py
@@ -241,6 +241,8 @@ def collect_exceptions(rdict_or_list, method='unspecified'):
                     elist.append(e)
             else:
                 elist.append((en, ev, etb, ei))
+        elif isinstance(r, TaskAborted):
+            elist.append((type(r).__name__, str(r), None, None))
     if len(elist) == 0:
         return rdict_or_list
     else:
-- 
2.43.0


From b7619bcbfe6abad992864e6b26f00d13a837c735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:18 +0000
Subject: [PATCH 41/91] fix: aborted tasks were sent to other engines while
 they had retries left

---
 ipyparallel/controller/task_scheduler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ipyparallel/controller/task_scheduler.py b/ipyparallel/controller/task_scheduler.py
index 1dab82e..80332c9 100644
--- a/ipyparallel/controller/task_scheduler.py
+++ b/ipyparallel/controller/task_scheduler.py
@@ -650,7 +650,7 @@ class TaskScheduler(Scheduler):
             success = md['status'] == 'ok'
             msg_id = parent['msg_id']
             retries = self.retries[msg_id]
-            if not success and retries > 0:
+            if not success and retries > 0 and md['status'] != 'aborted':
                 # failed
                 self.retries[msg_id] = retries - 1
                 self.handle_unmet_dependency(idents, parent)
-- 
2.43.0


From 841c8aa1b8cb810f020094c229a697cba6d6b234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:33 +0000
Subject: [PATCH 42/91] fix: tasks waited forever to follow tasks to an engine
 that is gone, refused them, or is not one of their targets

---
 ipyparallel/controller/task_scheduler.py | 43 +++++++++++++++---------
 1 file changed, 27 insertions(+), 16 deletions(-)

diff --git a/ipyparallel/controller/task_scheduler.py b/ipyparallel/controller/task_scheduler.py
index 80332c9..0cd170e 100644
--- a/ipyparallel/controller/task_scheduler.py
+++ b/ipyparallel/controller/task_scheduler.py
@@ -510,6 +510,29 @@ class TaskScheduler(Scheduler):
                 available.append(idx)
         return available
 
+    def follow_impossible(self, job):
+        """check whether the location dependencies of a job can never be met"""
+        usable = set(self.targets).difference(job.blacklist)
+        if job.targets:
+            usable.intersection_update(job.targets)
+        if job.follow.all:
+            relevant = set()
+            if job.follow.success:
+                relevant = self.all_completed
+            if job.follow.failure:
+                relevant = relevant.union(self.all_failed)
+            # unreachable tasks fail without ever having a destination
+            dests = {
+                self.destinations.get(m) for m in job.follow.intersection(relevant)
+            }
+            return len(dests) > 1 or not dests.issubset(usable)
+        if not job.follow.issubset(self.all_done):
+            return False
+        return not any(
+            job.follow.check(self.completed[target], self.failed[target])
+            for target in usable
+        )
+
     def maybe_run(self, job):
         """check location dependencies, and run if they are met."""
         msg_id = job.msg_id
@@ -539,22 +562,10 @@ class TaskScheduler(Scheduler):
 
             if not indices:
                 # couldn't run
-                if job.follow.all:
-                    # check follow for impossibility
-                    dests = set()
-                    relevant = set()
-                    if job.follow.success:
-                        relevant = self.all_completed
-                    if job.follow.failure:
-                        relevant = relevant.union(self.all_failed)
-                    for m in job.follow.intersection(relevant):
-                        # unreachable tasks fail without ever having a destination
-                        if m in self.destinations:
-                            dests.add(self.destinations[m])
-                    if len(dests) > 1:
-                        self.queue_map[msg_id] = job
-                        self.fail_unreachable(msg_id)
-                        return False
+                if job.follow and self.follow_impossible(job):
+                    self.queue_map[msg_id] = job
+                    self.fail_unreachable(msg_id)
+                    return False
                 if job.targets:
                     # check blacklist+targets for impossibility
                     job.targets.difference_update(job.blacklist)
-- 
2.43.0


From 1ab92033f474f0e8c2b0aec6f680631cd86597c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:30 +0000
Subject: [PATCH 43/91] fix: a failed call added the whole history of the
 client to the history and outstanding messages of the view

---
 ipyparallel/client/view.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ipyparallel/client/view.py b/ipyparallel/client/view.py
index b16e385..f493af8 100644
--- a/ipyparallel/client/view.py
+++ b/ipyparallel/client/view.py
@@ -39,7 +39,8 @@ def save_ids(f, self, *args, **kwargs):
         ret = f(self, *args, **kwargs)
     finally:
         nmsgs = len(self.client.history) - n_previous
-        msg_ids = self.client.history[-nmsgs:]
+        # nothing is sent when the call fails
+        msg_ids = self.client.history[-nmsgs:] if nmsgs > 0 else []
         self.history.extend(msg_ids)
         self.outstanding.update(msg_ids)
     return ret
-- 
2.43.0


From 26c7c838afbad8f87422b49858a74feb54cc0ba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:46 +0000
Subject: [PATCH 44/91] fix: callers of wait_for_engines() were not all
 notified when several were waiting

---
 ipyparallel/client/client.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ipyparallel/client/client.py b/ipyparallel/client/client.py
index 0c3928d..c8a630d 100644
--- a/ipyparallel/client/client.py
+++ b/ipyparallel/client/client.py
@@ -852,7 +852,7 @@ class Client(HasTraits):
         self._update_engines(d)
         event = {'event': 'register'}
         event.update(content)
-        for callback in self._registration_callbacks:
+        for callback in list(self._registration_callbacks):
             callback(event)
 
     def _unregister_engine(self, msg):
@@ -871,7 +871,7 @@ class Client(HasTraits):
 
         event = {"event": "unregister"}
         event.update(content)
-        for callback in self._registration_callbacks:
+        for callback in list(self._registration_callbacks):
             callback(event)
 
     def _handle_stranded_msgs(self, eid, uuid):
-- 
2.43.0


From beb22241c37115eb33d95293709e4a1417890aff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:56 +0000
Subject: [PATCH 45/91] fix: a late reply does not change the outcome of a call
 that was reported lost

---
 ipyparallel/client/client.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/ipyparallel/client/client.py b/ipyparallel/client/client.py
index c8a630d..cf13a42 100644
--- a/ipyparallel/client/client.py
+++ b/ipyparallel/client/client.py
@@ -937,6 +937,9 @@ class Client(HasTraits):
                 print(f"got stale result: {msg_id}")
             else:
                 print(f"got unknown result: {msg_id}")
+            if future is not None and future.done():
+                # settled already, e.g. its engine was reported dead
+                return
         else:
             self.outstanding.remove(msg_id)
 
@@ -996,10 +999,11 @@ class Client(HasTraits):
         if msg_id not in self.outstanding:
             if msg_id in self.history:
                 print(f"got stale result: {msg_id}")
-                print(self.results[msg_id])
-                print(msg)
             else:
                 print(f"got unknown result: {msg_id}")
+            if future is not None and future.done():
+                # settled already, e.g. its engine was reported dead
+                return
         else:
             self.outstanding.remove(msg_id)
         content = msg['content']
-- 
2.43.0


From b5943094f8ac8ab3cf02fcc741d6703ea227879a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:32 +0000
Subject: [PATCH 46/91] fix: get(return_exceptions=True) failed on maps with
 errors, unless the map was made with return_exceptions

---
 ipyparallel/client/asyncresult.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/ipyparallel/client/asyncresult.py b/ipyparallel/client/asyncresult.py
index 05fdbe0..ebf8dbd 100644
--- a/ipyparallel/client/asyncresult.py
+++ b/ipyparallel/client/asyncresult.py
@@ -22,6 +22,7 @@ from IPython.display import display, display_pretty, publish_display_data
 from ipyparallel import error
 from ipyparallel.util import _parse_date, compare_datetimes, progress, utcnow
 
+from . import map as Map
 from .futures import MessageFuture, multi_future
 
 
@@ -1090,18 +1091,17 @@ class AsyncMapResult(AsyncResult):
 
     def _reconstruct_result(self, res):
         """Perform the gather on the actual results."""
-        if self._return_exceptions:
-            if any(isinstance(r, Exception) for r in res):
-                # running with _return_exceptions,
-                # cannot reconstruct original
-                # use simple chain iterable
-                flattened = []
-                for r in res:
-                    if isinstance(r, Exception):
-                        flattened.append(r)
-                    else:
-                        flattened.extend(r)
-                return flattened
+        if any(isinstance(r, Exception) for r in res):
+            # running with return_exceptions,
+            # cannot reconstruct original
+            # use simple chain iterable
+            flattened = []
+            for r in res:
+                if Map.mappable(r):
+                    flattened.extend(r)
+                else:
+                    flattened.append(r)
+            return flattened
         return self._mapObject.joinPartitions(res)
 
     # asynchronous iterator:
-- 
2.43.0


From aad9b11658018ee2e5df19ea92a88b0c17650e9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:28 +0000
Subject: [PATCH 47/91] fix: iterating over a map before it was done gave other
 elements, or another order, than afterwards

---
 ipyparallel/client/asyncresult.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/ipyparallel/client/asyncresult.py b/ipyparallel/client/asyncresult.py
index ebf8dbd..2ac6e9e 100644
--- a/ipyparallel/client/asyncresult.py
+++ b/ipyparallel/client/asyncresult.py
@@ -1115,16 +1115,18 @@ class AsyncMapResult(AsyncResult):
         for use in iterator methods
         """
         rlist = child.result()
-        if not isinstance(rlist, list):
+        if not Map.mappable(rlist):
             rlist = [rlist]
-        self._collect_exceptions(rlist)
+            self._collect_exceptions(rlist)
         yield from rlist
 
     # asynchronous ordered iterator:
     def _ordered_iter(self):
         """iterator for results *as they arrive*, preserving submission order."""
+        # elements of round-robin partitions are not in order until all are there
+        timeout = None if isinstance(self._mapObject, Map.RoundRobinMap) else 0
         try:
-            rlist = self.get(0)
+            rlist = self.get(timeout)
         except TimeoutError:
             # wait for each result individually
             evt = Event()
-- 
2.43.0


From c752d65eb570779490508e42a67f68081e8bc43d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:13 +0000
Subject: [PATCH 48/91] fix: executor.shutdown() hung forever after an imap
 raised an error or was dropped

---
 ipyparallel/client/view.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/ipyparallel/client/view.py b/ipyparallel/client/view.py
index f493af8..f52c8cd 100644
--- a/ipyparallel/client/view.py
+++ b/ipyparallel/client/view.py
@@ -1705,10 +1705,14 @@ class LoadBalancedView(View):
         def iter_results():
             nonlocal outstanding
             with consumer_pool:
-                while not iterator_done:
-                    # yield results as they become ready
-                    for ready_ar in wait_for_ready():
-                        yield ready_ar.get(return_exceptions=return_exceptions)
+                try:
+                    while not iterator_done:
+                        # yield results as they become ready
+                        for ready_ar in wait_for_ready():
+                            yield ready_ar.get(return_exceptions=return_exceptions)
+                finally:
+                    # an error was raised, or the iterator was dropped: no more inputs
+                    signal_done()
 
             # yield any remaining results
             if ordered:
-- 
2.43.0


From f8018165bc70083d6f1e529760bf604ade743d45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:13 +0000
Subject: [PATCH 49/91] fix: errors in the input of imap were reported as
 TypeError

---
 ipyparallel/client/view.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ipyparallel/client/view.py b/ipyparallel/client/view.py
index f52c8cd..5c22e64 100644
--- a/ipyparallel/client/view.py
+++ b/ipyparallel/client/view.py
@@ -1667,7 +1667,7 @@ class LoadBalancedView(View):
                 # exception consuming iterator, propagate
                 ar = concurrent.futures.Future()
                 # mock get so it gets re-raised when awaited
-                ar.get = lambda *args: ar.result()
+                ar.get = lambda *args, **kwargs: ar.result()
                 ar.set_exception(e)
                 with outstanding_lock:
                     add_outstanding(ar)
-- 
2.43.0


From 98724eed5111d5b66172e3a20a0711b55e365d68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:13 +0000
Subject: [PATCH 50/91] fix: executor.shutdown() raised AttributeError, except
 on load-balanced views

---
 ipyparallel/client/view.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ipyparallel/client/view.py b/ipyparallel/client/view.py
index 5c22e64..5e2a157 100644
--- a/ipyparallel/client/view.py
+++ b/ipyparallel/client/view.py
@@ -1784,7 +1784,7 @@ class ViewExecutor(concurrent.futures.Executor):
         if wait:
             # wait for *submission* of outstanding maps,
             # otherwise view.wait won't know what to wait for
-            outstanding_maps = getattr(self.view, "_outstanding_maps")
+            outstanding_maps = getattr(self.view, "_outstanding_maps", None)
             if outstanding_maps:
                 while outstanding_maps:
                     time.sleep(0.1)
-- 
2.43.0


From 885bcadbf1f16c21efb5becd6bdb1f064f036220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:13 +0000
Subject: [PATCH 51/91] fix: BroadcastView.map called the function with items
 that do not belong together if sequences differ in length

---
 ipyparallel/client/view.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/ipyparallel/client/view.py b/ipyparallel/client/view.py
index 5e2a157..7218986 100644
--- a/ipyparallel/client/view.py
+++ b/ipyparallel/client/view.py
@@ -11,6 +11,7 @@ import time
 import warnings
 from collections import deque
 from contextlib import contextmanager
+from itertools import islice
 
 from decorator import decorator
 from IPython import get_ipython
@@ -1151,15 +1152,23 @@ class BroadcastView(DirectView):
         dist = 'b'
         map_object = Map.dists[dist]()
 
-        seq_names = []
+        sequences = list(sequences)
         for i, seq in enumerate(sequences):
-            seq_name = f"_seq_{map_key}_{i}"
-            seq_names.append(seq_name)
             try:
                 len(seq)
             except Exception:
                 # cast length-less sequences (e.g. Range) to list
-                seq = list(seq)
+                sequences[i] = list(seq)
+        # like builtin map, stop with the shortest sequence
+        # (engines must receive matching partitions)
+        length = min(len(seq) for seq in sequences)
+
+        seq_names = []
+        for i, seq in enumerate(sequences):
+            seq_name = f"_seq_{map_key}_{i}"
+            seq_names.append(seq_name)
+            if len(seq) > length:
+                seq = list(islice(seq, length))
 
             ar = self.scatter(seq_name, seq, dist=dist, block=False, track=track)
             scatter_chunk_sizes = ar._scatter_lengths
-- 
2.43.0


From acf1b9e21af870c4a3c8aa9bb7f64dda73e33afd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:13 +0000
Subject: [PATCH 52/91] fix: BroadcastView.map failed when the view is blocking

---
 ipyparallel/client/view.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ipyparallel/client/view.py b/ipyparallel/client/view.py
index 7218986..e596465 100644
--- a/ipyparallel/client/view.py
+++ b/ipyparallel/client/view.py
@@ -1174,7 +1174,7 @@ class BroadcastView(DirectView):
             scatter_chunk_sizes = ar._scatter_lengths
 
         # submit the map tasks as an actual broadcast
-        ar = self.apply(self._broadcast_map, f, *seq_names)
+        ar = self.apply_async(self._broadcast_map, f, *seq_names)
         ar.owner = False
         # re-wrap messages in an AsyncMapResult to get map API
         # this is where the 'gather' reconstruction happens
-- 
2.43.0


From 1ed3d12bb5e35486b1ba98e68ff11526f9570f97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:13 +0000
Subject: [PATCH 53/91] fix: maps over dicts (and round-robin maps over sets)
 failed because they cannot be sliced

---
 ipyparallel/client/map.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/ipyparallel/client/map.py b/ipyparallel/client/map.py
index 25ed377..e4384ed 100644
--- a/ipyparallel/client/map.py
+++ b/ipyparallel/client/map.py
@@ -52,8 +52,8 @@ class Map:
 
         try:
             result = seq[low:high]
-        except TypeError:
-            # some objects (iterators) can't be sliced,
+        except (TypeError, KeyError):
+            # some objects (iterators, sets, dicts) can't be sliced,
             # use islice:
             result = list(islice(seq, low, high))
 
@@ -82,7 +82,10 @@ class RoundRobinMap(Map):
 
     def getPartition(self, seq, p, q, n=None):
         n = len(seq) if n is None else n
-        return seq[p:n:q]
+        try:
+            return seq[p:n:q]
+        except (TypeError, KeyError):
+            return list(islice(seq, p, n, q))
 
     def joinPartitions(self, listOfPartitions):
         testObject = listOfPartitions[0]
-- 
2.43.0


From 210e888a3b8faff6f1aad1878fee2798d24755f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:13 +0000
Subject: [PATCH 54/91] fix: maps over empty sequences returned a list instead
 of an AsyncMapResult when not blocking

---
 ipyparallel/client/asyncresult.py    |  2 +-
 ipyparallel/client/map.py            |  4 ++++
 ipyparallel/client/remotefunction.py | 11 ++++++++++-
 3 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/ipyparallel/client/asyncresult.py b/ipyparallel/client/asyncresult.py
index 2ac6e9e..e105d67 100644
--- a/ipyparallel/client/asyncresult.py
+++ b/ipyparallel/client/asyncresult.py
@@ -86,7 +86,7 @@ class AsyncResult(Future):
         self._return_exceptions = return_exceptions
         self._chunk_sizes = chunk_sizes or {}
 
-        if isinstance(children[0], str):
+        if children and isinstance(children[0], str):
             self.msg_ids = children
             self._children = []
         else:
diff --git a/ipyparallel/client/map.py b/ipyparallel/client/map.py
index e4384ed..328673c 100644
--- a/ipyparallel/client/map.py
+++ b/ipyparallel/client/map.py
@@ -63,6 +63,8 @@ class Map:
         return self.concatenate(listOfPartitions)
 
     def concatenate(self, listOfPartitions):
+        if not listOfPartitions:
+            return []
         testObject = listOfPartitions[0]
         # First see if we have a known array type
         if is_array(testObject):
@@ -88,6 +90,8 @@ class RoundRobinMap(Map):
             return list(islice(seq, p, n, q))
 
     def joinPartitions(self, listOfPartitions):
+        if not listOfPartitions:
+            return []
         testObject = listOfPartitions[0]
         # First see if we have a known array type
         if is_array(testObject):
diff --git a/ipyparallel/client/remotefunction.py b/ipyparallel/client/remotefunction.py
index 5b7a935..9cf5158 100644
--- a/ipyparallel/client/remotefunction.py
+++ b/ipyparallel/client/remotefunction.py
@@ -235,7 +235,16 @@ class ParallelFunction(RemoteFunction):
 
         if maxlen == 0:
             # nothing to iterate over
-            return []
+            if self.block:
+                return []
+            return AsyncMapResult(
+                client,
+                [],
+                self.mapObject,
+                fname=getname(self.func),
+                ordered=self.ordered,
+                return_exceptions=self.return_exceptions,
+            )
 
         # check that the length of sequences match
         if not _mapping and minlen != maxlen:
-- 
2.43.0


From fe2816ee9a10b6f959c144b46fe0230eaa667eab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:06 +0000
Subject: [PATCH 55/91] fix: functions with arrays in their closure or default
 arguments could not be sent

---
 ipyparallel/serialize/canning.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/ipyparallel/serialize/canning.py b/ipyparallel/serialize/canning.py
index daadc65..f158b57 100644
--- a/ipyparallel/serialize/canning.py
+++ b/ipyparallel/serialize/canning.py
@@ -138,6 +138,18 @@ class CannedObject:
             self.hook(obj, g)
         return self.obj
 
+    def __getstate__(self):
+        # buffers that are not sent separately,
+        # e.g. of arrays in closures and default arguments,
+        # must be bytes to be pickled
+        state = self.__dict__.copy()
+        if 'buffers' in state:
+            state['buffers'] = [
+                buf.tobytes() if isinstance(buf, memoryview) else buf
+                for buf in state['buffers']
+            ]
+        return state
+
 
 class Reference(CannedObject):
     """object for wrapping a remote reference by name."""
-- 
2.43.0


From 4eeb54c0cff9b27df76146797b996aa934845067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:06 +0000
Subject: [PATCH 56/91] fix: arrays of datetimes, and structured arrays with
 titles, could not be sent

---
 ipyparallel/serialize/canning.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/ipyparallel/serialize/canning.py b/ipyparallel/serialize/canning.py
index f158b57..2109547 100644
--- a/ipyparallel/serialize/canning.py
+++ b/ipyparallel/serialize/canning.py
@@ -337,22 +337,22 @@ class CannedArray(CannedObject):
         self.pickled = False
         if sum(obj.shape) == 0:
             self.pickled = True
-        elif obj.dtype == 'O':
+        elif obj.dtype.hasobject:
             # can't handle object dtype with buffer approach
             self.pickled = True
-        elif obj.dtype.fields and any(
-            dt == 'O' for dt, sz in obj.dtype.fields.values()
-        ):
-            self.pickled = True
+        if not self.pickled:
+            # ensure contiguous
+            obj = ascontiguousarray(obj, dtype=None)
+            try:
+                self.buffers = [memoryview(obj)]
+            except ValueError:
+                # not all types support the buffer protocol, e.g. datetimes
+                self.pickled = True
         if self.pickled:
             # just pickle it
             from . import serialize
 
             self.buffers = [serialize.pickle.dumps(obj, serialize.PICKLE_PROTOCOL)]
-        else:
-            # ensure contiguous
-            obj = ascontiguousarray(obj, dtype=None)
-            self.buffers = [memoryview(obj)]
 
     def get_object(self, g=None):
         from numpy import frombuffer
-- 
2.43.0


From 1b0aa3aafe6110517c4fd48776d39de4a3dd807e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:06 +0000
Subject: [PATCH 57/91] fix: structured arrays with titles or padding changed
 their type when they were sent

---
 ipyparallel/serialize/canning.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ipyparallel/serialize/canning.py b/ipyparallel/serialize/canning.py
index 2109547..21d0cde 100644
--- a/ipyparallel/serialize/canning.py
+++ b/ipyparallel/serialize/canning.py
@@ -333,7 +333,7 @@ class CannedArray(CannedObject):
         from numpy import ascontiguousarray
 
         self.shape = obj.shape
-        self.dtype = obj.dtype.descr if obj.dtype.fields else obj.dtype.str
+        self.dtype = obj.dtype
         self.pickled = False
         if sum(obj.shape) == 0:
             self.pickled = True
-- 
2.43.0


From 8109f2c4f966dd0547ad5e741597740370b49914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:06 +0000
Subject: [PATCH 58/91] fix: functions in keyword-only default arguments lost
 their globals

---
 ipyparallel/serialize/canning.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ipyparallel/serialize/canning.py b/ipyparallel/serialize/canning.py
index 21d0cde..890e244 100644
--- a/ipyparallel/serialize/canning.py
+++ b/ipyparallel/serialize/canning.py
@@ -231,7 +231,7 @@ class CannedFunction(CannedObject):
             defaults = None
 
         if self.kwdefaults:
-            kwdefaults = uncan_dict(self.kwdefaults)
+            kwdefaults = uncan_dict(self.kwdefaults, g)
         else:
             kwdefaults = None
         if self.annotations:
-- 
2.43.0


From e8cf237e39d5618b00d380bbb25b8dd1900960b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:06 +0000
Subject: [PATCH 59/91] fix: dicts whose keys cannot be compared could not be
 sent, and dicts lost their order

---
 ipyparallel/serialize/serialize.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ipyparallel/serialize/serialize.py b/ipyparallel/serialize/serialize.py
index 327339b..3fbd7f7 100644
--- a/ipyparallel/serialize/serialize.py
+++ b/ipyparallel/serialize/serialize.py
@@ -102,7 +102,7 @@ def serialize_object(obj, buffer_threshold=MAX_BYTES, item_threshold=MAX_ITEMS):
             buffers.extend(_extract_buffers(c, buffer_threshold))
     elif istype(obj, dict) and len(obj) < item_threshold:
         cobj = {}
-        for k in sorted(obj):
+        for k in obj:
             c = can(obj[k])
             buffers.extend(_extract_buffers(c, buffer_threshold))
             cobj[k] = c
@@ -135,7 +135,8 @@ def deserialize_object(buffers, g=None):
         newobj = uncan_sequence(canned, g)
     elif istype(canned, dict) and len(canned) < MAX_ITEMS:
         newobj = {}
-        for k in sorted(canned):
+        # same order as in serialize_object: pickle preserves it
+        for k in canned:
             c = canned[k]
             _restore_buffers(c, bufs)
             newobj[k] = uncan(c, g)
-- 
2.43.0


From f656d43048e3f8470d157d94c17f3e481ed41306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:26 +0000
Subject: [PATCH 60/91] fix: gathering arrays in round robin turned everything
 into floats

---
 ipyparallel/client/map.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ipyparallel/client/map.py b/ipyparallel/client/map.py
index 328673c..02c7b67 100644
--- a/ipyparallel/client/map.py
+++ b/ipyparallel/client/map.py
@@ -104,7 +104,7 @@ class RoundRobinMap(Map):
         test = listOfPartitions[0]
         shape = list(test.shape)
         shape[0] = sum(p.shape[0] for p in listOfPartitions)
-        A = numpy.ndarray(shape)
+        A = numpy.ndarray(shape, dtype=numpy.result_type(*listOfPartitions))
         N = shape[0]
         q = len(listOfPartitions)
         for p, part in enumerate(listOfPartitions):
-- 
2.43.0


From cbd34ff866bb57445fd8c476eca30fbec1d46478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:26 +0000
Subject: [PATCH 61/91] fix: gathering lists in round robin lost elements when
 the first part was not the longest

---
 ipyparallel/client/map.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ipyparallel/client/map.py b/ipyparallel/client/map.py
index 02c7b67..88d6f6d 100644
--- a/ipyparallel/client/map.py
+++ b/ipyparallel/client/map.py
@@ -113,7 +113,7 @@ class RoundRobinMap(Map):
 
     def flatten_list(self, listOfPartitions):
         flat = []
-        for i in range(len(listOfPartitions[0])):
+        for i in range(max(len(part) for part in listOfPartitions)):
             flat.extend([part[i] for part in listOfPartitions if len(part) > i])
         return flat
 
-- 
2.43.0


From b34d9c32834e137d55e67c98365c98547f8a0160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:10 +0000
Subject: [PATCH 62/91] fix: gathering a scattered range returned a list of
 ranges

---
 ipyparallel/client/map.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ipyparallel/client/map.py b/ipyparallel/client/map.py
index 88d6f6d..6ae3210 100644
--- a/ipyparallel/client/map.py
+++ b/ipyparallel/client/map.py
@@ -70,7 +70,7 @@ class Map:
         if is_array(testObject):
             return numpy.concatenate(listOfPartitions)
         # Next try for Python sequence types
-        if isinstance(testObject, (list, tuple)):
+        if isinstance(testObject, (list, tuple, range)):
             return list(chain.from_iterable(listOfPartitions))
         # If we have scalars, just return listOfPartitions
         return listOfPartitions
@@ -96,7 +96,7 @@ class RoundRobinMap(Map):
         # First see if we have a known array type
         if is_array(testObject):
             return self.flatten_array(listOfPartitions)
-        if isinstance(testObject, (list, tuple)):
+        if isinstance(testObject, (list, tuple, range)):
             return self.flatten_list(listOfPartitions)
         return listOfPartitions
 
-- 
2.43.0


From 902b1dd9ff798c78c1eefca420d0ddefe301333e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:00 +0000
Subject: [PATCH 63/91] fix: results whose parts cannot be joined never became
 ready

---
 ipyparallel/client/asyncresult.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ipyparallel/client/asyncresult.py b/ipyparallel/client/asyncresult.py
index e105d67..1b942b3 100644
--- a/ipyparallel/client/asyncresult.py
+++ b/ipyparallel/client/asyncresult.py
@@ -529,12 +529,13 @@ class AsyncResult(Future):
                     raise r
             else:
                 results = self._collect_exceptions(results)
+            result = self._reconstruct_result(results)
         except Exception as e:
             self._success = False
             self.set_exception(e)
         else:
             self._success = True
-            self.set_result(self._reconstruct_result(results))
+            self.set_result(result)
 
     def _collect_exceptions(self, results):
         """Wrap Exceptions in a CompositeError
-- 
2.43.0


From 7d5a8370689ec0ab370a7ce8e584f968a53d2ee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:00 +0000
Subject: [PATCH 64/91] fix: gathering failed when flattening had left
 sequences and single elements

---
 ipyparallel/client/map.py | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/ipyparallel/client/map.py b/ipyparallel/client/map.py
index 6ae3210..30d990b 100644
--- a/ipyparallel/client/map.py
+++ b/ipyparallel/client/map.py
@@ -26,6 +26,27 @@ def is_array(obj):
     return isinstance(obj, numpy.ndarray)
 
 
+sequence_types = (list, tuple, range)
+
+
+def _wrap_elements(parts):
+    """Make all parts sequences if the first is one
+
+    Single elements replace sequences of length one when scattered with flatten=True.
+    """
+    test = parts[0]
+    if is_array(test):
+        return [
+            numpy.expand_dims(p, 0) if numpy.ndim(p) == test.ndim - 1 else p
+            for p in parts
+        ]
+    if isinstance(test, sequence_types):
+        return [
+            p if isinstance(p, sequence_types) or is_array(p) else [p] for p in parts
+        ]
+    return parts
+
+
 class Map:
     """A class for partitioning a sequence using a map."""
 
@@ -65,12 +86,13 @@ class Map:
     def concatenate(self, listOfPartitions):
         if not listOfPartitions:
             return []
+        listOfPartitions = _wrap_elements(listOfPartitions)
         testObject = listOfPartitions[0]
         # First see if we have a known array type
         if is_array(testObject):
             return numpy.concatenate(listOfPartitions)
         # Next try for Python sequence types
-        if isinstance(testObject, (list, tuple, range)):
+        if isinstance(testObject, sequence_types):
             return list(chain.from_iterable(listOfPartitions))
         # If we have scalars, just return listOfPartitions
         return listOfPartitions
@@ -92,11 +114,12 @@ class RoundRobinMap(Map):
     def joinPartitions(self, listOfPartitions):
         if not listOfPartitions:
             return []
+        listOfPartitions = _wrap_elements(listOfPartitions)
         testObject = listOfPartitions[0]
         # First see if we have a known array type
         if is_array(testObject):
             return self.flatten_array(listOfPartitions)
-        if isinstance(testObject, (list, tuple, range)):
+        if isinstance(testObject, sequence_types):
             return self.flatten_list(listOfPartitions)
         return listOfPartitions
 
-- 
2.43.0


From a486241d9efe1e6d6fc556c227bd4e0307042402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:37 +0000
Subject: [PATCH 65/91] fix: building an AsyncResult from cached results used a
 missing attribute

---
 ipyparallel/client/asyncresult.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ipyparallel/client/asyncresult.py b/ipyparallel/client/asyncresult.py
index 1b942b3..7b12e38 100644
--- a/ipyparallel/client/asyncresult.py
+++ b/ipyparallel/client/asyncresult.py
@@ -121,7 +121,7 @@ class AsyncResult(Future):
                     if result is not _default:
                         future = MessageFuture(msg_id)
                         future.output = Future()
-                        future.output.metadata = self.client.metadata[msg_id]
+                        future.output.metadata = self._client.metadata[msg_id]
                         future.set_result(result)
                         future.output.set_result(None)
                 if not future:
-- 
2.43.0


From 30839c9351a8f617acbadb29013aa05eb1687260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:37 +0000
Subject: [PATCH 66/91] fix: get_result lost requests, or failed, for several
 or local requests

---
 ipyparallel/client/client.py | 24 ++++++++++--------------
 1 file changed, 10 insertions(+), 14 deletions(-)

diff --git a/ipyparallel/client/client.py b/ipyparallel/client/client.py
index cf13a42..60dab49 100644
--- a/ipyparallel/client/client.py
+++ b/ipyparallel/client/client.py
@@ -2415,14 +2415,15 @@ class Client(HasTraits):
             jobs = [jobs]
         else:
             single = False
+        # one per message, in order: its Future,
+        # or its msg_id if its result must be requested from the Hub
         futures = []
-        msg_ids = []
         for job in jobs:
             if isinstance(job, int):
                 job = self.history[job]
             if isinstance(job, str):
                 if job in self._futures:
-                    futures.append(job)
+                    futures.append(self._futures[job])
                 elif job in self.results:
                     f = MessageFuture(job)
                     f.set_result(self.results[job])
@@ -2431,22 +2432,17 @@ class Client(HasTraits):
                     f.output.set_result(None)
                     futures.append(f)
                 else:
-                    msg_ids.append(job)
+                    futures.append(job)
             elif isinstance(job, AsyncResult):
-                if job._children:
-                    futures.extend(job._children)
-                else:
-                    msg_ids.extend(job.msg_ids)
+                futures.extend(job._children or job.msg_ids)
             else:
                 raise TypeError(f"Expected msg_id, int, or AsyncResult, got {job!r}")
-        if msg_ids:
-            if single:
-                msg_ids = msg_ids[0]
-            return AsyncHubResult(self, msg_ids, owner=owner)
+        single = single and len(futures) == 1
+        if any(isinstance(f, str) for f in futures):
+            msg_ids = [f if isinstance(f, str) else f.msg_id for f in futures]
+            return AsyncHubResult(self, msg_ids[0] if single else msg_ids, owner=owner)
         else:
-            if single and futures:
-                futures = futures[0]
-            return AsyncResult(self, futures, owner=owner)
+            return AsyncResult(self, futures[0] if single else futures, owner=owner)
 
     def purge_local_results(self, jobs=[], targets=[]):
         """Clears the client caches of results and their metadata.
-- 
2.43.0


From f319efbf638c39d2e28b30b7bfb78b76449a0552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:37 +0000
Subject: [PATCH 67/91] fix: result_status skipped requests that followed
 cached ones

---
 ipyparallel/client/client.py | 29 ++++++++++++++++++++---------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/ipyparallel/client/client.py b/ipyparallel/client/client.py
index 60dab49..c3d6653 100644
--- a/ipyparallel/client/client.py
+++ b/ipyparallel/client/client.py
@@ -2270,15 +2270,30 @@ class Client(HasTraits):
         """
         theids = self._msg_ids_from_jobs(msg_ids)
 
+        content, failures = self._result_status(theids, status_only)
+        if len(set(theids)) == 1 and failures:
+            raise failures[0]
+
+        error.collect_exceptions(failures, "result_status")
+        return content
+
+    def _result_status(self, theids, status_only):
+        """Implementation of result_status
+
+        Returns the status, and the errors that were retrieved
+        """
         completed = []
         local_results = {}
+        remote_ids = []
 
         # comment this block out to temporarily disable local shortcut:
-        for msg_id in theids:
+        for msg_id in dict.fromkeys(theids):
             if msg_id in self.results:
                 completed.append(msg_id)
                 local_results[msg_id] = self.results[msg_id]
-                theids.remove(msg_id)
+            else:
+                remote_ids.append(msg_id)
+        theids = remote_ids
 
         if theids:  # some not locally cached
             content = dict(msg_ids=theids, status_only=status_only)
@@ -2294,10 +2309,10 @@ class Client(HasTraits):
 
         content['completed'].extend(completed)
 
+        failures = []
         if status_only:
-            return content
+            return content, failures
 
-        failures = []
         # load cached results into result:
         content.update(local_results)
 
@@ -2340,11 +2355,7 @@ class Client(HasTraits):
                 self.results[msg_id] = res
                 content[msg_id] = res
 
-        if len(theids) == 1 and failures:
-            raise failures[0]
-
-        error.collect_exceptions(failures, "result_status")
-        return content
+        return content, failures
 
     def queue_status(self, targets='all', verbose=False):
         """Fetch the status of engine queues.
-- 
2.43.0


From e01ef6bb24a96c0564c132f0545b35454e47e913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:37 +0000
Subject: [PATCH 68/91] fix: results from the hub failed when asked for errors,
 twice, or with return_when

---
 ipyparallel/client/asyncresult.py | 58 +++++++++++++++++++++++++------
 1 file changed, 48 insertions(+), 10 deletions(-)

diff --git a/ipyparallel/client/asyncresult.py b/ipyparallel/client/asyncresult.py
index 7b12e38..b306c07 100644
--- a/ipyparallel/client/asyncresult.py
+++ b/ipyparallel/client/asyncresult.py
@@ -1165,10 +1165,22 @@ class AsyncHubResult(AsyncResult):
 
     def _init_futures(self):
         """disable Future-based resolution of Hub results"""
-        pass
+        # requests are not ours to send
+        self._sent_event.set()
+
+    def wait_for_output(self, timeout=-1):
+        """Output comes with the results"""
+        return self.wait(timeout)
 
     def wait(self, timeout=-1, return_when=None):
-        """wait for result to complete."""
+        """wait for result to complete.
+
+        With `return_when`, there are no partial results:
+        everything is in `done` when all results are there, or else in `pending`.
+        """
+        if return_when is not None:
+            ready = self.wait(timeout)
+            return ({self}, set()) if ready else (set(), {self})
         start = time.perf_counter()
         if timeout and timeout < 0:
             timeout = None
@@ -1177,16 +1189,28 @@ class AsyncHubResult(AsyncResult):
         local_ids = [m for m in self.msg_ids if m in self._client.outstanding]
         local_ready = self._client.wait(local_ids, timeout)
         if local_ready:
-            remote_ids = [m for m in self.msg_ids if m not in self._client.results]
+            local = {}
+            for msg_id in self.msg_ids:
+                future = self._client._futures.get(msg_id)
+                if future is not None and future.done():
+                    local[msg_id] = future
+            remote_ids = [
+                m
+                for m in self.msg_ids
+                if m not in local and m not in self._client.results
+            ]
             if not remote_ids:
                 self._ready = True
             else:
-                rdict = self._client.result_status(remote_ids, status_only=False)
+                # errors are raised when all results are there
+                rdict, _ = self._client._result_status(remote_ids, status_only=False)
                 pending = rdict['pending']
                 while pending and (
                     timeout is None or time.perf_counter() < start + timeout
                 ):
-                    rdict = self._client.result_status(remote_ids, status_only=False)
+                    rdict, _ = self._client._result_status(
+                        remote_ids, status_only=False
+                    )
                     pending = rdict['pending']
                     if pending:
                         time.sleep(0.1)
@@ -1194,23 +1218,37 @@ class AsyncHubResult(AsyncResult):
                     self._ready = True
         if self._ready:
             self._output_ready = True
+            self._output_event.set()
+            results = self._raw_results = [
+                local[m].result() if m in local else self._client.results[m]
+                for m in self.msg_ids
+            ]
+            self._metadata = [
+                local[m].output.metadata
+                if hasattr(local.get(m), 'output')
+                else self._client.metadata[m]
+                for m in self.msg_ids
+            ]
             try:
-                results = list(map(self._client.results.get, self.msg_ids))
                 if self._single_result:
                     r = results[0]
                     if isinstance(r, Exception) and not self._return_exceptions:
                         raise r
                 else:
                     results = self._collect_exceptions(results)
-                self._success = True
-                self.set_result(self._reconstruct_result(results))
+                result = self._reconstruct_result(results)
             except Exception as e:
                 self._success = False
                 self.set_exception(e)
+            else:
+                self._success = True
+                self.set_result(result)
             finally:
                 if self.owner:
-                    [self._client.metadata.pop(mid) for mid in self.msg_ids]
-                    [self._client.results.pop(mid) for mid in self.msg_ids]
+                    for msg_id in self.msg_ids:
+                        self._client.metadata.pop(msg_id, None)
+                        self._client.results.pop(msg_id, None)
+                self._ready_event.set()
 
         return self._ready
 
-- 
2.43.0


From 391163d52e01221bb65ac926f0bb8652598a45b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:37 +0000
Subject: [PATCH 69/91] fix: purge_local_results(targets=...) purged nothing

---
 ipyparallel/client/client.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ipyparallel/client/client.py b/ipyparallel/client/client.py
index c3d6653..1903be7 100644
--- a/ipyparallel/client/client.py
+++ b/ipyparallel/client/client.py
@@ -2389,11 +2389,13 @@ class Client(HasTraits):
         """Build a list of msg_ids from the list of engine targets"""
         if not targets:  # needed as _build_targets otherwise uses all engines
             return []
-        target_ids = self._build_targets(targets)[0]
+        engine_uuids = {
+            ident.decode("utf8") for ident in self._build_targets(targets)[0]
+        }
         return [
             md_id
             for md_id in self.metadata
-            if self.metadata[md_id]["engine_uuid"] in target_ids
+            if self.metadata[md_id]["engine_uuid"] in engine_uuids
         ]
 
     def _msg_ids_from_jobs(self, jobs=None):
-- 
2.43.0


From b22cad85d3811c6d1728da920495cdef7e51b153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:54 +0000
Subject: [PATCH 70/91] fix: purging results of engine 0, or of the first
 request, was refused; purging by target after coalesced results

---
 ipyparallel/client/client.py | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/ipyparallel/client/client.py b/ipyparallel/client/client.py
index 1903be7..0f8c3e8 100644
--- a/ipyparallel/client/client.py
+++ b/ipyparallel/client/client.py
@@ -87,6 +87,11 @@ Please double-check your profile and ensure that a cluster is running.
 """
 
 
+def _nothing(x):
+    """Is x an empty selection? 0 is an engine, or an index"""
+    return not isinstance(x, int) and not x
+
+
 class ExecuteReply(RichOutput):
     """wrapper for finished Execute results"""
 
@@ -2387,15 +2392,21 @@ class Client(HasTraits):
 
     def _msg_ids_from_target(self, targets=None):
         """Build a list of msg_ids from the list of engine targets"""
-        if not targets:  # needed as _build_targets otherwise uses all engines
+        if _nothing(targets):  # needed as _build_targets otherwise uses all engines
             return []
         engine_uuids = {
             ident.decode("utf8") for ident in self._build_targets(targets)[0]
         }
+
+        def _uuids(md):
+            # coalesced results come from several engines
+            uuid = md["engine_uuid"]
+            return uuid if isinstance(uuid, list) else [uuid]
+
         return [
             md_id
             for md_id in self.metadata
-            if self.metadata[md_id]["engine_uuid"] in engine_uuids
+            if engine_uuids.intersection(_uuids(self.metadata[md_id]))
         ]
 
     def _msg_ids_from_jobs(self, jobs=None):
@@ -2485,7 +2496,7 @@ class Client(HasTraits):
         RuntimeError : if any of the tasks to be purged are still outstanding.
 
         """
-        if not targets and not jobs:
+        if _nothing(targets) and _nothing(jobs):
             raise ValueError("Must specify at least one of `targets` and `jobs`")
 
         if jobs == 'all':
@@ -2527,9 +2538,9 @@ class Client(HasTraits):
 
             default : None
         """
-        if not targets and not jobs:
+        if _nothing(targets) and _nothing(jobs):
             raise ValueError("Must specify at least one of `targets` and `jobs`")
-        if targets:
+        if not _nothing(targets):
             targets = self._build_targets(targets)[1]
 
         # construct msg_ids from jobs
-- 
2.43.0


From e1bebd0b98a0074d0f344eeded0f6cf45336843f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:15 +0000
Subject: [PATCH 71/91] fix: a timestamp among the client's metadata broke
 purging by target

---
 ipyparallel/client/client.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/ipyparallel/client/client.py b/ipyparallel/client/client.py
index 0f8c3e8..477799c 100644
--- a/ipyparallel/client/client.py
+++ b/ipyparallel/client/client.py
@@ -1316,7 +1316,6 @@ class Client(HasTraits):
                 if ident_str in self._engines.values():
                     # save for later, in case of engine death
                     self._outstanding_dict[ident_str].add(msg_id)
-            self.metadata['submitted'] = util.utcnow()
 
         if expect_reply:
             futures = self.create_message_futures(
-- 
2.43.0


From b40387182ca1e0830b70093adc71f1782f9820ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:15 +0000
Subject: [PATCH 72/91] fix: retrieving an aborted request from the hub failed

---
 ipyparallel/client/client.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ipyparallel/client/client.py b/ipyparallel/client/client.py
index 477799c..73a5f64 100644
--- a/ipyparallel/client/client.py
+++ b/ipyparallel/client/client.py
@@ -2352,6 +2352,9 @@ class Client(HasTraits):
                         raise KeyError(
                             "unhandled msg type: {!r}".format(header['msg_type'])
                         )
+                elif rcontent['status'] == 'aborted':
+                    res = error.TaskAborted(msg_id)
+                    failures.append(res)
                 else:
                     res = self._unwrap_exception(rcontent)
                     failures.append(res)
-- 
2.43.0


From 105855127dbdbf4e23b4cd972f35c52a3b7a0a17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:15 +0000
Subject: [PATCH 73/91] fix: the hub went on reporting purged requests as
 completed

---
 ipyparallel/controller/hub.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ipyparallel/controller/hub.py b/ipyparallel/controller/hub.py
index ffc263d..92b3a0f 100644
--- a/ipyparallel/controller/hub.py
+++ b/ipyparallel/controller/hub.py
@@ -1250,6 +1250,8 @@ class Hub(LoggingConfigurable):
             except Exception:
                 reply = error.wrap_exception()
                 self.log.exception("Error dropping records")
+            else:
+                self.all_completed.clear()
         else:
             pending = [m for m in msg_ids if (m in self.pending)]
             if pending:
@@ -1264,6 +1266,8 @@ class Hub(LoggingConfigurable):
                 except Exception:
                     reply = error.wrap_exception()
                     self.log.exception("Error dropping records")
+                else:
+                    self.all_completed.difference_update(msg_ids)
 
             if reply['status'] == 'ok':
                 eids = content.get('engine_ids', [])
@@ -1284,6 +1288,7 @@ class Hub(LoggingConfigurable):
                         reply = error.wrap_exception()
                         self.log.exception("Error dropping records")
                         break
+                    self.all_completed.difference_update(self.completed[eid])
 
         self.session.send(
             self.query, 'purge_reply', content=reply, ident=client_id, parent=msg
-- 
2.43.0


From 2a5028e6910ebc516b593e20121560b13598ed44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:00 +0000
Subject: [PATCH 74/91] fix: requests of engines that died could not be
 retrieved from the hub

---
 ipyparallel/controller/hub.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/ipyparallel/controller/hub.py b/ipyparallel/controller/hub.py
index 92b3a0f..67238b1 100644
--- a/ipyparallel/controller/hub.py
+++ b/ipyparallel/controller/hub.py
@@ -1042,7 +1042,12 @@ class Hub(LoggingConfigurable):
             header = {}
             header['engine'] = uuid
             header['date'] = util.utcnow()
-            rec = dict(result_content=content, result_header=header, result_buffers=[])
+            rec = dict(
+                result_content=content,
+                result_header=header,
+                result_metadata={'engine': uuid, 'status': content['status']},
+                result_buffers=[],
+            )
             rec['completed'] = util.ensure_timezone(header['date'])
             rec['engine_uuid'] = uuid
             try:
-- 
2.43.0


From 37295d1c1a8553bdf1326fe1b428558af92a398c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:00 +0000
Subject: [PATCH 75/91] fix: late output of purged requests left records that
 never complete

---
 ipyparallel/controller/hub.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/ipyparallel/controller/hub.py b/ipyparallel/controller/hub.py
index 67238b1..853a9c3 100644
--- a/ipyparallel/controller/hub.py
+++ b/ipyparallel/controller/hub.py
@@ -173,6 +173,7 @@ class Hub(LoggingConfigurable):
     tasks = Dict()  # pending msg_ids submitted as tasks, keyed by client_id
     completed = Dict()  # completed msg_ids keyed by engine_id
     all_completed = Set()  # completed msg_ids keyed by engine_id
+    purged = Set()  # completed msg_ids whose records were purged
     unassigned = Set()  # set of task msg_ids not yet assigned a destination
     _task_destinations = Dict()  # task list (in self.tasks) holding each assigned task
     incoming_registrations = Dict()
@@ -868,6 +869,9 @@ class Hub(LoggingConfigurable):
             return
 
         if rec is None:
+            if msg_id in self.purged:
+                # late output of a purged request
+                return
             # new record
             rec = empty_record()
             rec['msg_id'] = msg_id
@@ -1242,6 +1246,12 @@ class Hub(LoggingConfigurable):
             self.query, "queue_reply", content=content, ident=client_id, parent=msg
         )
 
+    def _forget(self, msg_ids):
+        """The records of these requests were purged"""
+        gone = self.all_completed.intersection(msg_ids)
+        self.all_completed.difference_update(gone)
+        self.purged.update(gone)
+
     def purge_results(self, client_id, msg):
         """Purge results from memory. This method is more valuable before we move
         to a DB based message storage mechanism."""
@@ -1256,7 +1266,7 @@ class Hub(LoggingConfigurable):
                 reply = error.wrap_exception()
                 self.log.exception("Error dropping records")
             else:
-                self.all_completed.clear()
+                self._forget(set(self.all_completed))
         else:
             pending = [m for m in msg_ids if (m in self.pending)]
             if pending:
@@ -1272,7 +1282,7 @@ class Hub(LoggingConfigurable):
                     reply = error.wrap_exception()
                     self.log.exception("Error dropping records")
                 else:
-                    self.all_completed.difference_update(msg_ids)
+                    self._forget(msg_ids)
 
             if reply['status'] == 'ok':
                 eids = content.get('engine_ids', [])
@@ -1293,7 +1303,7 @@ class Hub(LoggingConfigurable):
                         reply = error.wrap_exception()
                         self.log.exception("Error dropping records")
                         break
-                    self.all_completed.difference_update(self.completed[eid])
+                    self._forget(self.completed[eid])
 
         self.session.send(
             self.query, 'purge_reply', content=reply, ident=client_id, parent=msg
-- 
2.43.0


From 941f0e6ef82e85aa7279e9329e074f7223faddb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:00 +0000
Subject: [PATCH 76/91] fix: resubmitting a request named twice was refused

---
 ipyparallel/controller/hub.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ipyparallel/controller/hub.py b/ipyparallel/controller/hub.py
index 853a9c3..2d3db9c 100644
--- a/ipyparallel/controller/hub.py
+++ b/ipyparallel/controller/hub.py
@@ -1323,7 +1323,7 @@ class Hub(LoggingConfigurable):
             )
 
         content = msg['content']
-        msg_ids = content['msg_ids']
+        msg_ids = list(dict.fromkeys(content['msg_ids']))
         reply = dict(status='ok')
         try:
             records = self.db.find_records(
-- 
2.43.0


From bd58a27cd53ab829c2ac376ec403cb47bedf002e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:00 +0000
Subject: [PATCH 77/91] fix: errors of engines that are gone could not be
 unpacked

---
 ipyparallel/client/client.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ipyparallel/client/client.py b/ipyparallel/client/client.py
index 73a5f64..a31777a 100644
--- a/ipyparallel/client/client.py
+++ b/ipyparallel/client/client.py
@@ -812,7 +812,7 @@ class Client(HasTraits):
         # print e.traceback
         if e.engine_info and 'engine_id' not in e.engine_info:
             e_uuid = e.engine_info['engine_uuid']
-            eid = self._engines[e_uuid]
+            eid = self._engines.get(e_uuid)
             e.engine_info['engine_id'] = eid
         return e
 
-- 
2.43.0


From 6eb1614c31ff1354db5d897913c97766d3cd1012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:36 +0000
Subject: [PATCH 78/91] fix: output was duplicated when a request was retrieved
 from the hub while it arrived

---
 ipyparallel/client/client.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/ipyparallel/client/client.py b/ipyparallel/client/client.py
index a31777a..98c4fe8 100644
--- a/ipyparallel/client/client.py
+++ b/ipyparallel/client/client.py
@@ -1161,8 +1161,9 @@ class Client(HasTraits):
         header = msg['header']
         msg_type = msg['header']['msg_type']
 
-        if msg_type == 'status' and msg_id not in self.metadata:
-            # ignore status messages if they aren't mine
+        if msg_id not in self._output_futures and not msg_type.startswith("comm_"):
+            # ignore output that nothing is waiting for (any more),
+            # e.g. because the request was purged
             return
 
         # init metadata:
@@ -2341,7 +2342,9 @@ class Client(HasTraits):
                 md.update(self._extract_metadata(md_msg))
                 if rec.get('received'):
                     md['received'] = util._parse_date(rec['received'])
-                md.update(iodict)
+                if msg_id not in self._output_futures:
+                    # else, our own copy of the output is arriving
+                    md.update(iodict)
 
                 if rcontent['status'] == 'ok':
                     if header['msg_type'] == 'apply_reply':
-- 
2.43.0


From d20141026004297bbf74f8748b30460cd24e4888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:16 +0000
Subject: [PATCH 79/91] fix: resubmitting a request of which only output had
 arrived failed half way

---
 ipyparallel/controller/hub.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ipyparallel/controller/hub.py b/ipyparallel/controller/hub.py
index 2d3db9c..90366f3 100644
--- a/ipyparallel/controller/hub.py
+++ b/ipyparallel/controller/hub.py
@@ -1333,6 +1333,9 @@ class Hub(LoggingConfigurable):
             self.log.error('db::db error finding tasks to resubmit', exc_info=True)
             return finish(error.wrap_exception())
 
+        # output may arrive before the request that makes it
+        records = [rec for rec in records if rec['header']]
+
         # validate msg_ids
         found_ids = [rec['msg_id'] for rec in records]
         pending_ids = [msg_id for msg_id in found_ids if msg_id in self.pending]
-- 
2.43.0


From 929c06bc137fcbf284d4c8f31ba9ca107a519d3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:16 +0000
Subject: [PATCH 80/91] fix: metadata of a retrieved result was lost when its
 output completed meanwhile

---
 ipyparallel/client/asyncresult.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ipyparallel/client/asyncresult.py b/ipyparallel/client/asyncresult.py
index b306c07..6ac0077 100644
--- a/ipyparallel/client/asyncresult.py
+++ b/ipyparallel/client/asyncresult.py
@@ -1226,8 +1226,8 @@ class AsyncHubResult(AsyncResult):
             self._metadata = [
                 local[m].output.metadata
                 if hasattr(local.get(m), 'output')
-                else self._client.metadata[m]
-                for m in self.msg_ids
+                else self._client.metadata.get(m, metadata)
+                for m, metadata in zip(self.msg_ids, self._metadata)
             ]
             try:
                 if self._single_result:
-- 
2.43.0


From 26488a499a7a081ed8c4b634e72e94cf44613557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:37 +0000
Subject: [PATCH 81/91] fix: a result that was retrieved again lost its
 metadata when its output completed

---
 ipyparallel/client/asyncresult.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ipyparallel/client/asyncresult.py b/ipyparallel/client/asyncresult.py
index 6ac0077..4514e65 100644
--- a/ipyparallel/client/asyncresult.py
+++ b/ipyparallel/client/asyncresult.py
@@ -393,7 +393,10 @@ class AsyncResult(Future):
     def _resolve_output(self, f=None):
         """Callback that fires when outputs are ready"""
         if self.owner:
-            [self._client.metadata.pop(mid, None) for mid in self.msg_ids]
+            for msg_id in self.msg_ids:
+                # results that have been retrieved again keep their metadata
+                if msg_id not in self._client.results:
+                    self._client.metadata.pop(msg_id, None)
         self._output_ready = True
         self._output_event.set()
 
-- 
2.43.0


From 472c566599146e175654b4881aff25696799db38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:58 +0000
Subject: [PATCH 82/91] fix: invalid messages no longer raise in the client's
 streams

---
 ipyparallel/client/client.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ipyparallel/client/client.py b/ipyparallel/client/client.py
index 98c4fe8..cc4e419 100644
--- a/ipyparallel/client/client.py
+++ b/ipyparallel/client/client.py
@@ -43,6 +43,7 @@ from traitlets import (
     default,
 )
 from traitlets.config.configurable import MultipleInstanceError
+from traitlets.log import get_logger
 from zmq.eventloop.zmqstream import ZMQStream
 
 import ipyparallel as ipp
@@ -65,11 +66,12 @@ jupyter_client.session.extract_dates = lambda obj: obj
 @decorator
 def unpack_message(f, self, msg_parts):
     """Unpack a message before calling the decorated method."""
-    idents, msg = self.session.feed_identities(msg_parts, copy=False)
     try:
+        idents, msg = self.session.feed_identities(msg_parts, copy=False)
         msg = self.session.deserialize(msg, content=True, copy=False)
     except Exception:
-        self.log.error("Invalid Message", exc_info=True)
+        # don't let it stop the stream that it came from
+        get_logger().error("Invalid Message", exc_info=True)
     else:
         if self.debug:
             pprint(msg)
-- 
2.43.0


From b1ee36c39a5ad63379034608796e0213f1f7b5a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:52 +0000
Subject: [PATCH 83/91] fix: write cluster files atomically

A reader (or a crash) could find an empty or half-written cluster file,
and clean_cluster_files removes files of running clusters that fail to load.
---
 ipyparallel/cluster/cluster.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/ipyparallel/cluster/cluster.py b/ipyparallel/cluster/cluster.py
index 1b30630..25dc59b 100644
--- a/ipyparallel/cluster/cluster.py
+++ b/ipyparallel/cluster/cluster.py
@@ -562,8 +562,17 @@ class Cluster(AsyncFirst, LoggingConfigurable):
         """Write cluster info to disk for later loading"""
         os.makedirs(os.path.dirname(self.cluster_file), exist_ok=True)
         self.log.debug(f"Updating {self.cluster_file}")
-        with open(self.cluster_file, "w") as f:
-            json.dump(self.to_dict(), f)
+        # write to a temporary file first,
+        # so that no reader ever finds an incomplete file
+        tmp_file = f"{self.cluster_file}.{os.getpid()}.tmp"
+        try:
+            with open(tmp_file, "w") as f:
+                json.dump(self.to_dict(), f)
+            os.replace(tmp_file, self.cluster_file)
+        except BaseException:
+            if os.path.exists(tmp_file):
+                os.remove(tmp_file)
+            raise
 
     def remove_cluster_file(self):
         """Remove my cluster file."""
-- 
2.43.0


From ecdd00e9bdfd9b194ffe74c58889d2849fa45eaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:52 +0000
Subject: [PATCH 84/91] fix: create the log directory when starting local
 engines

Starting engines without a controller failed with FileNotFoundError
if the profile had no log directory yet.
---
 ipyparallel/cluster/launcher.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ipyparallel/cluster/launcher.py b/ipyparallel/cluster/launcher.py
index 325858e..6f36919 100644
--- a/ipyparallel/cluster/launcher.py
+++ b/ipyparallel/cluster/launcher.py
@@ -537,6 +537,9 @@ class LocalProcessLauncher(BaseLauncher):
                 'The process was already started and has state: {self.state}'
             )
         self.log.debug(f"Sending output for {self.identifier} to {self.output_file}")
+        output_dir = os.path.dirname(self.output_file)
+        if output_dir:
+            os.makedirs(output_dir, exist_ok=True)
 
         env = os.environ.copy()
         env.update(self.get_env())
-- 
2.43.0


From 99ce0de1db90327a0e0afd9ac1a2732f4cfd49a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:52 +0000
Subject: [PATCH 85/91] fix: clean_cluster_files without a log

Loading the file of a stopped cluster already removes it; removing it again
used log.error, which raised AttributeError when log was not given.
---
 ipyparallel/cluster/cluster.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/ipyparallel/cluster/cluster.py b/ipyparallel/cluster/cluster.py
index 25dc59b..69e6cd7 100644
--- a/ipyparallel/cluster/cluster.py
+++ b/ipyparallel/cluster/cluster.py
@@ -1074,8 +1074,12 @@ def clean_cluster_files(profile_dirs=None, *, log=None, force=False):
             log.debug(f"Removing {f}")
         try:
             os.remove(f)
+        except FileNotFoundError:
+            # already removed, e.g. by loading a stopped cluster
+            pass
         except OSError as e:
-            log.error(f"Error removing {f}: {e}")
+            if log:
+                log.error(f"Error removing {f}: {e}")
 
     for profile_dir in profile_dirs:
         if log:
@@ -1096,7 +1100,7 @@ def clean_cluster_files(profile_dirs=None, *, log=None, force=False):
                 else:
                     if cluster._is_running():
                         raise ValueError(
-                            "f{cluster} is still running. Use force=True to cleanup files for running clusters (may leave orphan processes!)"
+                            f"{cluster} is still running. Use force=True to cleanup files for running clusters (may leave orphan processes!)"
                         )
                     else:
                         _remove(cluster_file)
-- 
2.43.0


From 2660239e8d7a358968e38541ff4bb020e2aaab8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:35 +0000
Subject: [PATCH 86/91] fix: signaling engines when one has just exited

If one process of a set had exited and this was not noticed yet,
signal_engines raised NoSuchProcess and the remaining engines got no signal.
---
 ipyparallel/cluster/launcher.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ipyparallel/cluster/launcher.py b/ipyparallel/cluster/launcher.py
index 6f36919..4c51b39 100644
--- a/ipyparallel/cluster/launcher.py
+++ b/ipyparallel/cluster/launcher.py
@@ -648,7 +648,11 @@ class LocalProcessLauncher(BaseLauncher):
                 cmd = ['taskkill', '/pid', str(self.process.pid), '/t', '/F']
                 check_output(cmd)
             else:
-                self.process.send_signal(sig)
+                try:
+                    self.process.send_signal(sig)
+                except psutil.NoSuchProcess:
+                    # already exited, about to be noticed
+                    self.log.debug(f"Process {self.pid} already exited")
 
     # callbacks, etc:
 
-- 
2.43.0


From c00176cf1b8a988b43f99ac0ba0dd2226371d6e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:35 +0000
Subject: [PATCH 87/91] fix: a controller that fails to start is not left as
 running

After a failure to launch the controller, the cluster said that it was running,
wrote it to the cluster file and refused to start another one.
---
 ipyparallel/cluster/cluster.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/ipyparallel/cluster/cluster.py b/ipyparallel/cluster/cluster.py
index 69e6cd7..4becfd3 100644
--- a/ipyparallel/cluster/cluster.py
+++ b/ipyparallel/cluster/cluster.py
@@ -662,9 +662,15 @@ class Cluster(AsyncFirst, LoggingConfigurable):
             self.controller.controller_args = list(controller_args)
 
         self.controller.on_stop(self._controller_stopped)
-        r = self.controller.start()
-        if inspect.isawaitable(r):
-            await r
+        try:
+            r = self.controller.start()
+            if inspect.isawaitable(r):
+                await r
+        except BaseException:
+            # failed to start, it's not our controller
+            if self.controller is controller:
+                self.controller = None
+            raise
 
         self.update_cluster_file()
 
-- 
2.43.0


From 33172d28a0b27814ea24aeebae5810c4d227fa11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:35 +0000
Subject: [PATCH 88/91] fix: refuse to start an engine set over a running one

The running engines were forgotten: never stopped, signaled or listed again.
---
 ipyparallel/cluster/cluster.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/ipyparallel/cluster/cluster.py b/ipyparallel/cluster/cluster.py
index 4becfd3..a6ff7c6 100644
--- a/ipyparallel/cluster/cluster.py
+++ b/ipyparallel/cluster/cluster.py
@@ -700,6 +700,14 @@ class Cluster(AsyncFirst, LoggingConfigurable):
         # TODO: send engines connection info
         if engine_set_id is None:
             engine_set_id = self._new_engine_set_id()
+        elif (
+            engine_set_id in self.engines
+            and self.engines[engine_set_id].state != 'after'
+        ):
+            # don't lose track of running engines
+            raise RuntimeError(
+                f"engine set {engine_set_id!r} is already running. Call stop_engines({engine_set_id!r}) first."
+            )
         engine_set = self.engines[engine_set_id] = self.engine_launcher_class(
             work_dir='.',
             parent=self,
-- 
2.43.0


From 990e0a2ca9e3383ee2636753c257ee59212edef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:35 +0000
Subject: [PATCH 89/91] fix: an engine set that fails to start leaves nothing
 behind

If starting failed (no connection info, or some process could not be launched),
the engine set stayed listed as running, engines launched until then were not in the
cluster file, and engines stopped while waiting for the controller were started anyway.
---
 ipyparallel/cluster/cluster.py | 53 ++++++++++++++++++++++++----------
 1 file changed, 38 insertions(+), 15 deletions(-)

diff --git a/ipyparallel/cluster/cluster.py b/ipyparallel/cluster/cluster.py
index a6ff7c6..851e27b 100644
--- a/ipyparallel/cluster/cluster.py
+++ b/ipyparallel/cluster/cluster.py
@@ -717,25 +717,48 @@ class Cluster(AsyncFirst, LoggingConfigurable):
             engine_set_id=engine_set_id,
             **kwargs,
         )
-        if self.send_engines_connection_env and self.controller:
-            self.log.debug("Setting $IPP_CONNECTION_INFO environment")
-            connection_info = await self.controller.get_connection_info()
-            connection_info_json = json.dumps(connection_info["engine"])
-            engine_set.environment["IPP_CONNECTION_INFO"] = connection_info_json
+        try:
+            if self.send_engines_connection_env and self.controller:
+                self.log.debug("Setting $IPP_CONNECTION_INFO environment")
+                connection_info = await self.controller.get_connection_info()
+                connection_info_json = json.dumps(connection_info["engine"])
+                engine_set.environment["IPP_CONNECTION_INFO"] = connection_info_json
+                if self.engines.get(engine_set_id) is not engine_set:
+                    raise RuntimeError(
+                        f"engine set {engine_set_id!r} was stopped before it started"
+                    )
 
-        if n is None:
-            n = self.n
-        n = getattr(engine_set, 'engine_count', n)
-        if n is None:
-            n = cpu_count()
-        self.log.info(f"Starting {n or ''} engines with {self.engine_launcher_class}")
-        r = engine_set.start(n)
-        engine_set.on_stop(partial(self._engines_stopped, engine_set_id))
-        if inspect.isawaitable(r):
-            await r
+            if n is None:
+                n = self.n
+            n = getattr(engine_set, 'engine_count', n)
+            if n is None:
+                n = cpu_count()
+            self.log.info(
+                f"Starting {n or ''} engines with {self.engine_launcher_class}"
+            )
+            r = engine_set.start(n)
+            engine_set.on_stop(partial(self._engines_stopped, engine_set_id))
+            if inspect.isawaitable(r):
+                await r
+        except BaseException:
+            # failed to start: don't leave a part of the engine set behind
+            await self._cleanup_failed_engines(engine_set_id, engine_set)
+            raise
         self.update_cluster_file()
         return engine_set_id
 
+    async def _cleanup_failed_engines(self, engine_set_id, engine_set):
+        """Stop what there is of an engine set that failed to start, and forget it"""
+        try:
+            r = engine_set.stop()
+            if inspect.isawaitable(r):
+                await r
+        except Exception as e:
+            self.log.debug(f"Error stopping engine set {engine_set_id}: {e}")
+        if self.engines.get(engine_set_id) is engine_set:
+            self.engines.pop(engine_set_id)
+        self.update_cluster_file()
+
     def _engines_stopped(self, engine_set_id, stop_data=None):
         if stop_data and stop_data.get("exit_code"):
             log = self.log.warning
-- 
2.43.0


From 97e2689c314fcdbc97db27d9c0ac05c960f9c28a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:35 +0000
Subject: [PATCH 90/91] fix: stopping an engine set twice at the same time

The second stop raised KeyError, or forgot a set that had been
started again with the same id (restart_engines).
---
 ipyparallel/cluster/cluster.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ipyparallel/cluster/cluster.py b/ipyparallel/cluster/cluster.py
index 851e27b..c295442 100644
--- a/ipyparallel/cluster/cluster.py
+++ b/ipyparallel/cluster/cluster.py
@@ -848,7 +848,9 @@ class Cluster(AsyncFirst, LoggingConfigurable):
             await r
         # retrieve and cleanup output files
         engine_set.get_output(remove=True)
-        self.engines.pop(engine_set_id)
+        # it may have been stopped, even replaced, while we were waiting
+        if self.engines.get(engine_set_id) is engine_set:
+            self.engines.pop(engine_set_id)
         self.update_cluster_file()
 
     async def stop_engine(self, engine_id):
-- 
2.43.0


From a958da5b38070966f9adadda3fc66e40674f09d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:46 +0000
Subject: [PATCH 91/91] fix: stop or restart all engines while some set is
 being stopped

A set that was stopped at the same time raised KeyError,
and remaining sets were not restarted.
---
 ipyparallel/cluster/cluster.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/ipyparallel/cluster/cluster.py b/ipyparallel/cluster/cluster.py
index c295442..520b1db 100644
--- a/ipyparallel/cluster/cluster.py
+++ b/ipyparallel/cluster/cluster.py
@@ -836,13 +836,16 @@ class Cluster(AsyncFirst, LoggingConfigurable):
         """
         if engine_set_id is None:
             futures = []
-            for engine_set_id in list(self.engines):
-                futures.append(self.stop_engines(engine_set_id))
+            for engine_set_id, engine_set in list(self.engines.items()):
+                futures.append(self._stop_engine_set(engine_set_id, engine_set))
             if futures:
                 await asyncio.gather(*futures)
             return
+        await self._stop_engine_set(engine_set_id, self.engines[engine_set_id])
+
+    async def _stop_engine_set(self, engine_set_id, engine_set):
+        """Stop one engine set, and forget it"""
         self.log.info(f"Stopping engine(s): {engine_set_id}")
-        engine_set = self.engines[engine_set_id]
         r = engine_set.stop()
         if inspect.isawaitable(r):
             await r
@@ -865,7 +868,9 @@ class Cluster(AsyncFirst, LoggingConfigurable):
         """Restart an engine set"""
         if engine_set_id is None:
             for engine_set_id in list(self.engines):
-                await self.restart_engines(engine_set_id)
+                # may have been stopped while we restarted others
+                if engine_set_id in self.engines:
+                    await self.restart_engines(engine_set_id)
             return
         engine_set = self.engines[engine_set_id]
         n = engine_set.n
-- 
2.43.0

