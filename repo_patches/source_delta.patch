From 3dbe93b3568d96a53414ec54df6da1a6c6685ca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:57 +0000
Subject: [PATCH 01/42] fix: accept new indexers whose names are not taken yet

---
 aiok8s/cache/thread_safe_store.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aiok8s/cache/thread_safe_store.py b/aiok8s/cache/thread_safe_store.py
index 49b5d33..ff7e774 100644
--- a/aiok8s/cache/thread_safe_store.py
+++ b/aiok8s/cache/thread_safe_store.py
@@ -113,7 +113,7 @@ class _ThreadSafeMap:
                 raise Exception("cannot add indexers to running index")
             old_keys = self._indexers.keys()
             new_keys = new_indexers.keys()
-            if old_keys | new_keys:
+            if old_keys & new_keys:
                 raise Exception(f"indexer conflict: {old_keys & new_keys}")
             self._indexers.update(new_indexers)
 
-- 
2.43.0


From 73f0b05aabf132ed67c894fda376c0f9a4a34e68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:58 +0000
Subject: [PATCH 02/42] fix: allow an index function to return the same value
 more than once

---
 aiok8s/cache/thread_safe_store.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aiok8s/cache/thread_safe_store.py b/aiok8s/cache/thread_safe_store.py
index ff7e774..38fb932 100644
--- a/aiok8s/cache/thread_safe_store.py
+++ b/aiok8s/cache/thread_safe_store.py
@@ -139,6 +139,6 @@ class _ThreadSafeMap:
             for index_value in index_values:
                 set_ = index.get(index_value)
                 if set_:
-                    set_.remove(key)
+                    set_.discard(key)
                     if not set_:
                         del index[index_value]
-- 
2.43.0


From 7f4e31a197dd5ab937bbc15b8716ae622c2009f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:11 +0000
Subject: [PATCH 03/42] fix: deleting an absent item from a FIFO is a no-op

---
 aiok8s/cache/fifo.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aiok8s/cache/fifo.py b/aiok8s/cache/fifo.py
index 7e6914d..4bce805 100644
--- a/aiok8s/cache/fifo.py
+++ b/aiok8s/cache/fifo.py
@@ -63,7 +63,7 @@ class FIFO:
             raise store.StoreKeyError(obj) from e
         async with self._lock:
             self._populated = True
-            del self._items[id_]
+            self._items.pop(id_, None)
 
     def list(self):
         return list(self._items.values())
-- 
2.43.0


From 4a89cf62685413aef3d30de8b55fde6763c002b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:58 +0000
Subject: [PATCH 04/42] fix: keep a listed object whose deletion is still
 pending in DeltaFIFO

---
 aiok8s/cache/delta_fifo.py | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/aiok8s/cache/delta_fifo.py b/aiok8s/cache/delta_fifo.py
index 5534780..9184b4b 100644
--- a/aiok8s/cache/delta_fifo.py
+++ b/aiok8s/cache/delta_fifo.py
@@ -197,14 +197,8 @@ class DeltaFIFO:
         self._items[id_] = deltas
         self._cond.notify_all()
 
-    def _will_object_be_deleted_locked(self, id_):
-        deltas = self._items.get(id_)
-        return deltas and deltas[-1].type is DeltaType.DELETED
-
     def _queue_action_locked(self, action_type, obj):
         id_ = self.key_of(obj)
-        if action_type is DeltaType.SYNC and self._will_object_be_deleted_locked(id_):
-            return
         new_deltas = Deltas([*self._items.get(id_, []), Delta(action_type, obj)])
         new_deltas = _dedup_deltas(new_deltas)
         if new_deltas:
-- 
2.43.0


From 2a3859bbdf085dc5f2d155eb3289be2ce2e274ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:58 +0000
Subject: [PATCH 05/42] fix: detect deletions of objects that are only queued
 when replacing DeltaFIFO

---
 aiok8s/cache/delta_fifo.py | 34 +++++++++++++++-------------------
 1 file changed, 15 insertions(+), 19 deletions(-)

diff --git a/aiok8s/cache/delta_fifo.py b/aiok8s/cache/delta_fifo.py
index 9184b4b..b5ef5a0 100644
--- a/aiok8s/cache/delta_fifo.py
+++ b/aiok8s/cache/delta_fifo.py
@@ -82,28 +82,24 @@ class DeltaFIFO:
                 key = self.key_of(item)
                 keys.add(key)
                 self._queue_action_locked(DeltaType.SYNC, item)
-            if not self._known_objects:
-                queued_deletions = 0
-                for k, old_item in self._items.items():
-                    if k in keys:
-                        continue
-                    deleted_obj = None
-                    n = old_item.newest()
-                    if n:
-                        deleted_obj = n.object
-                    queued_deletions += 1
-                    self._queue_action_locked(
-                        DeltaType.DELETED, DeletedFinalStateUnknown(k, deleted_obj)
-                    )
-                if not self._populated:
-                    self._populated = True
-                    self._initial_population_count = len(list_) + queued_deletions
-                return
-            known_keys = self._known_objects.list_keys()
             queued_deletions = 0
-            for k in known_keys:
+            for k, old_item in self._items.items():
                 if k in keys:
                     continue
+                deleted_obj = None
+                n = old_item.newest()
+                if n:
+                    deleted_obj = n.object
+                    if isinstance(deleted_obj, DeletedFinalStateUnknown):
+                        deleted_obj = deleted_obj.obj
+                queued_deletions += 1
+                self._queue_action_locked(
+                    DeltaType.DELETED, DeletedFinalStateUnknown(k, deleted_obj)
+                )
+            known_keys = self._known_objects.list_keys() if self._known_objects else []
+            for k in known_keys:
+                if k in keys or k in self._items:
+                    continue
                 try:
                     deleted_obj = self._known_objects.get_by_key(k)
                 except Exception as e:
-- 
2.43.0


From 66b20d4f11eb743e4ddad5e3a415c84b1f5da49f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:58 +0000
Subject: [PATCH 06/42] fix: count distinct keys of the initial list in
 DeltaFIFO

---
 aiok8s/cache/delta_fifo.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aiok8s/cache/delta_fifo.py b/aiok8s/cache/delta_fifo.py
index b5ef5a0..e7c7ce9 100644
--- a/aiok8s/cache/delta_fifo.py
+++ b/aiok8s/cache/delta_fifo.py
@@ -123,7 +123,7 @@ class DeltaFIFO:
                 )
             if not self._populated:
                 self._populated = True
-                self._initial_population_count = len(list_) + queued_deletions
+                self._initial_population_count = len(keys) + queued_deletions
 
     async def resync(self):
         async with self._cond:
-- 
2.43.0


From a8468a784a9c802f6d752440af5bedf892bae478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:57 +0000
Subject: [PATCH 07/42] fix: report a queue as synced only after its last
 initial item was processed

---
 aiok8s/cache/delta_fifo.py | 11 +++++++++--
 aiok8s/cache/fifo.py       | 11 +++++++++--
 2 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/aiok8s/cache/delta_fifo.py b/aiok8s/cache/delta_fifo.py
index e7c7ce9..1661223 100644
--- a/aiok8s/cache/delta_fifo.py
+++ b/aiok8s/cache/delta_fifo.py
@@ -141,21 +141,24 @@ class DeltaFIFO:
                         raise fifo.FIFOClosedError
                     await self._cond.wait()
                 id_ = self._queue.pop(0)
-                if self._initial_population_count:
-                    self._initial_population_count -= 1
                 if id_ not in self._items:
+                    self._initial_item_done()
                     continue
                 item = self._items.pop(id_)
                 try:
                     await process(item)
                 except fifo.RequeueError as e:
+                    self._initial_item_done()
                     self._add_if_not_present(id_, item)
                     if e.__cause__:
                         raise fifo.ProcessError(item) from e.__cause__
                 except asyncio.CancelledError:
                     raise
                 except Exception as e:
+                    self._initial_item_done()
                     raise fifo.ProcessError(item) from e
+                else:
+                    self._initial_item_done()
                 return item
 
     async def add_if_not_present(self, obj):
@@ -185,6 +188,10 @@ class DeltaFIFO:
     def is_closed(self):
         return self._closed
 
+    def _initial_item_done(self):
+        if self._initial_population_count:
+            self._initial_population_count -= 1
+
     def _add_if_not_present(self, id_, deltas):
         self._populated = True
         if id_ in self._items:
diff --git a/aiok8s/cache/fifo.py b/aiok8s/cache/fifo.py
index 4bce805..b27222f 100644
--- a/aiok8s/cache/fifo.py
+++ b/aiok8s/cache/fifo.py
@@ -116,19 +116,22 @@ class FIFO:
                         raise FIFOClosedError
                     await self._cond.wait()
                 id_ = self._queue.pop(0)
-                if self._initial_population_count:
-                    self._initial_population_count -= 1
                 if id_ not in self._items:
+                    self._initial_item_done()
                     continue
                 item = self._items.pop(id_)
                 try:
                     process(item)
                 except RequeueError as e:
+                    self._initial_item_done()
                     self._add_if_not_present(id_, item)
                     if e.__cause__:
                         raise ProcessError(item) from e.__cause__
                 except Exception as e:
+                    self._initial_item_done()
                     raise ProcessError(item) from e
+                else:
+                    self._initial_item_done()
                 return item
 
     async def add_if_not_present(self, obj):
@@ -150,6 +153,10 @@ class FIFO:
     def is_closed(self):
         return self._closed
 
+    def _initial_item_done(self):
+        if self._initial_population_count:
+            self._initial_population_count -= 1
+
     def _add_if_not_present(self, id_, obj):
         self._populated = True
         if id_ in self._items:
-- 
2.43.0


From 051699b0d55b28ce36df27ecaf588076837e02d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:03 +0000
Subject: [PATCH 08/42] fix: end a reflector's watch when its stream fails
 instead of hanging

---
 aiok8s/cache/reflector.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/aiok8s/cache/reflector.py b/aiok8s/cache/reflector.py
index 3d4c339..47345c5 100644
--- a/aiok8s/cache/reflector.py
+++ b/aiok8s/cache/reflector.py
@@ -146,10 +146,12 @@ class Reflector:
         event_queue = asyncio.Queue()
 
         async def get_events():
-            async with w:
-                async for event in w:
-                    await event_queue.put(event)
-            await event_queue.put(None)
+            try:
+                async with w:
+                    async for event in w:
+                        await event_queue.put(event)
+            finally:
+                event_queue.put_nowait(None)
 
         get_events_task = asyncio.ensure_future(get_events())
         error_task = asyncio.ensure_future(error_queue.get())
@@ -163,6 +165,7 @@ class Reflector:
                     raise await error_task
                 event = await event_task
                 if event is None:
+                    await get_events_task
                     break
                 if event["type"] == watch.EventType.ERROR:
                     raise Exception
-- 
2.43.0


From ce89cfd43845c713ebf5e2dbc966fcdeb3ee9b54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:03 +0000
Subject: [PATCH 09/42] fix: understand the api version of core group objects

---
 aiok8s/api/meta.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aiok8s/api/meta.py b/aiok8s/api/meta.py
index df8f547..59c13ac 100644
--- a/aiok8s/api/meta.py
+++ b/aiok8s/api/meta.py
@@ -161,7 +161,7 @@ class _ObjectAccessor:
     # Motivated by apimachinery/pkg/apis/meta/v1/meta.go GroupVersionKind()
     @property
     def group_version_kind(self):
-        group, version = self.api_version.split("/")
+        group, _, version = self.api_version.rpartition("/")
         return schema.GroupVersionKind(group, version, self.kind)
 
 
-- 
2.43.0


From 6c1c0bebe82df75fac7ad292a7d4cb081a86a163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:21 +0000
Subject: [PATCH 10/42] fix: do not treat something without metadata as an
 object or a list

---
 aiok8s/api/meta.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/aiok8s/api/meta.py b/aiok8s/api/meta.py
index 59c13ac..b1f3815 100644
--- a/aiok8s/api/meta.py
+++ b/aiok8s/api/meta.py
@@ -73,6 +73,8 @@ class _NotObjectError(Exception):
 class _ListAccessor:
     def __init__(self, obj):
         self._metadata = obj.metadata
+        if self._metadata is None:
+            raise AttributeError("metadata")
 
     @property
     def resource_version(self):
@@ -86,6 +88,8 @@ class _ListAccessor:
 class _UnstructuredListAccessor:
     def __init__(self, obj):
         self._metadata = obj["metadata"]
+        if self._metadata is None:
+            raise KeyError("metadata")
 
     @property
     def resource_version(self):
@@ -99,6 +103,8 @@ class _UnstructuredListAccessor:
 class _Accessor:
     def __init__(self, obj):
         self._metadata = obj.metadata
+        if self._metadata is None:
+            raise AttributeError("metadata")
 
     @property
     def namespace(self):
@@ -124,6 +130,8 @@ class _Accessor:
 class _UnstructuredAccessor:
     def __init__(self, obj):
         self._metadata = obj["metadata"]
+        if self._metadata is None:
+            raise KeyError("metadata")
 
     @property
     def namespace(self):
-- 
2.43.0


From 184004e5c8c41e804661a60b913211226739e6e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:21 +0000
Subject: [PATCH 11/42] fix: treat missing metadata fields of dictionaries like
 those of typed objects

---
 aiok8s/api/meta.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/aiok8s/api/meta.py b/aiok8s/api/meta.py
index b1f3815..535c0ea 100644
--- a/aiok8s/api/meta.py
+++ b/aiok8s/api/meta.py
@@ -93,7 +93,7 @@ class _UnstructuredListAccessor:
 
     @property
     def resource_version(self):
-        return self._metadata["resourceVersion"]
+        return self._metadata.get("resourceVersion")
 
     @resource_version.setter
     def resource_version(self, resource_version):
@@ -135,19 +135,19 @@ class _UnstructuredAccessor:
 
     @property
     def namespace(self):
-        return self._metadata["namespace"]
+        return self._metadata.get("namespace")
 
     @property
     def name(self):
-        return self._metadata["name"]
+        return self._metadata.get("name")
 
     @property
     def uid(self):
-        return self._metadata["uid"]
+        return self._metadata.get("uid")
 
     @property
     def resource_version(self):
-        return self._metadata["resourceVersion"]
+        return self._metadata.get("resourceVersion")
 
     @resource_version.setter
     def resource_version(self, resource_version):
-- 
2.43.0


From db8838445fdd31e365b059290ce0e40def1c7179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:21 +0000
Subject: [PATCH 12/42] fix: skip watch events whose kind is unknown instead of
 ending the watch

---
 aiok8s/cache/reflector.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/aiok8s/cache/reflector.py b/aiok8s/cache/reflector.py
index 47345c5..aca9954 100644
--- a/aiok8s/cache/reflector.py
+++ b/aiok8s/cache/reflector.py
@@ -179,7 +179,11 @@ class Reflector:
                     )
                     continue
                 if self._expected_gvk is not None:
-                    gvk = meta.type_accessor(event["object"]).group_version_kind
+                    try:
+                        gvk = meta.type_accessor(event["object"]).group_version_kind
+                    except Exception:
+                        logger.error("unable to understand watch event %r", event)
+                        continue
                     if self._expected_gvk != gvk:
                         logger.error(
                             "expected gvk %s, but watch event object had gvk %s",
-- 
2.43.0


From 4f72661b5a8e41f3e2e0afbff4a139bf37e8d0da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:44 +0000
Subject: [PATCH 13/42] fix: shut down the underlying queue of a delaying queue

---
 aiok8s/workqueue/delaying_queue.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aiok8s/workqueue/delaying_queue.py b/aiok8s/workqueue/delaying_queue.py
index a9768d5..fb266b2 100644
--- a/aiok8s/workqueue/delaying_queue.py
+++ b/aiok8s/workqueue/delaying_queue.py
@@ -59,7 +59,7 @@ class _DelayingType(queue.Type):
     async def shut_down(self):
         if not self._stop_event.is_set():
             self._stop_event.set()
-            await self.shut_down()
+            await super().shut_down()
             self._heartbeat.stop()
 
     async def _waiting_loop(self):
-- 
2.43.0


From fb50d7b78af9ab28a6e88292d5e5548a4c0101ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:36 +0000
Subject: [PATCH 14/42] fix: pass on the wakeup of a cancelled worker of a work
 queue

---
 aiok8s/workqueue/queue.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/aiok8s/workqueue/queue.py b/aiok8s/workqueue/queue.py
index 6bfa29d..2066058 100644
--- a/aiok8s/workqueue/queue.py
+++ b/aiok8s/workqueue/queue.py
@@ -53,7 +53,12 @@ class Type:
     async def get(self):
         async with self._cond:
             while not self._queue and not self._shutting_down:
-                await self._cond.wait()
+                try:
+                    await self._cond.wait()
+                except asyncio.CancelledError:
+                    # The wakeup may have been meant for this worker.
+                    self._cond.notify()
+                    raise
             if not self._queue:
                 return None, True
             item = self._queue.popleft()
-- 
2.43.0


From 36532b0e884db96d5b025a3dfbfd53ebce5ed063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:06 +0000
Subject: [PATCH 15/42] fix: cap the back-off of items with more than a
 thousand failures

---
 aiok8s/workqueue/default_rate_limiters.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/aiok8s/workqueue/default_rate_limiters.py b/aiok8s/workqueue/default_rate_limiters.py
index e0c7504..33c0ee4 100644
--- a/aiok8s/workqueue/default_rate_limiters.py
+++ b/aiok8s/workqueue/default_rate_limiters.py
@@ -67,7 +67,10 @@ class ItemExponentialFailureRateLimiter:
         exp = self._failures[item]
         self._failures[item] += 1
 
-        backoff = self._base_delay * 2 ** exp
+        try:
+            backoff = self._base_delay * 2 ** exp
+        except OverflowError:
+            return self._max_delay
         calculated = min(backoff, self._max_delay)
         return calculated
 
-- 
2.43.0


From 9073ca6fbe512701f5706ee0c25b5557d36fbb2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:22 +0000
Subject: [PATCH 16/42] fix: do not retry forever with a negative number of
 steps

---
 aiok8s/util/wait.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aiok8s/util/wait.py b/aiok8s/util/wait.py
index ae86246..5c0b330 100644
--- a/aiok8s/util/wait.py
+++ b/aiok8s/util/wait.py
@@ -104,7 +104,7 @@ class Backoff:
 
 async def exponential_backoff(backoff, condition):
     backoff = Backoff(**backoff.__dict__)
-    while backoff.steps:
+    while backoff.steps > 0:
         if await condition():
             return
         if backoff.steps == 1:
-- 
2.43.0


From 07ed19c1103e43216018501e361261e9c81ffef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:32 +0000
Subject: [PATCH 17/42] fix: let a poll's condition raise a timeout of its own

---
 aiok8s/util/wait.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/aiok8s/util/wait.py b/aiok8s/util/wait.py
index 5c0b330..8c63733 100644
--- a/aiok8s/util/wait.py
+++ b/aiok8s/util/wait.py
@@ -115,10 +115,16 @@ async def exponential_backoff(backoff, condition):
 
 # TODO: test, rewrite?
 async def poll(interval, timeout, condition):
+    task = asyncio.ensure_future(poll_infinite(interval, condition))
     try:
-        await asyncio.wait_for(poll_infinite(interval, condition), timeout)
-    except asyncio.TimeoutError:
-        raise WaitTimeoutError
+        await asyncio.wait([task], timeout=timeout)
+        if not task.done():
+            raise WaitTimeoutError
+    finally:
+        task.cancel()
+        await asyncio.gather(task, return_exceptions=True)
+    # An exception of the condition, even a timeout, is its own.
+    await task
 
 
 # TODO: test, rewrite?
-- 
2.43.0


From 2ad6a3ff4223baa045da2df1050c96ca95048973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:24 +0000
Subject: [PATCH 18/42] fix: stop a watcher without waiting for a broadcast to
 another one

---
 aiok8s/watch/mux.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/aiok8s/watch/mux.py b/aiok8s/watch/mux.py
index 981557b..ffb41ce 100644
--- a/aiok8s/watch/mux.py
+++ b/aiok8s/watch/mux.py
@@ -95,10 +95,11 @@ class Broadcaster:
         await event.wait()
 
     async def _stop_watching(self, id_):
-        async with self._lock:
-            w = self._watchers.pop(id_, None)
-            if w:
-                w._stopped.set()
+        # Without the lock, which a distribution may hold while it waits for another
+        # watcher.
+        w = self._watchers.pop(id_, None)
+        if w:
+            w._stopped.set()
 
     async def _close_all(self):
         async with self._lock:
@@ -121,7 +122,7 @@ class Broadcaster:
     async def _distribute(self, event):
         async with self._lock:
             if self._full_channel_behavior is FullChannelBehavior.DROP_IF_CHANNEL_FULL:
-                for w in self._watchers.values():
+                for w in list(self._watchers.values()):
                     if w._stopped.is_set():
                         continue
                     try:
@@ -129,7 +130,9 @@ class Broadcaster:
                     except asyncio.QueueFull:
                         pass
                 return
-            for w in self._watchers.values():
+            for w in list(self._watchers.values()):
+                if w._stopped.is_set():
+                    continue
                 _, pending = await asyncio.wait(
                     [
                         asyncio.ensure_future(w._put(event)),
-- 
2.43.0


From c453ef4dae86f83080add7d5d7a02d4b24a2485f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:36 +0000
Subject: [PATCH 19/42] fix: do not lose the event of a cancelled receive from
 a broadcaster

---
 aiok8s/watch/mux.py | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/aiok8s/watch/mux.py b/aiok8s/watch/mux.py
index ffb41ce..febb15c 100644
--- a/aiok8s/watch/mux.py
+++ b/aiok8s/watch/mux.py
@@ -13,6 +13,7 @@
 # limitations under the License.
 
 import asyncio
+import collections
 import enum
 
 
@@ -159,21 +160,34 @@ class _BroadcasterWatcher:
         self._task = asyncio.ensure_future(self._stopped.wait())
         self._id = id_
         self._m = m
+        self._undelivered = collections.deque()
 
     def __aiter__(self):
         return self
 
     async def __anext__(self):
-        event = asyncio.ensure_future(self._result.get())
+        if self._undelivered:
+            event = self._undelivered.popleft()
+        else:
+            event = asyncio.ensure_future(self._result.get())
         while True:
-            done, _ = await asyncio.wait(
-                [event, self._task], return_when=asyncio.FIRST_COMPLETED
-            )
+            try:
+                done, _ = await asyncio.wait(
+                    [event, self._task], return_when=asyncio.FIRST_COMPLETED
+                )
+            except asyncio.CancelledError:
+                # Leave the event to the next receive.
+                if event.done():
+                    self._undelivered.append(event)
+                else:
+                    event.cancel()
+                raise
             if event in done:
                 if not self._result.maxsize:
                     self._result.task_done()
                 return await event
             if self._stopped.is_set():
+                event.cancel()
                 raise StopAsyncIteration
 
     async def __aenter__(self):
-- 
2.43.0


From 6e7b2f8638493344150e44e1c35f80a8b9717ab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:28 +0000
Subject: [PATCH 20/42] fix: do not let a busy handler of a shared informer
 hold up everything else

---
 aiok8s/cache/shared_informer.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/aiok8s/cache/shared_informer.py b/aiok8s/cache/shared_informer.py
index 1458ce4..77cd89b 100644
--- a/aiok8s/cache/shared_informer.py
+++ b/aiok8s/cache/shared_informer.py
@@ -348,7 +348,6 @@ class _ProcessListener:
                 else:
                     get_task.cancel()
                 if put_task in done:
-                    await next_queue.join()
                     if self._pending_notifications:
                         notification = self._pending_notifications.popleft()
                     else:
-- 
2.43.0


From 8bed448eac1ffd133f942fc1f35bc156c535aa50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:55 +0000
Subject: [PATCH 21/42] fix: tell every handler of a shared informer what a
 relist changed

---
 aiok8s/cache/shared_informer.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/aiok8s/cache/shared_informer.py b/aiok8s/cache/shared_informer.py
index 77cd89b..f3a61f0 100644
--- a/aiok8s/cache/shared_informer.py
+++ b/aiok8s/cache/shared_informer.py
@@ -17,6 +17,7 @@ import collections
 import logging
 from typing import Any, NamedTuple
 
+from aiok8s.api import meta
 from aiok8s.cache import controller, delta_fifo, index, store
 from aiok8s.util import clock, retry, wait
 
@@ -181,9 +182,14 @@ class _SharedIndexInformer:
                     delta_fifo.DeltaType.ADDED,
                     delta_fifo.DeltaType.UPDATED,
                 ):
-                    is_sync = d.type == delta_fifo.DeltaType.SYNC
                     old = self._indexer.get(d.object)
                     if old is not None:
+                        # A relist also yields SYNC, for objects that changed too.
+                        is_sync = (
+                            d.type == delta_fifo.DeltaType.SYNC
+                            and meta.accessor(old).resource_version
+                            == meta.accessor(d.object).resource_version
+                        )
                         await self._indexer.update(d.object)
                         await self._processor._distribute(
                             _UpdateNotification(old_obj=old, new_obj=d.object), is_sync
@@ -191,7 +197,7 @@ class _SharedIndexInformer:
                     else:
                         await self._indexer.add(d.object)
                         await self._processor._distribute(
-                            _AddNotification(new_obj=d.object), is_sync
+                            _AddNotification(new_obj=d.object), False
                         )
                 elif d.type == delta_fifo.DeltaType.DELETED:
                     await self._indexer.delete(d.object)
@@ -253,8 +259,8 @@ class _SharedProcessor:
                 self._tasks.append(asyncio.ensure_future(listener._pop()))
 
     def _add_listener_locked(self, listener):
+        # Not syncing until its own resync is due.
         self._listeners.append(listener)
-        self._syncing_listeners.append(listener)
 
     async def _distribute(self, obj, sync):
         async with self._listeners_lock:
-- 
2.43.0


From bd1fb3443e9ff065f32ba4e4ba5b2f635aff812f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:30 +0000
Subject: [PATCH 22/42] fix: stop a shared informer's handlers with it and
 leave no task behind

---
 aiok8s/cache/shared_informer.py | 58 ++++++++++++++++++++-------------
 1 file changed, 35 insertions(+), 23 deletions(-)

diff --git a/aiok8s/cache/shared_informer.py b/aiok8s/cache/shared_informer.py
index f3a61f0..7306701 100644
--- a/aiok8s/cache/shared_informer.py
+++ b/aiok8s/cache/shared_informer.py
@@ -281,7 +281,10 @@ class _SharedProcessor:
         async with self._listeners_lock:
             for listener in self._listeners:
                 listener._stop_add.set()
-            await asyncio.gather(*self._tasks)
+            # A handler may be busy or pausing after a failure for any time.
+            for task in self._tasks:
+                task.cancel()
+            await asyncio.gather(*self._tasks, return_exceptions=True)
 
     def _should_resync(self):
         self._syncing_listeners = []
@@ -327,6 +330,7 @@ class _ProcessListener:
 
         next_queue = None
         notification = None
+        get_task = put_task = None
         stop_task = asyncio.ensure_future(self._stop_add.wait())
         try:
             while True:
@@ -337,12 +341,10 @@ class _ProcessListener:
                     put_task = asyncio.ensure_future(next_queue.put(notification))
                     tasks.append(put_task)
 
-                done, pending = await asyncio.wait(
+                done, _ = await asyncio.wait(
                     tasks, return_when=asyncio.FIRST_COMPLETED
                 )
                 if self._stop_add.is_set():
-                    for task in pending:
-                        task.cancel()
                     return
                 if get_task in done:
                     notification_to_add = await get_task
@@ -363,7 +365,7 @@ class _ProcessListener:
                     put_task.cancel()
         finally:
             self._stop_next.set()
-            stop_task.cancel()
+            await _cancel(stop_task, get_task, put_task)
 
     async def _run(self):
         stop_next_task = asyncio.ensure_future(self._stop_next.wait())
@@ -376,13 +378,15 @@ class _ProcessListener:
         async def condition():
             while True:
                 get_task = asyncio.ensure_future(get())
-                await asyncio.wait(
-                    [get_task, stop_next_task], return_when=asyncio.FIRST_COMPLETED
-                )
-                if self._stop_next.is_set():
-                    get_task.cancel()
-                    return True
-                notification = await get_task
+                try:
+                    await asyncio.wait(
+                        [get_task, stop_next_task], return_when=asyncio.FIRST_COMPLETED
+                    )
+                    if self._stop_next.is_set():
+                        return True
+                    notification = await get_task
+                finally:
+                    await _cancel(get_task)
                 if isinstance(notification, _UpdateNotification):
                     await self._handler.on_update(
                         notification.old_obj, notification.new_obj
@@ -394,17 +398,18 @@ class _ProcessListener:
                 else:
                     logger.error("unrecognized notification: %r", notification)
 
-        while True:
-            try:
-                await wait.exponential_backoff(retry.default_retry, condition)
-            except asyncio.CancelledError:
-                raise
-            except Exception:
-                await asyncio.sleep(60)
-            else:
-                break
-
-        stop_next_task.cancel()
+        try:
+            while True:
+                try:
+                    await wait.exponential_backoff(retry.default_retry, condition)
+                except asyncio.CancelledError:
+                    raise
+                except Exception:
+                    await asyncio.sleep(60)
+                else:
+                    break
+        finally:
+            await _cancel(stop_next_task)
 
     def _should_resync(self, now):
         return bool(self._resync_period) and now >= self._next_resync
@@ -414,3 +419,10 @@ class _ProcessListener:
 
     def _set_resync_period(self, resync_period):
         self._resync_period = resync_period
+
+
+async def _cancel(*tasks):
+    tasks = [task for task in tasks if task]
+    for task in tasks:
+        task.cancel()
+    await asyncio.gather(*tasks, return_exceptions=True)
-- 
2.43.0


From 1d373feabc0735ae6c942149cb5f6730c92766a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:48 +0000
Subject: [PATCH 23/42] fix: reconcile objects whose deletion was only noticed
 by a relist

---
 aiok8s/controller/source.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/aiok8s/controller/source.py b/aiok8s/controller/source.py
index 5ede8da..8cd02a7 100644
--- a/aiok8s/controller/source.py
+++ b/aiok8s/controller/source.py
@@ -16,6 +16,7 @@ import logging
 from typing import Any, Collection, NamedTuple
 
 from aiok8s.api import meta
+from aiok8s.cache import delta_fifo
 from aiok8s.controller import event
 
 logger = logging.getLogger(__name__)
@@ -79,6 +80,10 @@ class EventHandler(NamedTuple):
         await self.event_handler.update(update_event, self.queue)
 
     async def on_delete(self, obj):
+        if isinstance(obj, delta_fifo.DeletedFinalStateUnknown):
+            # The deletion was missed; use the last known state.
+            obj = obj.obj
+
         try:
             metadata = meta.accessor(obj)
         except Exception:
-- 
2.43.0


From 66d9ff09030115a6b241a8a807aba4671c1c60e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:27 +0000
Subject: [PATCH 24/42] fix: leave nothing running when a manager is cancelled
 or fails

---
 aiok8s/controller/manager.py | 31 +++++++++++++++++++++----------
 1 file changed, 21 insertions(+), 10 deletions(-)

diff --git a/aiok8s/controller/manager.py b/aiok8s/controller/manager.py
index 0df810b..533323a 100644
--- a/aiok8s/controller/manager.py
+++ b/aiok8s/controller/manager.py
@@ -47,18 +47,29 @@ class _ControllerManager:
         return self._cache
 
     async def _start_non_leader_election_runnables(self):
-        async with self._mutex:
-            task = await self._wait_for_cache()
-            aws = [
-                asyncio.ensure_future(controller.start())
-                for controller in self._non_leader_election_runnables
-            ]
-        await asyncio.gather(task, *aws)
+        tasks = []
+        try:
+            async with self._mutex:
+                await self._wait_for_cache(tasks)
+                tasks.extend(
+                    asyncio.ensure_future(controller.start())
+                    for controller in self._non_leader_election_runnables
+                )
+            if tasks:
+                done, _ = await asyncio.wait(
+                    tasks, return_when=asyncio.FIRST_EXCEPTION
+                )
+                for task in done:
+                    task.result()
+        finally:
+            # Leave nothing running behind, however far this got.
+            for task in tasks:
+                task.cancel()
+            await asyncio.gather(*tasks, return_exceptions=True)
 
-    async def _wait_for_cache(self):
+    async def _wait_for_cache(self, tasks):
         if self._started:
             return
-        task = asyncio.ensure_future(self._cache.start())
+        tasks.append(asyncio.ensure_future(self._cache.start()))
         await self._cache.wait_for_cache_sync()
         self._started = True
-        return task
-- 
2.43.0


From 37077b78aaa22abd6937cec8db6c6e64bdf57867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:15 +0000
Subject: [PATCH 25/42] fix: keep a cache's resync period within ten percent of
 the configured one

---
 aiok8s/controller/_informers_map.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aiok8s/controller/_informers_map.py b/aiok8s/controller/_informers_map.py
index ce301d5..d672aab 100644
--- a/aiok8s/controller/_informers_map.py
+++ b/aiok8s/controller/_informers_map.py
@@ -101,7 +101,7 @@ def _create_structured_list_watch(gvk, ip):
 
 
 def _resync_period(resync):
-    return lambda: resync * (random.random() / 5 * 0.9)
+    return lambda: resync * (random.random() / 5 + 0.9)
 
 
 def _get_kwargs(ip, options):
-- 
2.43.0


From f08ecd457a863ae770cd237b647c2daf1d40fe17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:15 +0000
Subject: [PATCH 26/42] fix: run informers that are asked for after the cache
 has started

---
 aiok8s/controller/_informers_map.py | 37 ++++++++++++++++++++++-------
 1 file changed, 29 insertions(+), 8 deletions(-)

diff --git a/aiok8s/controller/_informers_map.py b/aiok8s/controller/_informers_map.py
index d672aab..27352eb 100644
--- a/aiok8s/controller/_informers_map.py
+++ b/aiok8s/controller/_informers_map.py
@@ -34,15 +34,33 @@ class _SpecificInformersMap:
         self._informers_by_gvk = {}
         self._mutex = asyncio.Lock()
         self._started = False
+        self._stopped = False
+        self._tasks = []
+        self._failed = None
 
     async def start(self):
         async with self._mutex:
-            aws = [
-                asyncio.ensure_future(informer.informer.run())
-                for informer in self._informers_by_gvk.values()
-            ]
+            self._failed = asyncio.get_event_loop().create_future()
+            for informer in self._informers_by_gvk.values():
+                self._run_informer(informer)
             self._started = True
-        await asyncio.gather(*aws)
+        try:
+            # Informers added from now on are run too.
+            await self._failed
+        finally:
+            self._stopped = True
+            for task in self._tasks:
+                task.cancel()
+            await asyncio.gather(*self._tasks, return_exceptions=True)
+
+    def _run_informer(self, informer):
+        def done(task):
+            if not self._failed.done() and not task.cancelled() and task.exception():
+                self._failed.set_exception(task.exception())
+
+        task = asyncio.ensure_future(informer.informer.run())
+        task.add_done_callback(done)
+        self._tasks.append(task)
 
     def has_synced_funcs(self):
         return [
@@ -58,9 +76,10 @@ class _SpecificInformersMap:
             informer = self._add_informer_to_map(gvk, obj)
 
         if started and not informer.informer.has_synced():
-            if not await shared_informer.wait_for_cache_sync(
-                informer.informer.has_synced
-            ):
+            await shared_informer.wait_for_cache_sync(
+                lambda: self._stopped or informer.informer.has_synced()
+            )
+            if not informer.informer.has_synced():
                 raise Exception(f"failed waiting for {obj} Informer to sync")
 
         return started, informer
@@ -81,6 +100,8 @@ class _SpecificInformersMap:
             new_informer, _cache_reader.CacheReader(new_informer.get_indexer(), gvk)
         )
         self._informers_by_gvk[gvk] = informer
+        if self._started and not self._stopped:
+            self._run_informer(informer)
         return informer
 
 
-- 
2.43.0


From 8b654cacea05ea952090b066e188c41ec63547df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:40 +0000
Subject: [PATCH 27/42] fix: requeue an item whose processing failed before
 anyone can see the queue without it

---
 aiok8s/cache/controller.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/aiok8s/cache/controller.py b/aiok8s/cache/controller.py
index b2ddc0b..93bce36 100644
--- a/aiok8s/cache/controller.py
+++ b/aiok8s/cache/controller.py
@@ -78,12 +78,23 @@ class _Controller:
     async def _process_loop(self):
         while True:
             try:
-                await self._config.queue.pop(self._config.process)
+                await self._config.queue.pop(self._process)
             except fifo.FIFOClosedError:
                 return
-            except fifo.ProcessError as e:
-                if self._config.retry_on_error:
-                    await self._config.queue.add_if_not_present(e.item)
+            except fifo.ProcessError:
+                # Let others run even if an item keeps failing at once.
+                await asyncio.sleep(0)
+
+    async def _process(self, obj):
+        try:
+            await self._config.process(obj)
+        except (asyncio.CancelledError, fifo.RequeueError):
+            raise
+        except Exception as e:
+            if self._config.retry_on_error:
+                # Requeue before a producer can see the queue without the item.
+                raise fifo.RequeueError from e
+            raise
 
 
 class ResourceEventHandlerFuncs(NamedTuple):
-- 
2.43.0


From 946ba3b5f4f304013967e9ca9a64e811f1c4d7e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:13 +0000
Subject: [PATCH 28/42] fix: import the API module of kubernetes_asyncio under
 its real name

---
 aiok8s/leaderelection/resourcelock.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aiok8s/leaderelection/resourcelock.py b/aiok8s/leaderelection/resourcelock.py
index 39322b9..6314514 100644
--- a/aiok8s/leaderelection/resourcelock.py
+++ b/aiok8s/leaderelection/resourcelock.py
@@ -15,7 +15,7 @@
 import json
 from typing import NamedTuple
 
-from kubernetes_asyncio.client import apis, models
+from kubernetes_asyncio.client import api, models
 
 LEADER_ELECTION_RECORD_ANNOTATION_KEY = "control-plane.alpha.kubernetes.io/leader"
 
@@ -27,7 +27,7 @@ class ResourceLockConfig(NamedTuple):
 def new(namespace, name, rlc, client=None):
     return ConfigMapLock(
         config_map_meta=models.V1ObjectMeta(namespace=namespace, name=name),
-        client=apis.CoreV1Api(client),
+        client=api.CoreV1Api(client),
         lock_config=rlc,
     )
 
-- 
2.43.0


From 7f90ff9fc81d0bbe1244396252c9187dced07717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:13 +0000
Subject: [PATCH 29/42] fix: read a config map lock without a config map or a
 record

---
 aiok8s/leaderelection/resourcelock.py | 29 +++++++++++++++++----------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/aiok8s/leaderelection/resourcelock.py b/aiok8s/leaderelection/resourcelock.py
index 6314514..b43e233 100644
--- a/aiok8s/leaderelection/resourcelock.py
+++ b/aiok8s/leaderelection/resourcelock.py
@@ -15,7 +15,7 @@
 import json
 from typing import NamedTuple
 
-from kubernetes_asyncio.client import api, models
+from kubernetes_asyncio.client import api, exceptions, models
 
 LEADER_ELECTION_RECORD_ANNOTATION_KEY = "control-plane.alpha.kubernetes.io/leader"
 
@@ -40,14 +40,20 @@ class ConfigMapLock:
         self._cm = None
 
     async def get(self):
-        self._cm = await self.client.read_namespaced_config_map(
-            self.config_map_meta.name, self.config_map_meta.namespace
-        )
-        raw_record = (
-            self._cm.metadata.annotations
-            and self._cm.metadata.annotations.get(LEADER_ELECTION_RECORD_ANNOTATION_KEY)
+        try:
+            self._cm = await self.client.read_namespaced_config_map(
+                self.config_map_meta.name, self.config_map_meta.namespace
+            )
+        except exceptions.ApiException as e:
+            if e.status != 404:
+                raise
+            self._cm = None
+            return None, None
+        raw_record = (self._cm.metadata.annotations or {}).get(
+            LEADER_ELECTION_RECORD_ANNOTATION_KEY
         )
-        record = raw_record and json.loads(raw_record)
+        # Without the annotation there is something to update but no record yet.
+        record = json.loads(raw_record) if raw_record else {}
         return record, raw_record
 
     async def create(self, leader_election_record):
@@ -67,9 +73,10 @@ class ConfigMapLock:
         if not self._cm:
             raise Exception("configmap not initialized, call get or create first")
         raw_record = json.dumps(leader_election_record)
-        self._cm.metadata.annotations[
-            LEADER_ELECTION_RECORD_ANNOTATION_KEY
-        ] = raw_record
+        self._cm.metadata.annotations = {
+            **(self._cm.metadata.annotations or {}),
+            LEADER_ELECTION_RECORD_ANNOTATION_KEY: raw_record,
+        }
         self._cm = await self.client.replace_namespaced_config_map(
             self.config_map_meta.name, self.config_map_meta.namespace, self._cm
         )
-- 
2.43.0


From 9e3b57edc8839d68c0450722ed7fb3303e5640bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:13 +0000
Subject: [PATCH 30/42] fix: keep track of the observed leader election record

---
 aiok8s/leaderelection/leaderelection.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/aiok8s/leaderelection/leaderelection.py b/aiok8s/leaderelection/leaderelection.py
index 6bb9ea7..b30f88f 100644
--- a/aiok8s/leaderelection/leaderelection.py
+++ b/aiok8s/leaderelection/leaderelection.py
@@ -61,6 +61,10 @@ class LeaderElector:
             raise Exception("lock must not be None")
         self._config = lec
         self._clock = clock.RealClock()
+        self._observed_record = {}
+        self._observed_raw_record = None
+        self._observed_time = 0
+        self._reported_leader = None
 
     async def run(self):
         try:
@@ -74,7 +78,8 @@ class LeaderElector:
             await asyncio.gather(task, return_exceptions=True)
 
     def is_leader(self):
-        return self._observed_record.holder_identity == self._config.lock.identity()
+        holder_identity = self._observed_record.get("holderIdentity")
+        return holder_identity == self._config.lock.identity()
 
     async def _acquire(self):
         succeeded = False
@@ -207,10 +212,11 @@ class LeaderElector:
         return True
 
     def _maybe_report_transition(self):
-        if self._observed_record.holder_identity == self._reported_leader:
+        holder_identity = self._observed_record.get("holderIdentity")
+        if holder_identity == self._reported_leader:
             return
-        self._reported_leader = self._observed_record.holder_identity
-        if self._config.callbacks.on_new_leader:
+        self._reported_leader = holder_identity
+        if self._reported_leader and self._config.callbacks.on_new_leader:
             asyncio.ensure_future(
                 self._config.callbacks.on_new_leader(self._reported_leader)
             )
-- 
2.43.0


From 98a0cdd1463345ee1d3cc49033dac5bb6a8ce395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:13 +0000
Subject: [PATCH 31/42] fix: count leader transitions from the first leader
 election record on

---
 aiok8s/leaderelection/leaderelection.py | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/aiok8s/leaderelection/leaderelection.py b/aiok8s/leaderelection/leaderelection.py
index b30f88f..c7e6a5e 100644
--- a/aiok8s/leaderelection/leaderelection.py
+++ b/aiok8s/leaderelection/leaderelection.py
@@ -162,6 +162,7 @@ class LeaderElector:
             return False
         if old_leader_election_record is None:
             try:
+                leader_election_record["leaderTransitions"] = 0
                 await self._config.lock.create(leader_election_record)
             except asyncio.CancelledError:
                 raise
@@ -187,17 +188,14 @@ class LeaderElector:
             )
             return False
 
+        leader_transitions = old_leader_election_record.get("leaderTransitions", 0)
         if self.is_leader():
-            leader_election_record["acquireTime"] = old_leader_election_record[
-                "acquireTime"
-            ]
-            leader_election_record["leaderTransitions"] = old_leader_election_record[
-                "leaderTransitions"
-            ]
-        else:
-            leader_election_record["leaderTransitions"] = (
-                old_leader_election_record["leaderTransitions"] + 1
+            leader_election_record["acquireTime"] = old_leader_election_record.get(
+                "acquireTime", now
             )
+            leader_election_record["leaderTransitions"] = leader_transitions
+        else:
+            leader_election_record["leaderTransitions"] = leader_transitions + 1
 
         try:
             await self._config.lock.update(leader_election_record)
-- 
2.43.0


From 47927c5ff8070e642a6ad962751f68a195084b71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:13 +0000
Subject: [PATCH 32/42] fix: let an elector be cancelled before it ever led

---
 aiok8s/leaderelection/leaderelection.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/aiok8s/leaderelection/leaderelection.py b/aiok8s/leaderelection/leaderelection.py
index c7e6a5e..18d08cd 100644
--- a/aiok8s/leaderelection/leaderelection.py
+++ b/aiok8s/leaderelection/leaderelection.py
@@ -67,15 +67,18 @@ class LeaderElector:
         self._reported_leader = None
 
     async def run(self):
+        task = None
         try:
             if not await self._acquire():
                 return
             task = asyncio.ensure_future(self._config.callbacks.on_started_leading())
             await self._renew()
         finally:
-            task.cancel()
+            if task:
+                task.cancel()
             await self._config.callbacks.on_stopped_leading()
-            await asyncio.gather(task, return_exceptions=True)
+            if task:
+                await asyncio.gather(task, return_exceptions=True)
 
     def is_leader(self):
         holder_identity = self._observed_record.get("holderIdentity")
-- 
2.43.0


From 3e33868f7609c73ae1558b3a99e845833efabd43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:14 +0000
Subject: [PATCH 33/42] fix: stop leading when the lease was not renewed within
 the renew deadline

---
 aiok8s/leaderelection/leaderelection.py | 27 ++++++++++++++++++-------
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/aiok8s/leaderelection/leaderelection.py b/aiok8s/leaderelection/leaderelection.py
index 18d08cd..e5cb079 100644
--- a/aiok8s/leaderelection/leaderelection.py
+++ b/aiok8s/leaderelection/leaderelection.py
@@ -64,6 +64,7 @@ class LeaderElector:
         self._observed_record = {}
         self._observed_raw_record = None
         self._observed_time = 0
+        self._renewed_at = 0
         self._reported_leader = None
 
     async def run(self):
@@ -110,8 +111,11 @@ class LeaderElector:
             while True:
                 description = self._config.lock.describe()
                 try:
-                    await wait.poll_immediate_infinite(
-                        self._config.retry_period, self._try_acquire_or_renew
+                    await asyncio.wait_for(
+                        wait.poll_immediate_infinite(
+                            self._config.retry_period, self._try_acquire_or_renew
+                        ),
+                        self._time_to_renew(),
                     )
                 except asyncio.CancelledError:
                     raise
@@ -122,7 +126,9 @@ class LeaderElector:
                     logger.debug("successfully renewed lease %s", description)
                 finally:
                     self._maybe_report_transition()
-                await asyncio.sleep(self._config.retry_period)
+                await asyncio.sleep(
+                    min(self._config.retry_period, self._time_to_renew())
+                )
         finally:
             if self._config.release_on_cancel:
                 await self._release()
@@ -172,9 +178,7 @@ class LeaderElector:
             except Exception as e:
                 logger.error("error initially creating leader election record: %r", e)
                 return False
-            self._observed_record = leader_election_record
-            self._observed_time = self._clock.now()
-            return True
+            return self._set_renewed(leader_election_record, now)
 
         if self._observed_raw_record != old_leader_election_raw_record:
             self._observed_record = dict(old_leader_election_record)
@@ -208,9 +212,18 @@ class LeaderElector:
             logger.error("Failed to update lock: %r", e)
             return False
 
+        return self._set_renewed(leader_election_record, now)
+
+    def _set_renewed(self, leader_election_record, now):
         self._observed_record = leader_election_record
         self._observed_time = self._clock.now()
-        return True
+        self._renewed_at = now
+        # If confirmed too late, the lease may already be somebody else's.
+        return self._time_to_renew() > 0
+
+    def _time_to_renew(self):
+        # Others may count the lease from when its last renewal was requested.
+        return self._renewed_at + self._config.renew_deadline - self._clock.now()
 
     def _maybe_report_transition(self):
         holder_identity = self._observed_record.get("holderIdentity")
-- 
2.43.0


From 595d44861af6845410e5b5d8c0bbb5e294946b63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:37 +0000
Subject: [PATCH 34/42] fix: release a leader election lock only after leading
 has stopped

---
 aiok8s/leaderelection/leaderelection.py | 61 +++++++++++++------------
 1 file changed, 32 insertions(+), 29 deletions(-)

diff --git a/aiok8s/leaderelection/leaderelection.py b/aiok8s/leaderelection/leaderelection.py
index e5cb079..0af1389 100644
--- a/aiok8s/leaderelection/leaderelection.py
+++ b/aiok8s/leaderelection/leaderelection.py
@@ -80,6 +80,9 @@ class LeaderElector:
             await self._config.callbacks.on_stopped_leading()
             if task:
                 await asyncio.gather(task, return_exceptions=True)
+            # Only now may another elector lead.
+            if self._config.release_on_cancel:
+                await self._release()
 
     def is_leader(self):
         holder_identity = self._observed_record.get("holderIdentity")
@@ -107,46 +110,46 @@ class LeaderElector:
         return succeeded
 
     async def _renew(self):
-        try:
-            while True:
-                description = self._config.lock.describe()
-                try:
-                    await asyncio.wait_for(
-                        wait.poll_immediate_infinite(
-                            self._config.retry_period, self._try_acquire_or_renew
-                        ),
-                        self._time_to_renew(),
-                    )
-                except asyncio.CancelledError:
-                    raise
-                except Exception as e:
-                    logger.info("failed to renew lease %s: %r", description, e)
-                    break
-                else:
-                    logger.debug("successfully renewed lease %s", description)
-                finally:
-                    self._maybe_report_transition()
-                await asyncio.sleep(
-                    min(self._config.retry_period, self._time_to_renew())
+        while True:
+            description = self._config.lock.describe()
+            try:
+                await asyncio.wait_for(
+                    wait.poll_immediate_infinite(
+                        self._config.retry_period, self._try_acquire_or_renew
+                    ),
+                    self._time_to_renew(),
                 )
-        finally:
-            if self._config.release_on_cancel:
-                await self._release()
+            except asyncio.CancelledError:
+                raise
+            except Exception as e:
+                logger.info("failed to renew lease %s: %r", description, e)
+                break
+            else:
+                logger.debug("successfully renewed lease %s", description)
+            finally:
+                self._maybe_report_transition()
+            await asyncio.sleep(min(self._config.retry_period, self._time_to_renew()))
 
     async def _release(self):
         if not self.is_leader():
             return True
-        leader_election_record = {
-            "leaderTransitions": self._observed_record["leaderTransitions"]
-        }
         try:
-            await self._config.lock.update(leader_election_record)
+            await asyncio.wait_for(self._release_if_held(), self._config.renew_deadline)
         except asyncio.CancelledError:
             raise
         except Exception as e:
             logger.error("Failed to release lock: %r", e)
             return False
-        self._observed_record = leader_election_record
+        return True
+
+    async def _release_if_held(self):
+        # A renewal may have been interrupted, so the last known state may be stale.
+        record, _ = await self._config.lock.get()
+        record = dict(record or {})
+        if record.get("holderIdentity") == self._config.lock.identity():
+            record = {"leaderTransitions": record.get("leaderTransitions", 0)}
+            await self._config.lock.update(record)
+        self._observed_record = record
         self._observed_time = self._clock.now()
 
     async def _try_acquire_or_renew(self):
-- 
2.43.0


From b10207d91d1daa317fd4fe219a5b9d35ed97beb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:57 +0000
Subject: [PATCH 35/42] fix: do not leave a task waiting for the stop event
 after a cancelled or failed until

---
 aiok8s/util/wait.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/aiok8s/util/wait.py b/aiok8s/util/wait.py
index 8c63733..264b9af 100644
--- a/aiok8s/util/wait.py
+++ b/aiok8s/util/wait.py
@@ -48,6 +48,14 @@ async def until(f, period, stop_event):
 
 async def jitter_until(f, period, jitter_factor, sliding, stop_event):
     stop_task = asyncio.ensure_future(stop_event.wait())
+    try:
+        await _jitter_until(f, period, jitter_factor, sliding, stop_event, stop_task)
+    finally:
+        # Do not wait on for a stop that may never come.
+        stop_task.cancel()
+
+
+async def _jitter_until(f, period, jitter_factor, sliding, stop_event, stop_task):
     while not stop_event.is_set():
         if jitter_factor > 0:
             jittered_period = jitter(period, jitter_factor)
-- 
2.43.0


From 9bc01c0f6161cbe77b4771d0906f3f1c588c6afb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:57 +0000
Subject: [PATCH 36/42] fix: a cancelled add_after left a task behind until the
 queue was shut down

---
 aiok8s/workqueue/delaying_queue.py | 29 +++++++++++++++--------------
 1 file changed, 15 insertions(+), 14 deletions(-)

diff --git a/aiok8s/workqueue/delaying_queue.py b/aiok8s/workqueue/delaying_queue.py
index fb266b2..09b2d32 100644
--- a/aiok8s/workqueue/delaying_queue.py
+++ b/aiok8s/workqueue/delaying_queue.py
@@ -41,20 +41,21 @@ class _DelayingType(queue.Type):
             await self.add(item)
             return
 
-        _, pending = await asyncio.wait(
-            [
-                asyncio.ensure_future(self._stop_event.wait()),
-                asyncio.ensure_future(
-                    self._waiting_for_add_queue.put(
-                        _WaitFor(data=item, ready_at=self._clock.now() + duration)
-                    )
-                ),
-            ],
-            return_when=asyncio.FIRST_COMPLETED,
-        )
-        for task in pending:
-            task.cancel()
-            await asyncio.gather(task, return_exceptions=True)
+        tasks = [
+            asyncio.ensure_future(self._stop_event.wait()),
+            asyncio.ensure_future(
+                self._waiting_for_add_queue.put(
+                    _WaitFor(data=item, ready_at=self._clock.now() + duration)
+                )
+            ),
+        ]
+        try:
+            await asyncio.wait(tasks, return_when=asyncio.FIRST_COMPLETED)
+        finally:
+            # Also when cancelled: do not wait on for the end of the queue.
+            for task in tasks:
+                task.cancel()
+            await asyncio.gather(*tasks, return_exceptions=True)
 
     async def shut_down(self):
         if not self._stop_event.is_set():
-- 
2.43.0


From 561e55a6b1a334323f72cfe56794b86a57f42b3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:30 +0000
Subject: [PATCH 37/42] fix: a cancelled registration left a watcher behind
 that broadcasts wait for

---
 aiok8s/watch/mux.py | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/aiok8s/watch/mux.py b/aiok8s/watch/mux.py
index febb15c..0888014 100644
--- a/aiok8s/watch/mux.py
+++ b/aiok8s/watch/mux.py
@@ -50,7 +50,13 @@ class Broadcaster:
                 )
                 self._watchers[id_] = w
 
-        await self._block_queue(f)
+        try:
+            await self._block_queue(f)
+        except asyncio.CancelledError:
+            # Nobody will receive from the watcher.
+            if w:
+                await w.stop()
+            raise
         return w
 
     async def watch_with_prefix(self, queued_events):
@@ -68,7 +74,13 @@ class Broadcaster:
                 for e in queued_events:
                     await w._put(e)
 
-        await self._block_queue(f)
+        try:
+            await self._block_queue(f)
+        except asyncio.CancelledError:
+            # Nobody will receive from the watcher.
+            if w:
+                await w.stop()
+            raise
         return w
 
     async def action(self, action, obj):
@@ -80,8 +92,11 @@ class Broadcaster:
 
     async def _block_queue(self, f):
         event = asyncio.Event()
+        abandoned = False
 
         async def func():
+            if abandoned:
+                return
             try:
                 await f()
             finally:
@@ -93,7 +108,11 @@ class Broadcaster:
                 "object": _FunctionFakeRuntimeObject(func),
             }
         )
-        await event.wait()
+        try:
+            await event.wait()
+        except asyncio.CancelledError:
+            abandoned = True
+            raise
 
     async def _stop_watching(self, id_):
         # Without the lock, which a distribution may hold while it waits for another
-- 
2.43.0


From ae661d0635084e266c9665cba4805d2403401419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:22 +0000
Subject: [PATCH 38/42] fix: a timed-out receive swallowed a fake watcher's
 next event, and a reset right after a stop hung the receiver

---
 aiok8s/watch/watch.py | 28 ++++++++++++++++++++++------
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/aiok8s/watch/watch.py b/aiok8s/watch/watch.py
index ebe0b4d..a7becf3 100644
--- a/aiok8s/watch/watch.py
+++ b/aiok8s/watch/watch.py
@@ -13,6 +13,7 @@
 # limitations under the License.
 
 import asyncio
+import collections
 import logging
 
 logger = logging.getLogger(__name__)
@@ -31,21 +32,35 @@ class FakeWatcher:
         self._stopped = asyncio.Event()
         self._task = asyncio.ensure_future(self._stopped.wait())
         self._result = result
+        self._undelivered = collections.deque()
         self._mutex = asyncio.Lock()
 
     def __aiter__(self):
         return self
 
     async def __anext__(self):
-        event = asyncio.ensure_future(self._result.get())
+        result, stopped = self._result, self._task
+        if self._undelivered:
+            event = self._undelivered.popleft()
+        else:
+            event = asyncio.ensure_future(result.get())
         while True:
-            done, _ = await asyncio.wait(
-                [event, self._task], return_when=asyncio.FIRST_COMPLETED
-            )
+            try:
+                done, _ = await asyncio.wait(
+                    [event, stopped], return_when=asyncio.FIRST_COMPLETED
+                )
+            except asyncio.CancelledError:
+                # Leave the event to the next receive.
+                if event.done():
+                    self._undelivered.append(event)
+                else:
+                    event.cancel()
+                raise
             if event in done:
-                self._result.task_done()
+                result.task_done()
                 return await event
-            if self._stopped.is_set():
+            if stopped.done():
+                # Even if the watcher was reset in the meantime.
                 event.cancel()
                 raise StopAsyncIteration
 
@@ -67,6 +82,7 @@ class FakeWatcher:
             self._stopped.clear()
             self._task = asyncio.ensure_future(self._stopped.wait())
             self._result = asyncio.Queue()
+            self._undelivered = collections.deque()
 
     async def add(self, obj):
         await self.action(EventType.ADDED, obj)
-- 
2.43.0


From 1753566c2adb981d75fa2710dceafeabc17253dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:26 +0000
Subject: [PATCH 39/42] fix: an item that asks to be requeued over and over
 starved the event loop

---
 aiok8s/cache/controller.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/aiok8s/cache/controller.py b/aiok8s/cache/controller.py
index 93bce36..a995330 100644
--- a/aiok8s/cache/controller.py
+++ b/aiok8s/cache/controller.py
@@ -88,10 +88,11 @@ class _Controller:
     async def _process(self, obj):
         try:
             await self._config.process(obj)
-        except (asyncio.CancelledError, fifo.RequeueError):
+        except asyncio.CancelledError:
             raise
         except Exception as e:
-            if self._config.retry_on_error:
+            # With a cause, so that others run before the item is retried.
+            if self._config.retry_on_error or isinstance(e, fifo.RequeueError):
                 # Requeue before a producer can see the queue without the item.
                 raise fifo.RequeueError from e
             raise
-- 
2.43.0


From 883b7e7ef98eb3b91123f7be47158e7765fe3def Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:46:52 +0000
Subject: [PATCH 40/42] fix: start a watch that is added to a running
 controller

Controller.watch only recorded it; its events never led to a reconcile.
---
 aiok8s/controller/controller.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/aiok8s/controller/controller.py b/aiok8s/controller/controller.py
index e2e48a7..1c191aa 100644
--- a/aiok8s/controller/controller.py
+++ b/aiok8s/controller/controller.py
@@ -40,6 +40,7 @@ class _Controller:
         self.jitter_period = 1
         self._mutex = asyncio.Lock()
         self._watches = []
+        self._started = False
 
     async def reconcile(self, request):
         return await self.do.reconcile(request)
@@ -52,6 +53,8 @@ class _Controller:
                 self.set_fields(predicate)
 
             self._watches.append(_WatchDescription(source, event_handler, predicates))
+            if self._started:
+                await source.start(event_handler, self.queue, *predicates)
 
     async def start(self):
         self.queue = self.make_queue()
@@ -74,9 +77,11 @@ class _Controller:
                     asyncio.ensure_future(aw())
                     for _ in range(self.max_concurrent_reconciles)
                 ]
+                self._started = True
 
             await asyncio.gather(*aws)
         finally:
+            self._started = False
             await self.queue.shut_down()
 
     def inject_func(self, f):
-- 
2.43.0


From 997e715b9440e84c3234f9335861ebc244febf86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:46:52 +0000
Subject: [PATCH 41/42] fix: start a runnable that is added to a running
 manager

Manager.add only recorded it; a controller or runnable added after the start never ran.
---
 aiok8s/controller/manager.py | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/aiok8s/controller/manager.py b/aiok8s/controller/manager.py
index 533323a..9d714f3 100644
--- a/aiok8s/controller/manager.py
+++ b/aiok8s/controller/manager.py
@@ -28,11 +28,14 @@ class _ControllerManager:
         self._non_leader_election_runnables = []
         self._mutex = asyncio.Lock()
         self._started = False
+        self._start_late = None
 
     def add(self, runnable):
         self.set_fields(runnable)
 
         self._non_leader_election_runnables.append(runnable)
+        if self._start_late:
+            self._start_late(runnable)
 
     def set_fields(self, i):
         if hasattr(i, "inject_cache"):
@@ -48,6 +51,19 @@ class _ControllerManager:
 
     async def _start_non_leader_election_runnables(self):
         tasks = []
+        late_tasks = set()
+        late_failure = asyncio.get_event_loop().create_future()
+
+        def start_late(runnable):
+            task = asyncio.ensure_future(runnable.start())
+            late_tasks.add(task)
+            task.add_done_callback(late_done)
+
+        def late_done(task):
+            late_tasks.discard(task)
+            if not task.cancelled() and task.exception() and not late_failure.done():
+                late_failure.set_exception(task.exception())
+
         try:
             async with self._mutex:
                 await self._wait_for_cache(tasks)
@@ -55,14 +71,17 @@ class _ControllerManager:
                     asyncio.ensure_future(controller.start())
                     for controller in self._non_leader_election_runnables
                 )
+                self._start_late = start_late
             if tasks:
                 done, _ = await asyncio.wait(
-                    tasks, return_when=asyncio.FIRST_EXCEPTION
+                    [*tasks, late_failure], return_when=asyncio.FIRST_EXCEPTION
                 )
                 for task in done:
                     task.result()
         finally:
+            self._start_late = None
             # Leave nothing running behind, however far this got.
+            tasks.extend([*late_tasks, late_failure])
             for task in tasks:
                 task.cancel()
             await asyncio.gather(*tasks, return_exceptions=True)
-- 
2.43.0


From aebc758e5c4737f8487831c268b9ecc092728fb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:10:55 +0000
Subject: [PATCH 42/42] fix: when a controller is cancelled, wait for every
 worker

start() returned as soon as the first worker had ended, while a reconcile of
another worker could still be cleaning up.
---
 aiok8s/controller/controller.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/aiok8s/controller/controller.py b/aiok8s/controller/controller.py
index 1c191aa..5df7f0a 100644
--- a/aiok8s/controller/controller.py
+++ b/aiok8s/controller/controller.py
@@ -79,7 +79,12 @@ class _Controller:
                 ]
                 self._started = True
 
-            await asyncio.gather(*aws)
+            try:
+                await asyncio.gather(*aws)
+            except asyncio.CancelledError:
+                # Wait for every worker, and not only for the first to end.
+                await asyncio.gather(*aws, return_exceptions=True)
+                raise
         finally:
             self._started = False
             await self.queue.shut_down()
-- 
2.43.0

