From a8126d568dea8eaf08076f294686bf4b761c0dc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:01 +0000
Subject: [PATCH 01/31] fix: delaying queue shut_down recursed into itself
 instead of shutting the queue down

---
 aiok8s/workqueue/delaying_queue.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aiok8s/workqueue/delaying_queue.py b/aiok8s/workqueue/delaying_queue.py
index a9768d5..fb266b2 100644
--- a/aiok8s/workqueue/delaying_queue.py
+++ b/aiok8s/workqueue/delaying_queue.py
@@ -59,7 +59,7 @@ class _DelayingType(queue.Type):
     async def shut_down(self):
         if not self._stop_event.is_set():
             self._stop_event.set()
-            await self.shut_down()
+            await super().shut_down()
             self._heartbeat.stop()
 
     async def _waiting_loop(self):
-- 
2.43.0


From 2eee98e40d092b8db997867d5d4fbb26af9faeab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:01 +0000
Subject: [PATCH 02/31] fix: exponential failure limiter raised OverflowError
 after 1024 failures

---
 aiok8s/workqueue/default_rate_limiters.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/aiok8s/workqueue/default_rate_limiters.py b/aiok8s/workqueue/default_rate_limiters.py
index e0c7504..499d9b2 100644
--- a/aiok8s/workqueue/default_rate_limiters.py
+++ b/aiok8s/workqueue/default_rate_limiters.py
@@ -13,6 +13,7 @@
 # limitations under the License.
 
 import collections
+import math
 import operator
 import time
 
@@ -67,7 +68,10 @@ class ItemExponentialFailureRateLimiter:
         exp = self._failures[item]
         self._failures[item] += 1
 
-        backoff = self._base_delay * 2 ** exp
+        try:
+            backoff = math.ldexp(self._base_delay, exp)
+        except OverflowError:
+            return self._max_delay
         calculated = min(backoff, self._max_delay)
         return calculated
 
-- 
2.43.0


From 24675992419d982b4f3642d31610a9691e537122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:01 +0000
Subject: [PATCH 03/31] fix: removing an object whose index function repeats a
 value raised KeyError

---
 aiok8s/cache/thread_safe_store.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aiok8s/cache/thread_safe_store.py b/aiok8s/cache/thread_safe_store.py
index 49b5d33..1e6e3a8 100644
--- a/aiok8s/cache/thread_safe_store.py
+++ b/aiok8s/cache/thread_safe_store.py
@@ -139,6 +139,6 @@ class _ThreadSafeMap:
             for index_value in index_values:
                 set_ = index.get(index_value)
                 if set_:
-                    set_.remove(key)
+                    set_.discard(key)
                     if not set_:
                         del index[index_value]
-- 
2.43.0


From 2f9d9cbded6f45b76e11148d5b50dc90d4357999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:01 +0000
Subject: [PATCH 04/31] fix: add_indexers refused every non-conflicting set of
 indexers

---
 aiok8s/cache/thread_safe_store.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aiok8s/cache/thread_safe_store.py b/aiok8s/cache/thread_safe_store.py
index 1e6e3a8..38fb932 100644
--- a/aiok8s/cache/thread_safe_store.py
+++ b/aiok8s/cache/thread_safe_store.py
@@ -113,7 +113,7 @@ class _ThreadSafeMap:
                 raise Exception("cannot add indexers to running index")
             old_keys = self._indexers.keys()
             new_keys = new_indexers.keys()
-            if old_keys | new_keys:
+            if old_keys & new_keys:
                 raise Exception(f"indexer conflict: {old_keys & new_keys}")
             self._indexers.update(new_indexers)
 
-- 
2.43.0


From 07c08d9de98e57f1b9df79d2af407d6a1d4b29b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:01 +0000
Subject: [PATCH 05/31] fix: FIFO.delete of an absent key raised KeyError

---
 aiok8s/cache/fifo.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aiok8s/cache/fifo.py b/aiok8s/cache/fifo.py
index 7e6914d..4bce805 100644
--- a/aiok8s/cache/fifo.py
+++ b/aiok8s/cache/fifo.py
@@ -63,7 +63,7 @@ class FIFO:
             raise store.StoreKeyError(obj) from e
         async with self._lock:
             self._populated = True
-            del self._items[id_]
+            self._items.pop(id_, None)
 
     def list(self):
         return list(self._items.values())
-- 
2.43.0


From 6bd0c27d3491fd5bd2b2f32fe5569eee1afb2921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:26 +0000
Subject: [PATCH 06/31] fix: relist missed deletions of objects still pending
 in the delta queue

---
 aiok8s/cache/delta_fifo.py | 34 +++++++++++++++-------------------
 1 file changed, 15 insertions(+), 19 deletions(-)

diff --git a/aiok8s/cache/delta_fifo.py b/aiok8s/cache/delta_fifo.py
index 5534780..b74eeee 100644
--- a/aiok8s/cache/delta_fifo.py
+++ b/aiok8s/cache/delta_fifo.py
@@ -82,28 +82,24 @@ class DeltaFIFO:
                 key = self.key_of(item)
                 keys.add(key)
                 self._queue_action_locked(DeltaType.SYNC, item)
-            if not self._known_objects:
-                queued_deletions = 0
-                for k, old_item in self._items.items():
-                    if k in keys:
-                        continue
-                    deleted_obj = None
-                    n = old_item.newest()
-                    if n:
-                        deleted_obj = n.object
-                    queued_deletions += 1
-                    self._queue_action_locked(
-                        DeltaType.DELETED, DeletedFinalStateUnknown(k, deleted_obj)
-                    )
-                if not self._populated:
-                    self._populated = True
-                    self._initial_population_count = len(list_) + queued_deletions
-                return
-            known_keys = self._known_objects.list_keys()
             queued_deletions = 0
-            for k in known_keys:
+            for k, old_item in self._items.items():
                 if k in keys:
                     continue
+                deleted_obj = None
+                n = old_item.newest()
+                if n:
+                    deleted_obj = n.object
+                    if isinstance(deleted_obj, DeletedFinalStateUnknown):
+                        deleted_obj = deleted_obj.obj
+                queued_deletions += 1
+                self._queue_action_locked(
+                    DeltaType.DELETED, DeletedFinalStateUnknown(k, deleted_obj)
+                )
+            known_keys = self._known_objects.list_keys() if self._known_objects else []
+            for k in known_keys:
+                if k in keys or k in self._items:
+                    continue
                 try:
                     deleted_obj = self._known_objects.get_by_key(k)
                 except Exception as e:
-- 
2.43.0


From 4dd89b11c323e78ed2a523dc89d75fd1002e3125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:26 +0000
Subject: [PATCH 07/31] fix: has_synced never turned true after a first list
 with repeated keys

---
 aiok8s/cache/delta_fifo.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aiok8s/cache/delta_fifo.py b/aiok8s/cache/delta_fifo.py
index b74eeee..cd5f4df 100644
--- a/aiok8s/cache/delta_fifo.py
+++ b/aiok8s/cache/delta_fifo.py
@@ -123,7 +123,7 @@ class DeltaFIFO:
                 )
             if not self._populated:
                 self._populated = True
-                self._initial_population_count = len(list_) + queued_deletions
+                self._initial_population_count = len(keys) + queued_deletions
 
     async def resync(self):
         async with self._cond:
-- 
2.43.0


From e0dd561cb8293e7cbc2927d2ec2f7c87b930d140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:02 +0000
Subject: [PATCH 08/31] fix: has_synced turned true while the last object of
 the first list was still being processed

---
 aiok8s/cache/delta_fifo.py | 11 +++++++++--
 aiok8s/cache/fifo.py       | 11 +++++++++--
 2 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/aiok8s/cache/delta_fifo.py b/aiok8s/cache/delta_fifo.py
index cd5f4df..eaede66 100644
--- a/aiok8s/cache/delta_fifo.py
+++ b/aiok8s/cache/delta_fifo.py
@@ -141,21 +141,24 @@ class DeltaFIFO:
                         raise fifo.FIFOClosedError
                     await self._cond.wait()
                 id_ = self._queue.pop(0)
-                if self._initial_population_count:
-                    self._initial_population_count -= 1
                 if id_ not in self._items:
+                    self._count_processed()
                     continue
                 item = self._items.pop(id_)
                 try:
                     await process(item)
                 except fifo.RequeueError as e:
+                    self._count_processed()
                     self._add_if_not_present(id_, item)
                     if e.__cause__:
                         raise fifo.ProcessError(item) from e.__cause__
                 except asyncio.CancelledError:
                     raise
                 except Exception as e:
+                    self._count_processed()
                     raise fifo.ProcessError(item) from e
+                else:
+                    self._count_processed()
                 return item
 
     async def add_if_not_present(self, obj):
@@ -185,6 +188,10 @@ class DeltaFIFO:
     def is_closed(self):
         return self._closed
 
+    def _count_processed(self):
+        if self._initial_population_count:
+            self._initial_population_count -= 1
+
     def _add_if_not_present(self, id_, deltas):
         self._populated = True
         if id_ in self._items:
diff --git a/aiok8s/cache/fifo.py b/aiok8s/cache/fifo.py
index 4bce805..6002fe3 100644
--- a/aiok8s/cache/fifo.py
+++ b/aiok8s/cache/fifo.py
@@ -116,19 +116,22 @@ class FIFO:
                         raise FIFOClosedError
                     await self._cond.wait()
                 id_ = self._queue.pop(0)
-                if self._initial_population_count:
-                    self._initial_population_count -= 1
                 if id_ not in self._items:
+                    self._count_processed()
                     continue
                 item = self._items.pop(id_)
                 try:
                     process(item)
                 except RequeueError as e:
+                    self._count_processed()
                     self._add_if_not_present(id_, item)
                     if e.__cause__:
                         raise ProcessError(item) from e.__cause__
                 except Exception as e:
+                    self._count_processed()
                     raise ProcessError(item) from e
+                else:
+                    self._count_processed()
                 return item
 
     async def add_if_not_present(self, obj):
@@ -150,6 +153,10 @@ class FIFO:
     def is_closed(self):
         return self._closed
 
+    def _count_processed(self):
+        if self._initial_population_count:
+            self._initial_population_count -= 1
+
     def _add_if_not_present(self, id_, obj):
         self._populated = True
         if id_ in self._items:
-- 
2.43.0


From bdcff5318f3a21b707078ea1a8fbae99729eac77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:02 +0000
Subject: [PATCH 09/31] fix: changes found by a relist reached only the
 listeners of the last resync

---
 aiok8s/cache/shared_informer.py | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/aiok8s/cache/shared_informer.py b/aiok8s/cache/shared_informer.py
index 1458ce4..bd68516 100644
--- a/aiok8s/cache/shared_informer.py
+++ b/aiok8s/cache/shared_informer.py
@@ -17,6 +17,7 @@ import collections
 import logging
 from typing import Any, NamedTuple
 
+from aiok8s.api import meta
 from aiok8s.cache import controller, delta_fifo, index, store
 from aiok8s.util import clock, retry, wait
 
@@ -181,9 +182,12 @@ class _SharedIndexInformer:
                     delta_fifo.DeltaType.ADDED,
                     delta_fifo.DeltaType.UPDATED,
                 ):
-                    is_sync = d.type == delta_fifo.DeltaType.SYNC
                     old = self._indexer.get(d.object)
                     if old is not None:
+                        is_sync = (
+                            d.type == delta_fifo.DeltaType.SYNC
+                            and _is_same_version(old, d.object)
+                        )
                         await self._indexer.update(d.object)
                         await self._processor._distribute(
                             _UpdateNotification(old_obj=old, new_obj=d.object), is_sync
@@ -191,7 +195,7 @@ class _SharedIndexInformer:
                     else:
                         await self._indexer.add(d.object)
                         await self._processor._distribute(
-                            _AddNotification(new_obj=d.object), is_sync
+                            _AddNotification(new_obj=d.object), False
                         )
                 elif d.type == delta_fifo.DeltaType.DELETED:
                     await self._indexer.delete(d.object)
@@ -202,6 +206,17 @@ class _SharedIndexInformer:
                     raise AssertionError
 
 
+def _is_same_version(old, new):
+    if old is new:
+        return True
+    try:
+        old_version = meta.accessor(old).resource_version
+        new_version = meta.accessor(new).resource_version
+    except Exception:
+        return False
+    return bool(new_version) and old_version == new_version
+
+
 class _UpdateNotification(NamedTuple):
     old_obj: Any
     new_obj: Any
-- 
2.43.0


From e65ac95cf01403f88f4f1792fb5f549db2f068d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:02 +0000
Subject: [PATCH 10/31] fix: reflector hung forever when the watch stream
 raised an exception

---
 aiok8s/cache/reflector.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/aiok8s/cache/reflector.py b/aiok8s/cache/reflector.py
index 3d4c339..8c4f5f8 100644
--- a/aiok8s/cache/reflector.py
+++ b/aiok8s/cache/reflector.py
@@ -146,10 +146,12 @@ class Reflector:
         event_queue = asyncio.Queue()
 
         async def get_events():
-            async with w:
-                async for event in w:
-                    await event_queue.put(event)
-            await event_queue.put(None)
+            try:
+                async with w:
+                    async for event in w:
+                        await event_queue.put(event)
+            finally:
+                event_queue.put_nowait(None)
 
         get_events_task = asyncio.ensure_future(get_events())
         error_task = asyncio.ensure_future(error_queue.get())
@@ -230,6 +232,7 @@ class Reflector:
                 options["resource_version"] = new_resource_version
                 self._set_last_sync_resource_version(new_resource_version)
                 event_count += 1
+            await get_events_task
             watch_duration = self._clock.since(start)
             if watch_duration < 1 and not event_count:
                 raise Exception(
-- 
2.43.0


From bf36cca81f22e0bfa67300d43e25bcd9ff35aab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:02 +0000
Subject: [PATCH 11/31] fix: deletions noticed by a relist enqueued no request

---
 aiok8s/controller/source.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/aiok8s/controller/source.py b/aiok8s/controller/source.py
index 5ede8da..4bd04bb 100644
--- a/aiok8s/controller/source.py
+++ b/aiok8s/controller/source.py
@@ -16,6 +16,7 @@ import logging
 from typing import Any, Collection, NamedTuple
 
 from aiok8s.api import meta
+from aiok8s.cache import delta_fifo
 from aiok8s.controller import event
 
 logger = logging.getLogger(__name__)
@@ -79,6 +80,8 @@ class EventHandler(NamedTuple):
         await self.event_handler.update(update_event, self.queue)
 
     async def on_delete(self, obj):
+        if isinstance(obj, delta_fifo.DeletedFinalStateUnknown):
+            obj = obj.obj
         try:
             metadata = meta.accessor(obj)
         except Exception:
-- 
2.43.0


From d793ab65685b9a26888a979b89c5669e39aaca1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:02 +0000
Subject: [PATCH 12/31] fix: group_version_kind of objects of the core group
 raised ValueError

---
 aiok8s/api/meta.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aiok8s/api/meta.py b/aiok8s/api/meta.py
index df8f547..59c13ac 100644
--- a/aiok8s/api/meta.py
+++ b/aiok8s/api/meta.py
@@ -161,7 +161,7 @@ class _ObjectAccessor:
     # Motivated by apimachinery/pkg/apis/meta/v1/meta.go GroupVersionKind()
     @property
     def group_version_kind(self):
-        group, version = self.api_version.split("/")
+        group, _, version = self.api_version.rpartition("/")
         return schema.GroupVersionKind(group, version, self.kind)
 
 
-- 
2.43.0


From 0013cf46b10359f911c47fb2d581a8a88f605856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:02 +0000
Subject: [PATCH 13/31] fix: accessor of a dict without a namespace raised
 KeyError

---
 aiok8s/api/meta.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aiok8s/api/meta.py b/aiok8s/api/meta.py
index 59c13ac..736be49 100644
--- a/aiok8s/api/meta.py
+++ b/aiok8s/api/meta.py
@@ -127,7 +127,7 @@ class _UnstructuredAccessor:
 
     @property
     def namespace(self):
-        return self._metadata["namespace"]
+        return self._metadata.get("namespace")
 
     @property
     def name(self):
-- 
2.43.0


From 051ed99fcf188f1fcb8a41fa82dadb68152de044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:02 +0000
Subject: [PATCH 14/31] fix: informer cache resync periods were at most 0.18
 times the configured one

---
 aiok8s/controller/_informers_map.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aiok8s/controller/_informers_map.py b/aiok8s/controller/_informers_map.py
index ce301d5..d672aab 100644
--- a/aiok8s/controller/_informers_map.py
+++ b/aiok8s/controller/_informers_map.py
@@ -101,7 +101,7 @@ def _create_structured_list_watch(gvk, ip):
 
 
 def _resync_period(resync):
-    return lambda: resync * (random.random() / 5 * 0.9)
+    return lambda: resync * (random.random() / 5 + 0.9)
 
 
 def _get_kwargs(ip, options):
-- 
2.43.0


From b4a56eb50a053ff6161a7892d00fdf3883269a97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:56 +0000
Subject: [PATCH 15/31] fix: resourcelock imported a module kubernetes_asyncio
 does not have

---
 aiok8s/leaderelection/resourcelock.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aiok8s/leaderelection/resourcelock.py b/aiok8s/leaderelection/resourcelock.py
index 39322b9..6314514 100644
--- a/aiok8s/leaderelection/resourcelock.py
+++ b/aiok8s/leaderelection/resourcelock.py
@@ -15,7 +15,7 @@
 import json
 from typing import NamedTuple
 
-from kubernetes_asyncio.client import apis, models
+from kubernetes_asyncio.client import api, models
 
 LEADER_ELECTION_RECORD_ANNOTATION_KEY = "control-plane.alpha.kubernetes.io/leader"
 
@@ -27,7 +27,7 @@ class ResourceLockConfig(NamedTuple):
 def new(namespace, name, rlc, client=None):
     return ConfigMapLock(
         config_map_meta=models.V1ObjectMeta(namespace=namespace, name=name),
-        client=apis.CoreV1Api(client),
+        client=api.CoreV1Api(client),
         lock_config=rlc,
     )
 
-- 
2.43.0


From 05a5ae28e8ba5018e210e8f8a277012d2da63f70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:56 +0000
Subject: [PATCH 16/31] fix: config map lock never created a missing lock and
 failed on one without annotations

---
 aiok8s/leaderelection/resourcelock.py | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/aiok8s/leaderelection/resourcelock.py b/aiok8s/leaderelection/resourcelock.py
index 6314514..64cc7cb 100644
--- a/aiok8s/leaderelection/resourcelock.py
+++ b/aiok8s/leaderelection/resourcelock.py
@@ -15,7 +15,7 @@
 import json
 from typing import NamedTuple
 
-from kubernetes_asyncio.client import api, models
+from kubernetes_asyncio.client import api, exceptions, models
 
 LEADER_ELECTION_RECORD_ANNOTATION_KEY = "control-plane.alpha.kubernetes.io/leader"
 
@@ -40,14 +40,20 @@ class ConfigMapLock:
         self._cm = None
 
     async def get(self):
-        self._cm = await self.client.read_namespaced_config_map(
-            self.config_map_meta.name, self.config_map_meta.namespace
+        try:
+            self._cm = await self.client.read_namespaced_config_map(
+                self.config_map_meta.name, self.config_map_meta.namespace
+            )
+        except exceptions.ApiException as e:
+            if e.status != 404:
+                raise
+            return None, None
+        if self._cm.metadata.annotations is None:
+            self._cm.metadata.annotations = {}
+        raw_record = self._cm.metadata.annotations.get(
+            LEADER_ELECTION_RECORD_ANNOTATION_KEY, ""
         )
-        raw_record = (
-            self._cm.metadata.annotations
-            and self._cm.metadata.annotations.get(LEADER_ELECTION_RECORD_ANNOTATION_KEY)
-        )
-        record = raw_record and json.loads(raw_record)
+        record = json.loads(raw_record) if raw_record else {}
         return record, raw_record
 
     async def create(self, leader_election_record):
-- 
2.43.0


From 3c15b01a0a607b269788a35f541d40e23e525042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:56 +0000
Subject: [PATCH 17/31] fix: leader elector read observed-record attributes it
 never set

---
 aiok8s/leaderelection/leaderelection.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/aiok8s/leaderelection/leaderelection.py b/aiok8s/leaderelection/leaderelection.py
index 6bb9ea7..565c7bb 100644
--- a/aiok8s/leaderelection/leaderelection.py
+++ b/aiok8s/leaderelection/leaderelection.py
@@ -61,6 +61,10 @@ class LeaderElector:
             raise Exception("lock must not be None")
         self._config = lec
         self._clock = clock.RealClock()
+        self._observed_record = {}
+        self._observed_raw_record = None
+        self._observed_time = 0
+        self._reported_leader = None
 
     async def run(self):
         try:
@@ -74,7 +78,9 @@ class LeaderElector:
             await asyncio.gather(task, return_exceptions=True)
 
     def is_leader(self):
-        return self._observed_record.holder_identity == self._config.lock.identity()
+        return (
+            self._observed_record.get("holderIdentity") == self._config.lock.identity()
+        )
 
     async def _acquire(self):
         succeeded = False
@@ -207,9 +213,10 @@ class LeaderElector:
         return True
 
     def _maybe_report_transition(self):
-        if self._observed_record.holder_identity == self._reported_leader:
+        holder_identity = self._observed_record.get("holderIdentity")
+        if holder_identity == self._reported_leader:
             return
-        self._reported_leader = self._observed_record.holder_identity
+        self._reported_leader = holder_identity
         if self._config.callbacks.on_new_leader:
             asyncio.ensure_future(
                 self._config.callbacks.on_new_leader(self._reported_leader)
-- 
2.43.0


From 0c4b4e5d9717c032c9e949b336964f40d1fbd513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:56 +0000
Subject: [PATCH 18/31] fix: created leader election records lacked the
 transition count every later step reads

---
 aiok8s/leaderelection/leaderelection.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/aiok8s/leaderelection/leaderelection.py b/aiok8s/leaderelection/leaderelection.py
index 565c7bb..2119a77 100644
--- a/aiok8s/leaderelection/leaderelection.py
+++ b/aiok8s/leaderelection/leaderelection.py
@@ -162,6 +162,7 @@ class LeaderElector:
             )
             return False
         if old_leader_election_record is None:
+            leader_election_record["leaderTransitions"] = 0
             try:
                 await self._config.lock.create(leader_election_record)
             except asyncio.CancelledError:
@@ -197,7 +198,7 @@ class LeaderElector:
             ]
         else:
             leader_election_record["leaderTransitions"] = (
-                old_leader_election_record["leaderTransitions"] + 1
+                old_leader_election_record.get("leaderTransitions", 0) + 1
             )
 
         try:
-- 
2.43.0


From e54911b1741506ac058b7006e4b0d0695e408ad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:56 +0000
Subject: [PATCH 19/31] fix: leader elector took a foreign record for its own
 when it reappeared unchanged

---
 aiok8s/leaderelection/leaderelection.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/aiok8s/leaderelection/leaderelection.py b/aiok8s/leaderelection/leaderelection.py
index 2119a77..6581bcf 100644
--- a/aiok8s/leaderelection/leaderelection.py
+++ b/aiok8s/leaderelection/leaderelection.py
@@ -171,6 +171,7 @@ class LeaderElector:
                 logger.error("error initially creating leader election record: %r", e)
                 return False
             self._observed_record = leader_election_record
+            self._observed_raw_record = None
             self._observed_time = self._clock.now()
             return True
 
@@ -210,6 +211,7 @@ class LeaderElector:
             return False
 
         self._observed_record = leader_election_record
+        self._observed_raw_record = None
         self._observed_time = self._clock.now()
         return True
 
-- 
2.43.0


From 981bbb0f3d5f40fb260d962565fa48edbd49f128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:56 +0000
Subject: [PATCH 20/31] fix: leader elector kept renewing past its renew
 deadline

---
 aiok8s/leaderelection/leaderelection.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/aiok8s/leaderelection/leaderelection.py b/aiok8s/leaderelection/leaderelection.py
index 6581bcf..9d15d8c 100644
--- a/aiok8s/leaderelection/leaderelection.py
+++ b/aiok8s/leaderelection/leaderelection.py
@@ -108,8 +108,11 @@ class LeaderElector:
             while True:
                 description = self._config.lock.describe()
                 try:
-                    await wait.poll_immediate_infinite(
-                        self._config.retry_period, self._try_acquire_or_renew
+                    await asyncio.wait_for(
+                        wait.poll_immediate_infinite(
+                            self._config.retry_period, self._try_acquire_or_renew
+                        ),
+                        self._config.renew_deadline,
                     )
                 except asyncio.CancelledError:
                     raise
-- 
2.43.0


From 6bdb2e0fd1bef48a52c6d7d234bb97e29b8be4e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:56 +0000
Subject: [PATCH 21/31] fix: leader elector that never led failed on the way
 out

---
 aiok8s/leaderelection/leaderelection.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/aiok8s/leaderelection/leaderelection.py b/aiok8s/leaderelection/leaderelection.py
index 9d15d8c..b3a4ffd 100644
--- a/aiok8s/leaderelection/leaderelection.py
+++ b/aiok8s/leaderelection/leaderelection.py
@@ -67,15 +67,18 @@ class LeaderElector:
         self._reported_leader = None
 
     async def run(self):
+        task = None
         try:
             if not await self._acquire():
                 return
             task = asyncio.ensure_future(self._config.callbacks.on_started_leading())
             await self._renew()
         finally:
-            task.cancel()
+            if task:
+                task.cancel()
             await self._config.callbacks.on_stopped_leading()
-            await asyncio.gather(task, return_exceptions=True)
+            if task:
+                await asyncio.gather(task, return_exceptions=True)
 
     def is_leader(self):
         return (
-- 
2.43.0


From aa3dcb43ccbe0def9e6df1db110fb5e036c4a5d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:21 +0000
Subject: [PATCH 22/31] fix: an object listed again while its deletion was
 pending was lost

DeltaFIFO dropped the sync of a relisted object whose newest pending change
was a deletion, so an object that was deleted and created again between two
lists stayed missing from the informer's store. resync only queues syncs for
keys without pending changes and needs no such exception.
---
 aiok8s/cache/delta_fifo.py | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/aiok8s/cache/delta_fifo.py b/aiok8s/cache/delta_fifo.py
index eaede66..142d8de 100644
--- a/aiok8s/cache/delta_fifo.py
+++ b/aiok8s/cache/delta_fifo.py
@@ -200,14 +200,8 @@ class DeltaFIFO:
         self._items[id_] = deltas
         self._cond.notify_all()
 
-    def _will_object_be_deleted_locked(self, id_):
-        deltas = self._items.get(id_)
-        return deltas and deltas[-1].type is DeltaType.DELETED
-
     def _queue_action_locked(self, action_type, obj):
         id_ = self.key_of(obj)
-        if action_type is DeltaType.SYNC and self._will_object_be_deleted_locked(id_):
-            return
         new_deltas = Deltas([*self._items.get(id_, []), Delta(action_type, obj)])
         new_deltas = _dedup_deltas(new_deltas)
         if new_deltas:
-- 
2.43.0


From 673b6f7c32931aaf869f3286a4fac54df919b307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:17 +0000
Subject: [PATCH 23/31] fix: a cancelled wait for a watcher's next event lost
 the event

Cancelling _BroadcasterWatcher.__anext__ (for example by asyncio.wait_for)
left its queue.get() task behind, which then took the next event and
dropped it; an unbuffered broadcaster was blocked for good.
---
 aiok8s/watch/mux.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/aiok8s/watch/mux.py b/aiok8s/watch/mux.py
index 981557b..c4ce76d 100644
--- a/aiok8s/watch/mux.py
+++ b/aiok8s/watch/mux.py
@@ -156,17 +156,22 @@ class _BroadcasterWatcher:
         self._task = asyncio.ensure_future(self._stopped.wait())
         self._id = id_
         self._m = m
+        self._event = None
 
     def __aiter__(self):
         return self
 
     async def __anext__(self):
-        event = asyncio.ensure_future(self._result.get())
+        # Kept if this call is cancelled, so that the next call gets its event
+        if self._event is None:
+            self._event = asyncio.ensure_future(self._result.get())
+        event = self._event
         while True:
             done, _ = await asyncio.wait(
                 [event, self._task], return_when=asyncio.FIRST_COMPLETED
             )
             if event in done:
+                self._event = None
                 if not self._result.maxsize:
                     self._result.task_done()
                 return await event
-- 
2.43.0


From 1856daf8beabe16faa7145ed913437570b25fba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:37 +0000
Subject: [PATCH 24/31] fix: cancel the leader's work before releasing, release
 an acquired lease on every exit

The release ran before the leader's work was cancelled, so a slow or hanging
lock kept the work going past the renew deadline and gave the lease away while
it still ran; an elector cancelled right after acquiring never released.
---
 aiok8s/leaderelection/leaderelection.py | 52 ++++++++++++-------------
 1 file changed, 26 insertions(+), 26 deletions(-)

diff --git a/aiok8s/leaderelection/leaderelection.py b/aiok8s/leaderelection/leaderelection.py
index b3a4ffd..fbcfd8f 100644
--- a/aiok8s/leaderelection/leaderelection.py
+++ b/aiok8s/leaderelection/leaderelection.py
@@ -76,9 +76,13 @@ class LeaderElector:
         finally:
             if task:
                 task.cancel()
-            await self._config.callbacks.on_stopped_leading()
-            if task:
-                await asyncio.gather(task, return_exceptions=True)
+            try:
+                if self._config.release_on_cancel:
+                    await self._release()
+            finally:
+                await self._config.callbacks.on_stopped_leading()
+                if task:
+                    await asyncio.gather(task, return_exceptions=True)
 
     def is_leader(self):
         return (
@@ -107,29 +111,25 @@ class LeaderElector:
         return succeeded
 
     async def _renew(self):
-        try:
-            while True:
-                description = self._config.lock.describe()
-                try:
-                    await asyncio.wait_for(
-                        wait.poll_immediate_infinite(
-                            self._config.retry_period, self._try_acquire_or_renew
-                        ),
-                        self._config.renew_deadline,
-                    )
-                except asyncio.CancelledError:
-                    raise
-                except Exception as e:
-                    logger.info("failed to renew lease %s: %r", description, e)
-                    break
-                else:
-                    logger.debug("successfully renewed lease %s", description)
-                finally:
-                    self._maybe_report_transition()
-                await asyncio.sleep(self._config.retry_period)
-        finally:
-            if self._config.release_on_cancel:
-                await self._release()
+        while True:
+            description = self._config.lock.describe()
+            try:
+                await asyncio.wait_for(
+                    wait.poll_immediate_infinite(
+                        self._config.retry_period, self._try_acquire_or_renew
+                    ),
+                    self._config.renew_deadline,
+                )
+            except asyncio.CancelledError:
+                raise
+            except Exception as e:
+                logger.info("failed to renew lease %s: %r", description, e)
+                break
+            else:
+                logger.debug("successfully renewed lease %s", description)
+            finally:
+                self._maybe_report_transition()
+            await asyncio.sleep(self._config.retry_period)
 
     async def _release(self):
         if not self.is_leader():
-- 
2.43.0


From 7b04630c946338e87af4b6b7e05fa062dd177c8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:37 +0000
Subject: [PATCH 25/31] fix: limit the release of a lease by the renew deadline

A lock that hangs kept run from ever reporting that leading had stopped.
---
 aiok8s/leaderelection/leaderelection.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/aiok8s/leaderelection/leaderelection.py b/aiok8s/leaderelection/leaderelection.py
index fbcfd8f..f174887 100644
--- a/aiok8s/leaderelection/leaderelection.py
+++ b/aiok8s/leaderelection/leaderelection.py
@@ -138,7 +138,10 @@ class LeaderElector:
             "leaderTransitions": self._observed_record["leaderTransitions"]
         }
         try:
-            await self._config.lock.update(leader_election_record)
+            await asyncio.wait_for(
+                self._config.lock.update(leader_election_record),
+                self._config.renew_deadline,
+            )
         except asyncio.CancelledError:
             raise
         except Exception as e:
-- 
2.43.0


From 6b3876767d408d57ff574cfb23c93a6874a7c7b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:58 +0000
Subject: [PATCH 26/31] fix: manager started its controllers when its cache
 failed to sync

---
 aiok8s/controller/manager.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/aiok8s/controller/manager.py b/aiok8s/controller/manager.py
index 0df810b..c1157e4 100644
--- a/aiok8s/controller/manager.py
+++ b/aiok8s/controller/manager.py
@@ -59,6 +59,8 @@ class _ControllerManager:
         if self._started:
             return
         task = asyncio.ensure_future(self._cache.start())
-        await self._cache.wait_for_cache_sync()
+        if not await self._cache.wait_for_cache_sync():
+            task.cancel()
+            raise Exception("failed to wait for caches to sync")
         self._started = True
         return task
-- 
2.43.0


From 0667383a6ab36fbff6d93a944fae4ac6773cdbd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:36 +0000
Subject: [PATCH 27/31] fix: a manager cancelled before its cache had synced
 left the cache running

---
 aiok8s/controller/manager.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/aiok8s/controller/manager.py b/aiok8s/controller/manager.py
index c1157e4..54f8f0a 100644
--- a/aiok8s/controller/manager.py
+++ b/aiok8s/controller/manager.py
@@ -59,8 +59,11 @@ class _ControllerManager:
         if self._started:
             return
         task = asyncio.ensure_future(self._cache.start())
-        if not await self._cache.wait_for_cache_sync():
+        try:
+            if not await self._cache.wait_for_cache_sync():
+                raise Exception("failed to wait for caches to sync")
+        except BaseException:
             task.cancel()
-            raise Exception("failed to wait for caches to sync")
+            raise
         self._started = True
         return task
-- 
2.43.0


From bc692d3bb3fba491da8e190e0a2a5fb2e635ebe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:47 +0000
Subject: [PATCH 28/31] fix: a delayed add that is overdue when the loop takes
 it up replaces its item's waiting entry

It was added at once, past the entry already waiting for the same item (which was then
delivered a second time) and past items that were due earlier.
---
 aiok8s/workqueue/delaying_queue.py | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/aiok8s/workqueue/delaying_queue.py b/aiok8s/workqueue/delaying_queue.py
index fb266b2..150cdca 100644
--- a/aiok8s/workqueue/delaying_queue.py
+++ b/aiok8s/workqueue/delaying_queue.py
@@ -102,17 +102,11 @@ class _DelayingType(queue.Type):
                 return
             if wait_task in done:
                 wait_entry = await wait_task
-                if wait_entry.ready_at > self._clock.now():
-                    waiting_for_queue.insert(wait_entry.data, wait_entry.ready_at)
-                else:
-                    await self.add(wait_entry.data)
+                waiting_for_queue.insert(wait_entry.data, wait_entry.ready_at)
 
                 while not self._waiting_for_add_queue.empty():
                     wait_entry = self._waiting_for_add_queue.get_nowait()
-                    if wait_entry.ready_at > self._clock.now():
-                        waiting_for_queue.insert(wait_entry.data, wait_entry.ready_at)
-                    else:
-                        await self.add(wait_entry.data)
+                    waiting_for_queue.insert(wait_entry.data, wait_entry.ready_at)
 
 
 class _WaitFor(NamedTuple):
-- 
2.43.0


From 169cda1f4cde93d993343dc836b94598a58e473f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:17:00 +0000
Subject: [PATCH 29/31] fix: a handler added while a resync was under way took
 part in it, whatever its resync period

---
 aiok8s/cache/shared_informer.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/aiok8s/cache/shared_informer.py b/aiok8s/cache/shared_informer.py
index bd68516..e133c32 100644
--- a/aiok8s/cache/shared_informer.py
+++ b/aiok8s/cache/shared_informer.py
@@ -269,7 +269,9 @@ class _SharedProcessor:
 
     def _add_listener_locked(self, listener):
         self._listeners.append(listener)
-        self._syncing_listeners.append(listener)
+        # One that is added later only takes part in resyncs that begin after that
+        if not self._listeners_started:
+            self._syncing_listeners.append(listener)
 
     async def _distribute(self, obj, sync):
         async with self._listeners_lock:
-- 
2.43.0


From b5227135bdb07f439db1d220fd65fa7e2624ebcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:31:09 +0000
Subject: [PATCH 30/31] fix: a slow handler of a shared informer held up the
 store and the other handlers

---
 aiok8s/cache/shared_informer.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/aiok8s/cache/shared_informer.py b/aiok8s/cache/shared_informer.py
index e133c32..b52e0c5 100644
--- a/aiok8s/cache/shared_informer.py
+++ b/aiok8s/cache/shared_informer.py
@@ -365,7 +365,6 @@ class _ProcessListener:
                 else:
                     get_task.cancel()
                 if put_task in done:
-                    await next_queue.join()
                     if self._pending_notifications:
                         notification = self._pending_notifications.popleft()
                     else:
-- 
2.43.0


From c9e2b66304eb08bc943553ab7a3eeffecb8acfca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:47:19 +0000
Subject: [PATCH 31/31] fix: poll took a condition's own TimeoutError for the
 end of its time

---
 aiok8s/util/wait.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/aiok8s/util/wait.py b/aiok8s/util/wait.py
index ae86246..4454a2e 100644
--- a/aiok8s/util/wait.py
+++ b/aiok8s/util/wait.py
@@ -115,9 +115,21 @@ async def exponential_backoff(backoff, condition):
 
 # TODO: test, rewrite?
 async def poll(interval, timeout, condition):
+    condition_error = None
+
+    async def check():
+        nonlocal condition_error
+        try:
+            return await condition()
+        except asyncio.TimeoutError as e:
+            condition_error = e
+            raise
+
     try:
-        await asyncio.wait_for(poll_infinite(interval, condition), timeout)
-    except asyncio.TimeoutError:
+        await asyncio.wait_for(poll_infinite(interval, check), timeout)
+    except asyncio.TimeoutError as e:
+        if e is condition_error:
+            raise
         raise WaitTimeoutError
 
 
-- 
2.43.0

