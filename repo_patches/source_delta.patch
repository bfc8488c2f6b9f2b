From 8aa05fdbad3b00efed0b29c40b31e421e9735e2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:23 +0000
Subject: [PATCH 001/221] fix: SetHeap kept duplicates given to its constructor
 and did not forget items removed by pop_item

---
 satella/coding/structures/heaps/base.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/satella/coding/structures/heaps/base.py b/satella/coding/structures/heaps/base.py
index 41c5da1..9f1f960 100644
--- a/satella/coding/structures/heaps/base.py
+++ b/satella/coding/structures/heaps/base.py
@@ -153,9 +153,14 @@ class SetHeap(Heap):
             self.push(item)
 
     def __init__(self, from_list: tp.Optional[tp.Iterable[T]] = None):
-        super().__init__(from_list=from_list)
+        super().__init__(from_list=None if from_list is None else dict.fromkeys(from_list))
         self.set = set(self.data)
 
+    def pop_item(self, item: T) -> T:
+        super().pop_item(item)  # raises: ValueError
+        self.set.remove(item)
+        return item
+
     def push(self, item: T):
         if item not in self.set:
             super().push(item)
-- 
2.43.0


From 555d301b1d71dd6df59cbe6c60ea21287547a0c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:23 +0000
Subject: [PATCH 002/221] fix: TimeBasedHeap.get_timestamp compared the second
 part of the item instead of the item

---
 satella/coding/structures/heaps/time.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/satella/coding/structures/heaps/time.py b/satella/coding/structures/heaps/time.py
index fd65ad8..66512df 100644
--- a/satella/coding/structures/heaps/time.py
+++ b/satella/coding/structures/heaps/time.py
@@ -64,7 +64,7 @@ class TimeBasedHeap(Heap):
         Return the timestamp for given item
         """
         for ts, elem in self.data:
-            if elem[1] == item:
+            if elem == item:
                 return ts
 
     def pop_item(self, item: T) -> tp.Tuple[Number, T]:
-- 
2.43.0


From 374ba34a93999be83cfb83e675c9acf56d0139f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:23 +0000
Subject: [PATCH 003/221] fix: copying a time-based heap produced an empty heap
 with a broken clock

---
 satella/coding/structures/heaps/time.py | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/satella/coding/structures/heaps/time.py b/satella/coding/structures/heaps/time.py
index 66512df..dfa273f 100644
--- a/satella/coding/structures/heaps/time.py
+++ b/satella/coding/structures/heaps/time.py
@@ -1,3 +1,4 @@
+import copy
 import heapq
 import time
 import typing as tp
@@ -126,6 +127,16 @@ class TimeBasedHeap(Heap):
                 return
             yield self.pop()
 
+    def __copy__(self) -> 'TimeBasedHeap':
+        heap = self.__class__(self.default_clock_source)
+        heap.data = copy.copy(self.data)
+        return heap
+
+    def __deepcopy__(self, memo={}) -> 'TimeBasedHeap':
+        heap = self.__class__(self.default_clock_source)
+        heap.data = copy.deepcopy(self.data, memo)
+        return heap
+
     def remove(self, item: T) -> None:
         """
         Remove all things equal to item
@@ -264,6 +275,18 @@ class TimeBasedSetHeap(Heap):
                 return
             yield self.pop()
 
+    def __copy__(self) -> 'TimeBasedSetHeap':
+        heap = self.__class__(self.default_clock_source)
+        heap.data = copy.copy(self.data)
+        heap.item_to_timestamp = copy.copy(self.item_to_timestamp)
+        return heap
+
+    def __deepcopy__(self, memo={}) -> 'TimeBasedSetHeap':
+        heap = self.__class__(self.default_clock_source)
+        heap.data = copy.deepcopy(self.data, memo)
+        heap.item_to_timestamp = {item: ts for ts, item in heap.data}
+        return heap
+
     def remove(self, item: T) -> None:
         """
         Remove all things equal to item
-- 
2.43.0


From 8c83ae9853d55dcded22d03bd9973e9026b57d6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:23 +0000
Subject: [PATCH 004/221] fix: TimeBasedSetHeap.remove and filter_map left
 stale timestamps behind

---
 satella/coding/structures/heaps/time.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/satella/coding/structures/heaps/time.py b/satella/coding/structures/heaps/time.py
index dfa273f..9e6b3d6 100644
--- a/satella/coding/structures/heaps/time.py
+++ b/satella/coding/structures/heaps/time.py
@@ -292,3 +292,7 @@ class TimeBasedSetHeap(Heap):
         Remove all things equal to item
         """
         self.filter_map(filter_fun=lambda i: i[1] != item)
+
+    def filter_map(self, filter_fun=None, map_fun=None):
+        super().filter_map(filter_fun=filter_fun, map_fun=map_fun)
+        self.item_to_timestamp = {item: ts for ts, item in self.data}
-- 
2.43.0


From 003e42d11ba340ce81ee536b0d44b827594e28c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:23 +0000
Subject: [PATCH 005/221] fix: time-based heaps raised TypeError for equal
 timestamps of items that cannot be ordered

---
 satella/coding/structures/heaps/time.py | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/satella/coding/structures/heaps/time.py b/satella/coding/structures/heaps/time.py
index 9e6b3d6..f2628d3 100644
--- a/satella/coding/structures/heaps/time.py
+++ b/satella/coding/structures/heaps/time.py
@@ -8,7 +8,27 @@ from satella.coding.structures.heaps.base import Heap
 from satella.coding.typing import T, Number, NoArgCallable
 
 
-class TimeBasedHeap(Heap):
+class _Entry(tuple):
+    """A (timestamp, item) tuple ordered by timestamp alone, as items might not be comparable"""
+    __slots__ = ()
+
+    def __lt__(self, other) -> bool:
+        return self[0] < other[0]
+
+    def __gt__(self, other) -> bool:
+        return self[0] > other[0]
+
+
+class _TimestampedHeap(Heap):
+    def push(self, item: tp.Tuple[Number, T]) -> None:
+        super().push(_Entry(item))
+
+    def filter_map(self, filter_fun=None, map_fun=None):
+        super().filter_map(filter_fun,
+                           (lambda i: _Entry(map_fun(i))) if map_fun else None)
+
+
+class TimeBasedHeap(_TimestampedHeap):
     """
     A heap of items sorted by timestamps.
 
@@ -144,7 +164,7 @@ class TimeBasedHeap(Heap):
         self.filter_map(filter_fun=lambda i: i[1] != item)
 
 
-class TimeBasedSetHeap(Heap):
+class TimeBasedSetHeap(_TimestampedHeap):
     """
     A heap of items sorted by timestamps, with such invariant that every item can appear at most
     once.
-- 
2.43.0


From 4817b9f02ce50091ed01088b95f480d199e586af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:10 +0000
Subject: [PATCH 006/221] fix: SortedList could not be built of elements with
 equal keys that cannot be ordered

---
 satella/coding/structures/sorted_list.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/satella/coding/structures/sorted_list.py b/satella/coding/structures/sorted_list.py
index dd2589c..ed5e151 100644
--- a/satella/coding/structures/sorted_list.py
+++ b/satella/coding/structures/sorted_list.py
@@ -20,7 +20,7 @@ class SortedList(tp.Generic[T]):
     __slots__ = ('items', 'keys', 'key')
 
     def __init__(self, items: tp.Iterable[T] = (), key: tp.Callable[[T], int] = lambda a: a):
-        sort = sorted((key(item), item) for item in items)
+        sort = sorted(((key(item), item) for item in items), key=lambda a: a[0])
         self.items = SliceableDeque(a[1] for a in sort)  # type: SliceableDeque[T]
         self.keys = collections.deque(a[0] for a in sort)  # type: collections.deque[int]
         self.key = key  # type: tp.Callable[[T], int]
-- 
2.43.0


From e4bb2b6cb4c8d4cf76c4134d6456e79768196fdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:19 +0000
Subject: [PATCH 007/221] fix: TwoWayDictionary.done() and leaving its context
 manager raised AttributeError

---
 satella/coding/structures/dictionaries/objects.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/satella/coding/structures/dictionaries/objects.py b/satella/coding/structures/dictionaries/objects.py
index cfbe502..3c733a4 100644
--- a/satella/coding/structures/dictionaries/objects.py
+++ b/satella/coding/structures/dictionaries/objects.py
@@ -145,8 +145,8 @@ class TwoWayDictionary(tp.MutableMapping[K, V]):
 
         Internally this will break the reference cycle, and enable Python GC to collect the objects.
         """
-        self.reverse.reverse = None
-        self.reverse = None
+        self._reverse._reverse = None
+        self._reverse = None
 
     def __init__(self, data=None, _is_reverse: bool = False):
         if not _is_reverse:
-- 
2.43.0


From 45fd89843421af8098acd164d68a10c767d44de1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:19 +0000
Subject: [PATCH 008/221] fix: copies of a DictionaryView forgot its
 propagate_deletes and assign_to_same_dict

---
 satella/coding/structures/dictionaries/objects.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/satella/coding/structures/dictionaries/objects.py b/satella/coding/structures/dictionaries/objects.py
index 3c733a4..30d8584 100644
--- a/satella/coding/structures/dictionaries/objects.py
+++ b/satella/coding/structures/dictionaries/objects.py
@@ -229,10 +229,14 @@ class DictionaryView(tp.MutableMapping[K, V]):
     __slots__ = 'assign_to_same_dict', 'master_dict', 'dictionaries', 'propagate_deletes'
 
     def __copy__(self) -> DictionaryView:
-        return DictionaryView(*copy.copy(self.dictionaries))
+        return DictionaryView(*copy.copy(self.dictionaries),
+                              propagate_deletes=self.propagate_deletes,
+                              assign_to_same_dict=self.assign_to_same_dict)
 
     def __deepcopy__(self, memo) -> 'DictionaryView':
-        return DictionaryView(*copy.deepcopy(self.dictionaries, memo=memo))
+        return DictionaryView(*copy.deepcopy(self.dictionaries, memo=memo),
+                              propagate_deletes=self.propagate_deletes,
+                              assign_to_same_dict=self.assign_to_same_dict)
 
     def __init__(self, master_dict: tp.Dict[K, V], *rest_of_dicts: tp.Dict[K, V],
                  propagate_deletes: bool = True,
-- 
2.43.0


From ce99a1411f986ef5dc60fa1b10bddb470130ca47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:50 +0000
Subject: [PATCH 009/221] fix: reading an expired entry of ExpiringEntryDict
 left it half-removed, so that later calls raised KeyError

---
 satella/coding/structures/dictionaries/expiring.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/satella/coding/structures/dictionaries/expiring.py b/satella/coding/structures/dictionaries/expiring.py
index 4d4e8ce..c588bcc 100644
--- a/satella/coding/structures/dictionaries/expiring.py
+++ b/satella/coding/structures/dictionaries/expiring.py
@@ -215,7 +215,7 @@ class ExpiringEntryDict(Monitor, tp.MutableMapping[K, V], Cleanupable):
     def __getitem__(self, item: K) -> V:
         ts = self.key_to_expiration_time.get_timestamp(item)
         if ts < self.time_getter():
-            del self.data[item]
+            del self[item]
             raise KeyError('Entry expired')
 
         return self.data[item]
-- 
2.43.0


From 66153b5d32c7b4f98a2631b62a2ad1d9205d4689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:50 +0000
Subject: [PATCH 010/221] fix: deleting a missing key of ExpiringEntryDict
 raised ValueError instead of KeyError

---
 satella/coding/structures/dictionaries/expiring.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/satella/coding/structures/dictionaries/expiring.py b/satella/coding/structures/dictionaries/expiring.py
index c588bcc..31b2072 100644
--- a/satella/coding/structures/dictionaries/expiring.py
+++ b/satella/coding/structures/dictionaries/expiring.py
@@ -220,6 +220,7 @@ class ExpiringEntryDict(Monitor, tp.MutableMapping[K, V], Cleanupable):
 
         return self.data[item]
 
+    @rethrow_as(ValueError, KeyError)
     @Monitor.synchronized
     def __delitem__(self, key: K) -> None:
         self.key_to_expiration_time.pop_item(key)
-- 
2.43.0


From 1d87ff79fb64a2c694181d785e91c73edbfd479e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:50 +0000
Subject: [PATCH 011/221] fix: iterating over SelfCleaningDefaultDict never
 yielded anything

---
 satella/coding/structures/dictionaries/expiring.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/satella/coding/structures/dictionaries/expiring.py b/satella/coding/structures/dictionaries/expiring.py
index 31b2072..1015866 100644
--- a/satella/coding/structures/dictionaries/expiring.py
+++ b/satella/coding/structures/dictionaries/expiring.py
@@ -99,7 +99,7 @@ class SelfCleaningDefaultDict(Monitor, tp.MutableMapping[K, V], Cleanupable):
 
     def __iter__(self) -> tp.Iterator[K]:
         self.cleanup()
-        return super().__iter__()
+        return iter(self.data)
 
     def __delitem__(self, key: K) -> None:
         if key in self.data:
-- 
2.43.0


From e036ac73787858904b42ee6df2864bd3726057ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:27 +0000
Subject: [PATCH 012/221] fix: CacheDict ignored its time_getter while deciding
 whether an entry is stale

---
 satella/coding/structures/dictionaries/cache_dict.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/satella/coding/structures/dictionaries/cache_dict.py b/satella/coding/structures/dictionaries/cache_dict.py
index 89cedc6..74673a7 100644
--- a/satella/coding/structures/dictionaries/cache_dict.py
+++ b/satella/coding/structures/dictionaries/cache_dict.py
@@ -217,7 +217,7 @@ class CacheDict(tp.Mapping[K, V]):
             return self.get_value_block(key)
 
         timestamp = self.timestamp_data[key]
-        now = time.monotonic()
+        now = self.time_getter()
 
         if key in self.cache_missed:
             return self._on_cache_hit_empty(key, timestamp, now)
-- 
2.43.0


From 72e9dae6f1eef99477e3ae244b2292083dc22d1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:27 +0000
Subject: [PATCH 013/221] fix: CacheDict.has_info_about judged a cached failure
 by the expiration interval

---
 satella/coding/structures/dictionaries/cache_dict.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/satella/coding/structures/dictionaries/cache_dict.py b/satella/coding/structures/dictionaries/cache_dict.py
index 74673a7..15d1e07 100644
--- a/satella/coding/structures/dictionaries/cache_dict.py
+++ b/satella/coding/structures/dictionaries/cache_dict.py
@@ -110,7 +110,7 @@ class CacheDict(tp.Mapping[K, V]):
         if self.cache_failures:
             if key in self.cache_missed:
                 try:
-                    v = self.time_getter() - self.timestamp_data[key] <= self.expiration_interval
+                    v = self.time_getter() - self.timestamp_data[key] <= self.cache_failures_interval
                 except KeyError:
                     v = False
                 return v
-- 
2.43.0


From b5f8f9c66901575f4585dfb4f9fd4fd6c055bb31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:27 +0000
Subject: [PATCH 014/221] fix: CacheDict.feed ignored a timestamp of 0, and
 left the key marked as a cached miss

---
 satella/coding/structures/dictionaries/cache_dict.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/satella/coding/structures/dictionaries/cache_dict.py b/satella/coding/structures/dictionaries/cache_dict.py
index 15d1e07..13c70fa 100644
--- a/satella/coding/structures/dictionaries/cache_dict.py
+++ b/satella/coding/structures/dictionaries/cache_dict.py
@@ -92,7 +92,8 @@ class CacheDict(tp.Mapping[K, V]):
         Feed this data into the cache
         """
         self.data[key] = value
-        self.timestamp_data[key] = timestamp or self.time_getter()
+        self.timestamp_data[key] = self.time_getter() if timestamp is None else timestamp
+        self.cache_missed.discard(key)
 
     def has_info_about(self, key: K) -> bool:
         """
-- 
2.43.0


From 5b4d6564de51f7c5c5958db3832ce81bf409657c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:27 +0000
Subject: [PATCH 015/221] fix: CacheDict.invalidate did not forget a cached
 miss

---
 satella/coding/structures/dictionaries/cache_dict.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/satella/coding/structures/dictionaries/cache_dict.py b/satella/coding/structures/dictionaries/cache_dict.py
index 13c70fa..5de08d0 100644
--- a/satella/coding/structures/dictionaries/cache_dict.py
+++ b/satella/coding/structures/dictionaries/cache_dict.py
@@ -201,6 +201,9 @@ class CacheDict(tp.Mapping[K, V]):
         >>> except KeyError:
         >>>   pass
         """
+        if key in self.cache_missed:
+            self.cache_missed.discard(key)
+            self.timestamp_data.pop(key, None)
         del self[key]
 
     def _on_cache_hit_empty(self, key: K, timestamp: float, now: float) -> V:
-- 
2.43.0


From 49872cd9ad2f8aa743ec3b78d65a55ad19555fc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:27 +0000
Subject: [PATCH 016/221] fix: refreshing a key of a full LRUCacheDict
 needlessly evicted another one

---
 satella/coding/structures/dictionaries/cache_dict.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/satella/coding/structures/dictionaries/cache_dict.py b/satella/coding/structures/dictionaries/cache_dict.py
index 5de08d0..ed28658 100644
--- a/satella/coding/structures/dictionaries/cache_dict.py
+++ b/satella/coding/structures/dictionaries/cache_dict.py
@@ -319,6 +319,7 @@ class LRUCacheDict(CacheDict[K, V]):
         """
         Store a value with current timestamp
         """
-        self.make_room()
+        if key not in self.data:
+            self.make_room()
         self.lru.mark_as_used(key)
         super().__setitem__(key, value)
-- 
2.43.0


From 29bfd4f8ea1b020890923487cb76db6f6f308506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:01 +0000
Subject: [PATCH 017/221] fix: a read of ExclusiveWritebackCache overlapping a
 write replaced the cached value with the outdated one

---
 .../dictionaries/writeback_cache.py           | 20 ++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/satella/coding/structures/dictionaries/writeback_cache.py b/satella/coding/structures/dictionaries/writeback_cache.py
index 8a662e6..fe1ab2b 100644
--- a/satella/coding/structures/dictionaries/writeback_cache.py
+++ b/satella/coding/structures/dictionaries/writeback_cache.py
@@ -27,7 +27,7 @@ class ExclusiveWritebackCache(tp.Generic[K, V]):
     """
     __slots__ = ('executor', 'read_method', 'write_method', 'delete_method',
                  'no_concurrent_executors', 'in_cache', 'cache_lock',
-                 'cache', 'operations', 'store_key_errors')
+                 'cache', 'operations', 'store_key_errors', 'modifications')
 
     def __init__(self, write_method: tp.Callable[[K, V], None],
                  read_method: tp.Callable[[K], V],
@@ -49,6 +49,7 @@ class ExclusiveWritebackCache(tp.Generic[K, V]):
         self.cache_lock = Monitor()
         self.cache = {}
         self.operations = 0
+        self.modifications = 0
 
     def get_queue_length(self) -> int:
         """
@@ -87,11 +88,14 @@ class ExclusiveWritebackCache(tp.Generic[K, V]):
     def __getitem__(self, item: K) -> V:
         self._operate()
         if item not in self.in_cache:
+            modifications = self.modifications
             try:
                 value = self.executor.submit(self.read_method, item).result()
                 with self.cache_lock:
-                    self.in_cache.add(item)
-                    self.cache[item] = value
+                    # what was read might be outdated if the cache was altered in the meantime
+                    if self.modifications == modifications:
+                        self.in_cache.add(item)
+                        self.cache[item] = value
                 return value
             except KeyError:
                 if self.store_key_errors:
@@ -107,16 +111,18 @@ class ExclusiveWritebackCache(tp.Generic[K, V]):
     def __delitem__(self, key: K) -> None:
         if self.delete_method is None:
             raise TypeError('Cannot delete from this writeback cache!')
-        if self.store_key_errors:
-            with self.cache_lock:
+        with self.cache_lock:
+            self.modifications += 1
+            if self.store_key_errors:
                 self.in_cache.add(key)
-        with silence_excs(KeyError):
-            del self.cache[key]
+            with silence_excs(KeyError):
+                del self.cache[key]
         self.executor.submit(self.delete_method, key)
         self._operate()
 
     def __setitem__(self, key: K, value: V) -> None:
         with self.cache_lock:
+            self.modifications += 1
             self.cache[key] = value
             self.in_cache.add(key)
         self.executor.submit(self.write_method, key, value)
-- 
2.43.0


From 7f623278d0a3053f72388cb01ca24001de95eb3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:01 +0000
Subject: [PATCH 018/221] fix: sync_threadpool could hang forever if a worker
 was slow to start waiting, and left workers hung upon a timeout

---
 satella/coding/concurrent/sync.py | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/satella/coding/concurrent/sync.py b/satella/coding/concurrent/sync.py
index 5c4f5aa..e9fbbf3 100644
--- a/satella/coding/concurrent/sync.py
+++ b/satella/coding/concurrent/sync.py
@@ -1,10 +1,10 @@
+import threading
 import typing as tp
 import time
 from concurrent.futures import wait, ThreadPoolExecutor
 
 from satella.coding.concurrent.atomic import AtomicNumber
 from satella.coding.concurrent.futures import ExecutorWrapper
-from satella.coding.concurrent.thread import Condition
 from satella.exceptions import WouldWaitMore
 from satella.time.measure import measure
 
@@ -49,21 +49,23 @@ def sync_threadpool(tpe: tp.Union[ExecutorWrapper, ThreadPoolExecutor],
     with measure(timeout=max_wait) as measurement:
         workers = tpe._max_workers      # pylint: disable=protected-access
         atm_n = AtomicNumber(workers)
-        cond = Condition()
+        done = threading.Event()
 
         def decrease_atm():
             nonlocal atm_n
             atm_n -= 1
-            cond.wait()
+            done.wait()
 
         futures = [tpe.submit(decrease_atm) for _ in range(workers)]
 
-        # wait for all currently scheduled jobs to be picked up
-        _while_sync_threadpool(tpe, max_wait, measurement, futures)
+        try:
+            # wait for all currently scheduled jobs to be picked up
+            _while_sync_threadpool(tpe, max_wait, measurement, futures)
 
-        if max_wait is None:
-            atm_n.wait_until_equal(0)
-        else:
-            _max_wait_atm_n(measurement, max_wait, atm_n)
-        cond.notify_all()
+            if max_wait is None:
+                atm_n.wait_until_equal(0)
+            else:
+                _max_wait_atm_n(measurement, max_wait, atm_n)
+        finally:
+            done.set()
         wait(futures)
-- 
2.43.0


From 08e5c4fc23e9c3a982f5c275ebe10abebd8a5657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:01 +0000
Subject: [PATCH 019/221] fix: AtomicNumber.wait_until_equal could miss the
 change it was waiting for, and hang

---
 satella/coding/concurrent/atomic.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/satella/coding/concurrent/atomic.py b/satella/coding/concurrent/atomic.py
index 53df01f..d1b1900 100644
--- a/satella/coding/concurrent/atomic.py
+++ b/satella/coding/concurrent/atomic.py
@@ -265,17 +265,19 @@ class AtomicNumber(Monitor):
         :param timeout: maximum time to wait
         :raise WouldWaitMore: timeout expired without the value becoming equal to target
         """
+        # Condition is held between checking the value and going to sleep, so that no change
+        # of the value can be missed. Its lock is reentrant.
         if timeout is None:
-            while True:
-                if self == v:
-                    break
-                self.wait()
+            with self.condition:
+                while self.value != v:
+                    self.wait()
         else:
             with measure(timeout=timeout) as measurement:
-                while not measurement.timeouted:
-                    if self == v:
-                        break
-                    self.wait(measurement.time_remaining, throw_exception=False)
+                with self.condition:
+                    while not measurement.timeouted:
+                        if self.value == v:
+                            break
+                        self.wait(measurement.time_remaining, throw_exception=False)
 
                 with Monitor.acquire(self):
                     if self.value != v:
-- 
2.43.0


From b2030ccf6bd8e7fcff6345b6e0a31e940f382c3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:01 +0000
Subject: [PATCH 020/221] fix: in-place bit operations, shifts and power of
 AtomicNumber did not wake up threads waiting for a change

---
 satella/coding/concurrent/atomic.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/satella/coding/concurrent/atomic.py b/satella/coding/concurrent/atomic.py
index d1b1900..6faf1fc 100644
--- a/satella/coding/concurrent/atomic.py
+++ b/satella/coding/concurrent/atomic.py
@@ -80,16 +80,19 @@ class AtomicNumber(Monitor):
     @Monitor.synchronized
     def __iand__(self, other: Number) -> 'AtomicNumber':
         self.value &= other
+        self.condition.notify_all()
         return self
 
     @Monitor.synchronized
     def __ior__(self, other: Number) -> 'AtomicNumber':
         self.value |= other
+        self.condition.notify_all()
         return self
 
     @Monitor.synchronized
     def __ixor__(self, other: Number) -> 'AtomicNumber':
         self.value ^= other
+        self.condition.notify_all()
         return self
 
     @Monitor.synchronized
@@ -119,11 +122,13 @@ class AtomicNumber(Monitor):
     @Monitor.synchronized
     def __ilshift__(self, other: int) -> 'AtomicNumber':
         self.value <<= other
+        self.condition.notify_all()
         return self
 
     @Monitor.synchronized
     def __irshift__(self, other: int) -> 'AtomicNumber':
         self.value >>= other
+        self.condition.notify_all()
         return self
 
     @Monitor.synchronized
@@ -151,6 +156,7 @@ class AtomicNumber(Monitor):
     @Monitor.synchronized
     def __ipow__(self, other) -> 'AtomicNumber':
         self.value **= other
+        self.condition.notify_all()
         return self
 
     @Monitor.synchronized
-- 
2.43.0


From 568a5972d42c15db36993a32581dd7f20886e036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:01 +0000
Subject: [PATCH 021/221] fix: comparing an AtomicNumber to itself, or two of
 them in opposite directions at once, deadlocked

---
 satella/coding/concurrent/atomic.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/satella/coding/concurrent/atomic.py b/satella/coding/concurrent/atomic.py
index 6faf1fc..ac3a021 100644
--- a/satella/coding/concurrent/atomic.py
+++ b/satella/coding/concurrent/atomic.py
@@ -231,12 +231,13 @@ class AtomicNumber(Monitor):
         self.condition.notify_all()
         return self
 
-    @Monitor.synchronized
     def __eq__(self, other: tp.Union['AtomicNumber', Number]) -> bool:
+        # locks are taken one at a time, as comparing two numbers with each other, in both
+        # directions at once, or one with itself, would deadlock otherwise
         if isinstance(other, AtomicNumber):
             with Monitor.acquire(other):
-                return self.value == other.value
-        else:
+                other = other.value
+        with Monitor.acquire(self):
             return self.value == other
 
     @Monitor.synchronized
-- 
2.43.0


From 996cbefe8b747a6bf397f161739bb55d09805aa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:45 +0000
Subject: [PATCH 022/221] fix: truth value of a SparseMatrix was inverted

---
 satella/coding/structures/sparse_matrix.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/satella/coding/structures/sparse_matrix.py b/satella/coding/structures/sparse_matrix.py
index 05ade5f..cce48f2 100644
--- a/satella/coding/structures/sparse_matrix.py
+++ b/satella/coding/structures/sparse_matrix.py
@@ -142,7 +142,7 @@ class SparseMatrix(tp.Generic[T]):
         return self.rows_dict == other.rows_dict
 
     def __bool__(self) -> bool:
-        return self.no_rows == 0
+        return self.no_rows > 0
 
     def _sanitize_key(self, key: KeyArg) -> KeyArg:
         col, row = key
-- 
2.43.0


From 671a15b046bbca100a5fad0420b276f36dc009aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:45 +0000
Subject: [PATCH 023/221] fix: deleting the last element of a SparseMatrix
 raised ValueError

---
 satella/coding/structures/sparse_matrix.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/satella/coding/structures/sparse_matrix.py b/satella/coding/structures/sparse_matrix.py
index cce48f2..03f2235 100644
--- a/satella/coding/structures/sparse_matrix.py
+++ b/satella/coding/structures/sparse_matrix.py
@@ -303,11 +303,11 @@ class SparseMatrix(tp.Generic[T]):
                 v = self.rows_dict[row][col]
         return v
 
-    @silence_excs(TypeError, returns=0)
+    @silence_excs(ValueError, returns=0)
     def _calculate_column_count(self) -> int:
         return max(self.known_column_count) + 1
 
-    @silence_excs(TypeError, returns=0)
+    @silence_excs(ValueError, returns=0)
     def _calculate_row_count(self) -> int:
         return max(self.rows_dict) + 1
 
-- 
2.43.0


From 4324ba26ce94836cfb2ca997bf70bb4771bb1afd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:45 +0000
Subject: [PATCH 024/221] fix: deleting a missing row of a SparseMatrix made
 the row exist

---
 satella/coding/structures/sparse_matrix.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/satella/coding/structures/sparse_matrix.py b/satella/coding/structures/sparse_matrix.py
index 03f2235..3864369 100644
--- a/satella/coding/structures/sparse_matrix.py
+++ b/satella/coding/structures/sparse_matrix.py
@@ -228,7 +228,7 @@ class SparseMatrix(tp.Generic[T]):
 
         :param row_no: number of the row to delete
         """
-        cols = list(self.rows_dict[row_no].keys())  # Copy it here
+        cols = list(self.rows_dict.get(row_no, ()))  # Copy it here
         for col_no in cols:
             del self[col_no, row_no]
 
-- 
2.43.0


From 79da952a7232f81e5a0d05e71280b516d1fe79f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:45 +0000
Subject: [PATCH 025/221] fix: SparseMatrix.max and min failed if the first
 element was undefined

---
 satella/coding/structures/sparse_matrix.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/satella/coding/structures/sparse_matrix.py b/satella/coding/structures/sparse_matrix.py
index 3864369..e9deb26 100644
--- a/satella/coding/structures/sparse_matrix.py
+++ b/satella/coding/structures/sparse_matrix.py
@@ -59,12 +59,12 @@ class SparseMatrix(tp.Generic[T]):
 
         None elements will be ignored.
         """
-        item = self[0, 0]
+        item = None
         for row in self:
             for value in row:
                 if value is None:
                     continue
-                if value > item:
+                if item is None or value > item:
                     item = value
         return item
 
@@ -74,13 +74,13 @@ class SparseMatrix(tp.Generic[T]):
 
         None elements will be ignored.
         """
-        item = self[0, 0]
+        item = None
         for row in self:
             for value in row:
                 if value is None:
                     continue
 
-                if value < item:
+                if item is None or value < item:
                     item = value
         return item
 
-- 
2.43.0


From a37d5f5e7760252fac9b0b3936104990518b4e74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:45 +0000
Subject: [PATCH 026/221] fix: SparseMatrix did not support Ellipsis as an
 index in spite of documenting it

---
 satella/coding/structures/sparse_matrix.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/satella/coding/structures/sparse_matrix.py b/satella/coding/structures/sparse_matrix.py
index e9deb26..da00a6f 100644
--- a/satella/coding/structures/sparse_matrix.py
+++ b/satella/coding/structures/sparse_matrix.py
@@ -8,7 +8,9 @@ KeyArg = tp.Tuple[tp.Union[int, slice], tp.Union[int, slice]]
 
 
 def _cleanup_key(inst: tp.Union[int, slice], max_count: int):
-    if isinstance(inst, slice):
+    if inst is Ellipsis:
+        return Ellipsis
+    elif isinstance(inst, slice):
         if not (inst.start is None and inst.stop is None and inst.step is None):
             raise IndexError('Custom slicing is not supported!')
         return Ellipsis
-- 
2.43.0


From 1e74906cc5f73d7fee58532d05f73b4a719feab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:13 +0000
Subject: [PATCH 027/221] fix: results of & and | of a Proxy were never wrapped

---
 satella/coding/structures/proxy.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/satella/coding/structures/proxy.py b/satella/coding/structures/proxy.py
index 54ec9b5..99445e0 100644
--- a/satella/coding/structures/proxy.py
+++ b/satella/coding/structures/proxy.py
@@ -183,9 +183,11 @@ class Proxy(tp.Generic[T]):
     def __ne__(self, other) -> bool:
         return self.__obj != other
 
+    @wrap_operation
     def __or__(self, other):
         return self.__obj | other
 
+    @wrap_operation
     def __and__(self, other):
         return self.__obj & other
 
-- 
2.43.0


From 2c5bb4bba28d59747275ebfe4b177698b2e388b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:13 +0000
Subject: [PATCH 028/221] fix: a Proxy could not be awaited

---
 satella/coding/structures/proxy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/satella/coding/structures/proxy.py b/satella/coding/structures/proxy.py
index 99445e0..3a1507a 100644
--- a/satella/coding/structures/proxy.py
+++ b/satella/coding/structures/proxy.py
@@ -292,7 +292,7 @@ class Proxy(tp.Generic[T]):
         return self
 
     def __await__(self):
-        return self.__obj.__await()
+        return self.__obj.__await__()
 
     def __aenter__(self):
         return self.__obj.__aenter__()
-- 
2.43.0


From d96bbd28d9e120eee34fdb5a60ed52af0603075c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:13 +0000
Subject: [PATCH 029/221] fix: rounding a Proxy to an integer gave a float,
 unlike rounding the wrapped object

---
 satella/coding/structures/proxy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/satella/coding/structures/proxy.py b/satella/coding/structures/proxy.py
index 3a1507a..ae2d312 100644
--- a/satella/coding/structures/proxy.py
+++ b/satella/coding/structures/proxy.py
@@ -343,7 +343,7 @@ class Proxy(tp.Generic[T]):
 
     @wrap_operation
     @rethrow_as(AttributeError, TypeError)
-    def __round__(self, n: int = 0):
+    def __round__(self, n: tp.Optional[int] = None):
         return round(self.__obj, n)
 
     @wrap_operation
-- 
2.43.0


From d18009d003d988841f02362132e07038040eec81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:13 +0000
Subject: [PATCH 030/221] fix: Proxy did not support the modulo operation

---
 satella/coding/structures/proxy.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/satella/coding/structures/proxy.py b/satella/coding/structures/proxy.py
index ae2d312..0b67218 100644
--- a/satella/coding/structures/proxy.py
+++ b/satella/coding/structures/proxy.py
@@ -126,6 +126,18 @@ class Proxy(tp.Generic[T]):
     def __divmod__(self, other) -> tp.Tuple[Number, Number]:
         return divmod(self.__obj, other)
 
+    @wrap_operation
+    def __mod__(self, other):
+        return self.__obj % other
+
+    @wrap_operation
+    def __rmod__(self, other):
+        return other % self.__obj
+
+    def __imod__(self, other) -> 'Proxy':
+        self.__obj %= other
+        return self
+
     @wrap_operation
     def __floordiv__(self, other):
         return self.__obj // other
-- 
2.43.0


From 7b09b23d86e130cedc1e5cf200ccd3cc83419862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:49 +0000
Subject: [PATCH 031/221] fix: a frozendict could be altered by del, |=, clear,
 pop, popitem and setdefault

---
 satella/coding/structures/immutable.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/satella/coding/structures/immutable.py b/satella/coding/structures/immutable.py
index 1238553..b318689 100644
--- a/satella/coding/structures/immutable.py
+++ b/satella/coding/structures/immutable.py
@@ -76,6 +76,8 @@ class frozendict(dict):
     def update(self, *args, **kwargs):
         raise TypeError('Cannot update a frozen dict!')
 
+    __delitem__ = __ior__ = clear = pop = popitem = setdefault = update
+
     def __hash__(self):
         o = 0
         for key, value in self.items():
-- 
2.43.0


From dc51f0c7ad039c61e97d40a76b166cbcf0d158e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:49 +0000
Subject: [PATCH 032/221] fix: DictionaryEQAble considered objects equal if the
 second one had extra attributes

---
 satella/coding/structures/mixins/eqable.py | 13 ++-----------
 1 file changed, 2 insertions(+), 11 deletions(-)

diff --git a/satella/coding/structures/mixins/eqable.py b/satella/coding/structures/mixins/eqable.py
index 7438bcc..1928812 100644
--- a/satella/coding/structures/mixins/eqable.py
+++ b/satella/coding/structures/mixins/eqable.py
@@ -1,6 +1,3 @@
-from ..immutable import NOT_EQUAL_TO_ANYTHING
-
-
 class DictionaryEQAble:
     """
     A class mix-in that defines __eq__ and __ne__ to be:
@@ -12,15 +9,9 @@ class DictionaryEQAble:
     def __eq__(self, other) -> bool:
         if type(self) != type(other):
             return False
-        for key in self.__dict__.keys():
-            if getattr(other, key, NOT_EQUAL_TO_ANYTHING) != self.__dict__[key]:
-                return False
-        return True
+        return self.__dict__ == other.__dict__
 
     def __ne__(self, other) -> bool:
         if type(self) != type(other):
             return True
-        for key in self.__dict__.keys():
-            if getattr(other, key, NOT_EQUAL_TO_ANYTHING) != self.__dict__[key]:
-                return True
-        return False
+        return self.__dict__ != other.__dict__
-- 
2.43.0


From 5f7a67dec920766e56d5c14f8ab509022a8b2f99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:49 +0000
Subject: [PATCH 033/221] fix: a singleton whose constructor failed was
 returned, uninitialized, upon the next request

---
 satella/coding/structures/singleton.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/satella/coding/structures/singleton.py b/satella/coding/structures/singleton.py
index 1744c96..065cc71 100644
--- a/satella/coding/structures/singleton.py
+++ b/satella/coding/structures/singleton.py
@@ -25,7 +25,11 @@ def Singleton(cls):
             return it
 
         cls.__it__ = it = cls.__new_old__(cls)
-        it.__init_old__(*args, **kw)
+        try:
+            it.__init_old__(*args, **kw)
+        except BaseException:
+            del cls.__it__
+            raise
         return it
 
     cls.__new__ = singleton_new
@@ -83,7 +87,11 @@ def SingletonWithRegardsTo(num_args: int, weak_refs: bool = False):
                 return it[key]
 
             inst = it[key] = cls.__new_old__(cls)
-            inst.__init_old__(*args, **kw)
+            try:
+                inst.__init_old__(*args, **kw)
+            except BaseException:
+                del it[key]
+                raise
             return inst
 
         cls.__new__ = singleton_new
-- 
2.43.0


From 5451d89984b9c6d163778ae01e25c50e42d2f2ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:13 +0000
Subject: [PATCH 034/221] fix: tuples made by a typednamedtuple were not
 instances of it

---
 satella/coding/structures/typednamedtuple.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/satella/coding/structures/typednamedtuple.py b/satella/coding/structures/typednamedtuple.py
index 1211f37..9e22451 100644
--- a/satella/coding/structures/typednamedtuple.py
+++ b/satella/coding/structures/typednamedtuple.py
@@ -57,6 +57,7 @@ def typednamedtuple(cls_name: str, *arg_name_type: type) -> tp.Type[tp.Tuple]:
             if len(kwargs) > 0:
                 raise TypeError('Too many parameters')
 
-            return MyCls.__new__(MyCls, *nargs)
+            return MyCls.__new__(cls, *nargs)
 
+    Wrapper.__name__ = Wrapper.__qualname__ = cls_name
     return Wrapper
-- 
2.43.0


From efa8e047602c05053367a6a0756e0d4220b6fe59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:13 +0000
Subject: [PATCH 035/221] fix: typednamedtuple silently ignored surplus
 positional arguments

---
 satella/coding/structures/typednamedtuple.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/satella/coding/structures/typednamedtuple.py b/satella/coding/structures/typednamedtuple.py
index 9e22451..aee2ec6 100644
--- a/satella/coding/structures/typednamedtuple.py
+++ b/satella/coding/structures/typednamedtuple.py
@@ -46,6 +46,9 @@ def typednamedtuple(cls_name: str, *arg_name_type: type) -> tp.Type[tp.Tuple]:
 
         def __new__(cls, *args, **kwargs):
 
+            if len(args) > len(fieldnames):
+                raise TypeError('Too many parameters')
+
             nargs = list(map(_adjust, zip(args, typeops[:len(args)])))
 
             for next_field_name in fieldnames[len(nargs):]:
-- 
2.43.0


From d26b1cdf1f7ed8d375c973f695b49952637c05b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:13 +0000
Subject: [PATCH 036/221] fix: typednamedtuple did not accept constructors
 which are not types

---
 satella/coding/structures/typednamedtuple.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/satella/coding/structures/typednamedtuple.py b/satella/coding/structures/typednamedtuple.py
index aee2ec6..5f24d5d 100644
--- a/satella/coding/structures/typednamedtuple.py
+++ b/satella/coding/structures/typednamedtuple.py
@@ -8,7 +8,7 @@ def _nth(it, n):
 
 def _adjust(q):
     var, type_ = q
-    if type_ in (None, 'self') or isinstance(var, type_):
+    if type_ in (None, 'self') or (isinstance(type_, type) and isinstance(var, type_)):
         return var
     return type_(var)
 
-- 
2.43.0


From 3514b5f34a84dbd50a11d11d3095272cd1a6c364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:43 +0000
Subject: [PATCH 037/221] fix: SyncableDroppable.get_archive returned nothing
 if all the data was in the DB

---
 .../coding/structures/syncable_droppable.py   | 23 ++++++++-----------
 1 file changed, 9 insertions(+), 14 deletions(-)

diff --git a/satella/coding/structures/syncable_droppable.py b/satella/coding/structures/syncable_droppable.py
index 4bfd297..ed5aee8 100644
--- a/satella/coding/structures/syncable_droppable.py
+++ b/satella/coding/structures/syncable_droppable.py
@@ -208,17 +208,8 @@ class SyncableDroppable(RMonitor, tp.Generic[K, V]):
         :param stop: stopping key (included)
         :return: a iterator of KVTuple
         """
-        if not self.data_in_memory:
-            return []
-        if self.first_key_in_memory <= start:
-            # We'll serve it from memory
-            for key, value in self.data_in_memory:
-                if key < start:
-                    continue
-                if key > stop:
-                    return
-                yield key, value
-        else:
+        first_key = self.first_key_in_memory
+        if first_key is None or start < first_key:
             it = self.db_storage.iterate(start)
             try:
                 for key, value in it:
@@ -227,11 +218,15 @@ class SyncableDroppable(RMonitor, tp.Generic[K, V]):
                     if key > stop:
                         return
                     yield key, value
-                # We must iterate from the memory
-                if self.data_in_memory:
-                    yield from self.get_archive(self.first_key_in_memory, stop)
             finally:
                 try_close(it)
+        # The rest is served from memory
+        for key, value in self.data_in_memory:
+            if key < start:
+                continue
+            if key > stop:
+                return
+            yield key, value
 
     def get_latest_value(self) -> KVTuple:
         """
-- 
2.43.0


From cc876c9677f3303418a0d526dcbdd97c6c344570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:43 +0000
Subject: [PATCH 038/221] fix: SyncableDroppable.cleanup_keep_in_db did nothing
 if all the data was in the DB

---
 satella/coding/structures/syncable_droppable.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/satella/coding/structures/syncable_droppable.py b/satella/coding/structures/syncable_droppable.py
index ed5aee8..77bd7a0 100644
--- a/satella/coding/structures/syncable_droppable.py
+++ b/satella/coding/structures/syncable_droppable.py
@@ -272,7 +272,7 @@ class SyncableDroppable(RMonitor, tp.Generic[K, V]):
         """
         Clear up the database to conform to our span_to_keep_in_db
         """
-        if self.start_entry is None or not self.data_in_memory:
+        if self.start_entry is None:
             return
         cutoff_span = self.stop_entry - self.span_to_keep_in_db
         if self.start_entry == self.first_key_in_memory:
-- 
2.43.0


From fc81941ba31513e357abcaf8c0b6472c7fb4104f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:43 +0000
Subject: [PATCH 039/221] fix: SyncableDroppable.on_sync_request lost, repeated
 or exceeded entries depending on where they are stored, and failed for a key
 of 0

---
 .../coding/structures/syncable_droppable.py   | 84 ++++++-------------
 1 file changed, 25 insertions(+), 59 deletions(-)

diff --git a/satella/coding/structures/syncable_droppable.py b/satella/coding/structures/syncable_droppable.py
index 77bd7a0..2d6e95a 100644
--- a/satella/coding/structures/syncable_droppable.py
+++ b/satella/coding/structures/syncable_droppable.py
@@ -1,4 +1,3 @@
-import bisect
 import itertools
 import math
 import typing as tp
@@ -306,61 +305,23 @@ class SyncableDroppable(RMonitor, tp.Generic[K, V]):
         if self.start_entry is None:
             self.start_entry = key
 
-    def _assert_correctness(self, maximum_entries):
-        if not self.start_entry:
-            raise ValueError('Nothing to synchronize!')
-        if self.synced_up_to == self.data_in_memory[-1][0]:
-            raise ValueError('Nothing to synchronize!')
-
-    def _on_sync_request_synced_up_none(self, maximum_entries):
-        # Sync everything
-        iterator = self.db_storage.iterate(None)
-        try:
-            data = list(iterator)
-            if len(data) < maximum_entries:
-                entries_left = maximum_entries - len(data)
-                if entries_left == math.inf:
-                    data = itertools.chain(data, self.data_in_memory)
-                else:
-                    data = itertools.chain(data, self.data_in_memory[:entries_left])
-            return data
-        finally:
-            try_close(iterator)
-
-    def __append_item(self, data, iterator, maximum_entries):
-        while len(data) < maximum_entries:
-            try:
-                data.append(next(iterator))
-            except StopIteration:
-                for index, tpl in enumerate(self.data_in_memory):
-                    if len(data) >= maximum_entries:
-                        break
-                    if self.synced_up_to is not None:
-                        if tpl[0] > self.synced_up_to:
-                            break
-                return itertools.chain(data, self.data_in_memory[:index])
-
-    def _on_sync_request_synced_up_is_not_none(self, maximum_entries):
-        if self.first_key_in_memory <= self.synced_up_to:
-            # Means we have to sync from memory
-            if self.synced_up_to is None:
-                v = self.data_in_memory
-            else:
-                index = bisect.bisect_right([y[0] for y in self.data_in_memory],
-                                            self.synced_up_to)
-                if maximum_entries == math.inf:
-                    v = self.data_in_memory[index:]
-                else:
-                    v = self.data_in_memory[index:index + maximum_entries]
-        else:
-            # We have to start off the disk
-            data = []
-            iterator = self.db_storage.iterate(self.start_entry)
+    def _iterate_unsynced(self) -> tp.Iterator[KVTuple]:
+        """
+        Iterate over entries that were not synchronized yet, first these from the DB
+        and then these from memory
+        """
+        synced_up_to, first_key = self.synced_up_to, self.first_key_in_memory
+        if first_key is None or synced_up_to is None or synced_up_to < first_key:
+            iterator = self.db_storage.iterate(synced_up_to)
             try:
-                v = self.__append_item(data, iterator, maximum_entries)
+                for key, value in iterator:
+                    if synced_up_to is None or key > synced_up_to:
+                        yield key, value
             finally:
                 try_close(iterator)
-        return v
+        for key, value in self.data_in_memory:
+            if synced_up_to is None or key > synced_up_to:
+                yield key, value
 
     def on_sync_request(self, maximum_entries: tp.Optional[int] = math.inf) -> tp.Iterator[KVTuple]:
         """
@@ -373,13 +334,18 @@ class SyncableDroppable(RMonitor, tp.Generic[K, V]):
         :return: an iterator of (KVTuple) that should be synchronized against the server
         :raise ValueError: nothing to synchronize!
         """
-        self._assert_correctness(maximum_entries)
+        if self.start_entry is None:
+            raise ValueError('Nothing to synchronize!')
+        if self.synced_up_to is not None and self.synced_up_to >= self.stop_entry:
+            raise ValueError('Nothing to synchronize!')
 
-        if self.synced_up_to is None:
-            v = self._on_sync_request_synced_up_none(maximum_entries)
-        else:
-            v = self._on_sync_request_synced_up_is_not_none(maximum_entries)
-        return v
+        if maximum_entries is None or maximum_entries == math.inf:
+            return iter(list(self._iterate_unsynced()))
+        iterator = self._iterate_unsynced()
+        try:
+            return iter(list(itertools.islice(iterator, maximum_entries)))
+        finally:
+            iterator.close()
 
     def on_synced_up_to(self, key: K) -> None:
         """
-- 
2.43.0


From a375ca1acebce3eb8454866497bfb186ef010dfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:33 +0000
Subject: [PATCH 040/221] fix: skip_first raised RuntimeError if the iterator
 was too short

---
 satella/coding/sequences/iterators.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/satella/coding/sequences/iterators.py b/satella/coding/sequences/iterators.py
index 706ab49..7bf3b3a 100644
--- a/satella/coding/sequences/iterators.py
+++ b/satella/coding/sequences/iterators.py
@@ -459,7 +459,6 @@ def zip_shifted(*args: tp.Union[Iteratable, tp.Tuple[Iteratable, int]]) -> \
 
 
 @for_argument(iter)
-@silence_excs(StopIteration)
 def skip_first(iterator: Iteratable, n: int) -> tp.Iterator[T]:
     """
     Skip first n elements from given iterator.
@@ -473,7 +472,10 @@ def skip_first(iterator: Iteratable, n: int) -> tp.Iterator[T]:
                   'Please use itertools.islice instead', DeprecationWarning)
 
     for i in range(n):
-        next(iterator)
+        try:
+            next(iterator)
+        except StopIteration:
+            return
     yield from iterator
 
 
-- 
2.43.0


From 920db3d86ec7407267d206d83cc91fb489736183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:33 +0000
Subject: [PATCH 041/221] fix: stop_after raised RuntimeError if the iterator
 was too short

---
 satella/coding/sequences/iterators.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/satella/coding/sequences/iterators.py b/satella/coding/sequences/iterators.py
index 7bf3b3a..6c33767 100644
--- a/satella/coding/sequences/iterators.py
+++ b/satella/coding/sequences/iterators.py
@@ -607,7 +607,6 @@ class ListWrapperIterator(tp.Sequence[T], tp.Iterator[T]):
         return self
 
 
-@silence_excs(StopIteration)
 @for_argument(iter)
 def stop_after(iterator: Iteratable, n: int) -> tp.Iterator[T]:
     """
@@ -625,7 +624,11 @@ def stop_after(iterator: Iteratable, n: int) -> tp.Iterator[T]:
                   'Please use itertools.islice instead', DeprecationWarning)
 
     for i in range(n):
-        yield next(iterator)
+        try:
+            item = next(iterator)
+        except StopIteration:
+            return
+        yield item
 
 
 @for_argument(iter)
-- 
2.43.0


From 435b77751800e90a0efd57a13fda502852439dbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:33 +0000
Subject: [PATCH 042/221] fix: take_n raised StopIteration if there were less
 elements than to skip

---
 satella/coding/sequences/iterators.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/satella/coding/sequences/iterators.py b/satella/coding/sequences/iterators.py
index 6c33767..0cac882 100644
--- a/satella/coding/sequences/iterators.py
+++ b/satella/coding/sequences/iterators.py
@@ -850,7 +850,10 @@ def take_n(iterator: Iteratable, n: int, skip: int = 0) -> tp.List[T]:
     :return: list of p_len n (or shorter)
     """
     for i in range(skip):
-        next(iterator)
+        try:
+            next(iterator)
+        except StopIteration:
+            return []
 
     output = []
     for i in range(n):
-- 
2.43.0


From c0bf1ef2afdf207428d614ac78305d564b928bc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:33 +0000
Subject: [PATCH 043/221] fix: walk raised TypeError if the root had no
 children, denoted by a None

---
 satella/coding/sequences/iterators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/satella/coding/sequences/iterators.py b/satella/coding/sequences/iterators.py
index 0cac882..387c269 100644
--- a/satella/coding/sequences/iterators.py
+++ b/satella/coding/sequences/iterators.py
@@ -123,7 +123,7 @@ def walk(obj: T, child_getter: tp.Callable[[T], tp.Optional[tp.List[T]]] = list,
     :param deep_first: if True, deep first will be returned, else it will be breadth first
     :param leaves_only: if True, only leaf nodes (having no children) will be returned
     """
-    a = ConstruableIterator(child_getter(obj))
+    a = ConstruableIterator(child_getter(obj) or ())
     for o in a:
         children = child_getter(o)
         if children is not None:
-- 
2.43.0


From d99a047103ca204debb8970fbf9c5dbd0d767deb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:33 +0000
Subject: [PATCH 044/221] fix: AlreadySeen failed if both hashable and
 non-hashable objects were given to it

---
 satella/coding/sequences/iterators.py | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/satella/coding/sequences/iterators.py b/satella/coding/sequences/iterators.py
index 387c269..4d31773 100644
--- a/satella/coding/sequences/iterators.py
+++ b/satella/coding/sequences/iterators.py
@@ -217,10 +217,11 @@ class AlreadySeen(tp.Generic[K]):
     >>>     if als.is_unique(elem):
     >>>         ... process the element ...
     """
-    __slots__ = ('set',)
+    __slots__ = ('set', 'list')
 
     def __init__(self):
-        self.set = None  # type: tp.Union[list, set]
+        self.set = set()  # type: tp.Set[K]
+        self.list = []  # type: tp.List[K]
 
     def is_unique(self, key: K) -> bool:
         """
@@ -233,21 +234,17 @@ class AlreadySeen(tp.Generic[K]):
         """
         try:
             hash(key)
-            if self.set is None:
-                self.set = set()
-            if key in self.set:
-                return False
-            self.set.add(key)
-            return True
         except TypeError:
             warnings.warn('Passed argument is not hashable, you pay with '
                           'O(n^2) complexity!', RuntimeWarning)
-            if self.set is None:
-                self.set = []
-            if key in self.set:
+            if key in self.list or any(key == elem for elem in self.set):
                 return False
-            self.set.append(key)
+            self.list.append(key)
             return True
+        if key in self.set or key in self.list:
+            return False
+        self.set.add(key)
+        return True
 
 
 def unique(lst: Iteratable) -> tp.Iterator[T]:
-- 
2.43.0


From 846a5505b8c3bc35ec54a4b2812586af63223a14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:33 +0000
Subject: [PATCH 045/221] fix: is_last raised RuntimeError for an empty
 sequence

---
 satella/coding/sequences/sequences.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/satella/coding/sequences/sequences.py b/satella/coding/sequences/sequences.py
index 99be8c8..d07f45f 100644
--- a/satella/coding/sequences/sequences.py
+++ b/satella/coding/sequences/sequences.py
@@ -1 +1 @@
-import copyimport typing as tpfrom satella.coding.decorators.decorators import wrapsfrom satella.coding.recast_exceptions import rethrow_asfrom .iterators import n_thfrom ..typing import T, Iteratable, NoArgCallable, Predicatedef infinite_iterator(returns: tp.Optional[T] = None,                      return_factory: tp.Optional[NoArgCallable[T]] = None) -> tp.Iterator[T]:    """    Return an infinite number of objects.    :param returns: object to return. Note that this will be this very object, it will        not be copied.    :param return_factory: a callable that takes 0 args and returns an element to return.    :return: an infinite iterator of provided values    """    while True:        if returns is None:            yield None if return_factory is None else return_factory()        else:            yield returnsdef make_list(element: T, n: int, deep_copy: bool = False) -> tp.List[T]:    """    Make a list consisting of n times element. Element will be copied via    copy.copy before adding to list.    :param element: element    :param n: times to repeat the element    :param deep_copy: whether to use copy.deepcopy instead of copy.copy    :return: list of length n    """    output = []    if deep_copy:        copy_op = copy.deepcopy    else:        copy_op = copy.copy    for _ in range(n):        output.append(copy_op(element))    return output# shamelessly copied from# https://medium.com/better-programming/is-this-the-last-element-of-my-python-for-loop-784f5ff90bb5def is_last(lst: Iteratable) -> tp.Iterator[tp.Tuple[bool, T]]:    """    Return every element of the list, alongside a flag telling is this the last element.    Use like:    >>> for is_last, element in is_last(my_list):    >>>     if is_last:    >>>         ...    :param lst: list to iterate thru    :return: a p_gen returning (bool, T)    Note that this returns a nice, O(1) iterator.    """    iterable = iter(lst)    ret_var = next(iterable)    for val in iterable:        yield False, ret_var        ret_var = val    yield True, ret_vardef add_next(lst: Iteratable,             wrap_over: bool = False,             skip_last: bool = False) -> tp.Iterator[tp.Tuple[T, tp.Optional[T]]]:    """    Yields a 2-tuple of given iterable, presenting the next element as second element of the tuple.    The last element will be the last element alongside with a None, if wrap_over is False, or the    first element if wrap_over was True    Example:    >>> list(add_next([1, 2, 3, 4, 5])) == [(1, 2), (2, 3), (3, 4), (4, 5), (5, None)]    >>> list(add_next([1, 2, 3, 4, 5], True)) == [(1, 2), (2, 3), (3, 4), (4, 5), (5, 1)]    :param lst: iterable to iterate over    :param wrap_over: whether to attach the first element to the pair of the last element instead        of None    :param skip_last: if this is True, then last element, alongside with a None, won't be output    """    iterator = iter(lst)    try:        first_val = prev_val = next(iterator)    except StopIteration:        return    for val in iterator:        yield prev_val, val        prev_val = val    if wrap_over:        yield prev_val, first_val    else:        if not skip_last:            yield prev_val, Nonedef half_cartesian(seq: tp.Iterable[T],                   include_same_pairs: bool = True) -> tp.Iterator[tp.Tuple[T, T]]:    """    Generate half of the Cartesian product of both sequences.    Useful when you have a commutative operation that you'd like to execute on both elements    (eg. checking for collisions).    Example:    >>> list(half_cartesian([1, 2, 3], [1, 2, 3])) == \    >>>     [(1, 1), (1, 2), (1, 3), (2, 2), (2, 3), (3, 3)]    :param seq: The sequence    :param include_same_pairs: if True, then pairs returning two of the same objects will be        returned. For example, if False, the following will be true:    >>> list(half_cartesian([1, 2, 3], [1, 2, 3], include_same_pairs=False)) == \    >>>     [(1, 2), (1, 3), (2, 3)]    """    for i, elem1 in enumerate(seq):        for j, elem2 in enumerate(seq):            if include_same_pairs:                if j >= i:                    yield elem1, elem2            else:                if j > i:                    yield elem1, elem2def group_quantity(length: int, seq: Iteratable) -> tp.Iterator[tp.List[T]]:    """    Slice an iterable into lists containing at most len entries.    Eg.    >>> assert list(group_quantity(3, [1, 2, 3, 4, 5, 6, 7, 8, 9, 10])) == [[1, 2, 3], [4, 5, 6],    >>>                                                                     [7, 8, 9], [10]]    This correctly detects sequences, and uses an optimized variant via slicing if    a sequence is passed.    You can safely pass ranges    :param length: p_len for the returning sequences    :param seq: sequence to split    """    if isinstance(seq, tp.Sequence) and not isinstance(seq, range):        i = 0        while i < len(seq):            yield seq[i:i + length]            i += length    else:        entries = []        for elem in seq:            if len(entries) == length:                yield entries                entries = [elem]            else:                entries.append(elem)        if entries:            yield entriesdef filter_out_nones(y: tp.Sequence[T]) -> tp.List[T]:    """    Return all elements, as a list, that are not None    :param y: a sequence of items    :return: a list of all subelements, in order, that are not None    """    output = []    for item in y:        if item is not None:            output.append(item)    return outputdef filter_out_false(y: tp.Sequence[T]) -> tp.List[T]:    """    Return all elements, as a list, that are True    :param y: a sequence of items    :return: a list of all subelements, in order, that are not None    """    output = []    for item in y:        if item:            output.append(item)    return output@rethrow_as(IndexError, ValueError)def index_of_max(seq: tp.Sequence[T]) -> int:    """    Return the index of the maximum element    :param seq: sequence to examine    :return: index of the maximum element    :raise ValueError: sequence was empty    """    max_index = 0    max_elem = seq[0]    for i, elem in enumerate(seq):        if elem > max_elem:            max_index = i            max_elem = elem    return max_indexdef index_of(predicate: Predicate, seq: tp.Sequence[T]) -> int:    """    Return an index of first met element that calling predicate on it returns True    :param predicate: predicate to apply    :param seq: sequence to examine    :return: index of the element    :raises ValueError: if no element found    """    i = 0    for elem in seq:        if predicate(elem):            return i        i += 1    raise ValueError('Element not found')class Multirun:    """    A class to launch the same operation on the entire sequence.    Consider:    >>> class Counter:    >>>     def __init__(self, value=0):    >>>         self.count = value    >>>     def add(self, v):    >>>         self.count += 1    >>>     def __eq__(self, other):    >>>          return self.count == other.count    >>>     def __iadd__(self, other):    >>>         self.add(other)    >>> a = [Counter(), Counter()]    The following:    >>> for b in a:    >>>     b.add(2)    Can be replaced with    >>> Multirun(a).add(2)    And the following:    >>> for b in a:    >>>     b += 3    With this    >>> b = Mulirun(a)    >>> b += 3    Furthermore note that:    >>> Multirun(a).add(2) == [Counter(2), Counter(2)]    :param sequence: sequence to execute these operations for    :param dont_return_list: the operation won't return a list if this is True    """    __slots__ = 'sequence', 'dont_return_list'    def __bool__(self) -> bool:        return bool(self.sequence)    def __init__(self, sequence: tp.Iterable, dont_return_list: bool = False):        self.sequence = sequence        self.dont_return_list = dont_return_list    def __iter__(self):        return iter(self.sequence)    def __getattr__(self, item):        def inner(*args, **kwargs):            if not self.dont_return_list:                results = []                for element in self:                    getattr(element, item)(*args, **kwargs)                    results.append(element)                return results            else:                for element in self:                    getattr(element, item)(*args, **kwargs)        # Take care: the array might just be empty...        try:            fun = getattr(n_th(self), item)            inner = wraps(fun)(inner)        except IndexError:            pass        return inner    def __iadd__(self, other):        for element in self:            element += other        return self    def __isub__(self, other):        for element in self:            element -= other        return self    def __imul__(self, other):        for element in self:            element *= other        return self    def __itruediv__(self, other):        for element in self:            element /= other        return self    def __ifloordiv__(self, other):        for element in self:            element //= other        return self    def __ilshift__(self, other):        for element in self:            element <<= other        return self    def __irshift__(self, other):        for element in self:            element >>= other        return self    def __ipow__(self, other):        for element in self:            element **= other        return self
\ No newline at end of file
+import copyimport typing as tpfrom satella.coding.decorators.decorators import wrapsfrom satella.coding.recast_exceptions import rethrow_asfrom .iterators import n_thfrom ..typing import T, Iteratable, NoArgCallable, Predicatedef infinite_iterator(returns: tp.Optional[T] = None,                      return_factory: tp.Optional[NoArgCallable[T]] = None) -> tp.Iterator[T]:    """    Return an infinite number of objects.    :param returns: object to return. Note that this will be this very object, it will        not be copied.    :param return_factory: a callable that takes 0 args and returns an element to return.    :return: an infinite iterator of provided values    """    while True:        if returns is None:            yield None if return_factory is None else return_factory()        else:            yield returnsdef make_list(element: T, n: int, deep_copy: bool = False) -> tp.List[T]:    """    Make a list consisting of n times element. Element will be copied via    copy.copy before adding to list.    :param element: element    :param n: times to repeat the element    :param deep_copy: whether to use copy.deepcopy instead of copy.copy    :return: list of length n    """    output = []    if deep_copy:        copy_op = copy.deepcopy    else:        copy_op = copy.copy    for _ in range(n):        output.append(copy_op(element))    return output# shamelessly copied from# https://medium.com/better-programming/is-this-the-last-element-of-my-python-for-loop-784f5ff90bb5def is_last(lst: Iteratable) -> tp.Iterator[tp.Tuple[bool, T]]:    """    Return every element of the list, alongside a flag telling is this the last element.    Use like:    >>> for is_last, element in is_last(my_list):    >>>     if is_last:    >>>         ...    :param lst: list to iterate thru    :return: a p_gen returning (bool, T)    Note that this returns a nice, O(1) iterator.    """    iterable = iter(lst)    try:        ret_var = next(iterable)    except StopIteration:        return    for val in iterable:        yield False, ret_var        ret_var = val    yield True, ret_vardef add_next(lst: Iteratable,             wrap_over: bool = False,             skip_last: bool = False) -> tp.Iterator[tp.Tuple[T, tp.Optional[T]]]:    """    Yields a 2-tuple of given iterable, presenting the next element as second element of the tuple.    The last element will be the last element alongside with a None, if wrap_over is False, or the    first element if wrap_over was True    Example:    >>> list(add_next([1, 2, 3, 4, 5])) == [(1, 2), (2, 3), (3, 4), (4, 5), (5, None)]    >>> list(add_next([1, 2, 3, 4, 5], True)) == [(1, 2), (2, 3), (3, 4), (4, 5), (5, 1)]    :param lst: iterable to iterate over    :param wrap_over: whether to attach the first element to the pair of the last element instead        of None    :param skip_last: if this is True, then last element, alongside with a None, won't be output    """    iterator = iter(lst)    try:        first_val = prev_val = next(iterator)    except StopIteration:        return    for val in iterator:        yield prev_val, val        prev_val = val    if wrap_over:        yield prev_val, first_val    else:        if not skip_last:            yield prev_val, Nonedef half_cartesian(seq: tp.Iterable[T],                   include_same_pairs: bool = True) -> tp.Iterator[tp.Tuple[T, T]]:    """    Generate half of the Cartesian product of both sequences.    Useful when you have a commutative operation that you'd like to execute on both elements    (eg. checking for collisions).    Example:    >>> list(half_cartesian([1, 2, 3], [1, 2, 3])) == \    >>>     [(1, 1), (1, 2), (1, 3), (2, 2), (2, 3), (3, 3)]    :param seq: The sequence    :param include_same_pairs: if True, then pairs returning two of the same objects will be        returned. For example, if False, the following will be true:    >>> list(half_cartesian([1, 2, 3], [1, 2, 3], include_same_pairs=False)) == \    >>>     [(1, 2), (1, 3), (2, 3)]    """    for i, elem1 in enumerate(seq):        for j, elem2 in enumerate(seq):            if include_same_pairs:                if j >= i:                    yield elem1, elem2            else:                if j > i:                    yield elem1, elem2def group_quantity(length: int, seq: Iteratable) -> tp.Iterator[tp.List[T]]:    """    Slice an iterable into lists containing at most len entries.    Eg.    >>> assert list(group_quantity(3, [1, 2, 3, 4, 5, 6, 7, 8, 9, 10])) == [[1, 2, 3], [4, 5, 6],    >>>                                                                     [7, 8, 9], [10]]    This correctly detects sequences, and uses an optimized variant via slicing if    a sequence is passed.    You can safely pass ranges    :param length: p_len for the returning sequences    :param seq: sequence to split    """    if isinstance(seq, tp.Sequence) and not isinstance(seq, range):        i = 0        while i < len(seq):            yield seq[i:i + length]            i += length    else:        entries = []        for elem in seq:            if len(entries) == length:                yield entries                entries = [elem]            else:                entries.append(elem)        if entries:            yield entriesdef filter_out_nones(y: tp.Sequence[T]) -> tp.List[T]:    """    Return all elements, as a list, that are not None    :param y: a sequence of items    :return: a list of all subelements, in order, that are not None    """    output = []    for item in y:        if item is not None:            output.append(item)    return outputdef filter_out_false(y: tp.Sequence[T]) -> tp.List[T]:    """    Return all elements, as a list, that are True    :param y: a sequence of items    :return: a list of all subelements, in order, that are not None    """    output = []    for item in y:        if item:            output.append(item)    return output@rethrow_as(IndexError, ValueError)def index_of_max(seq: tp.Sequence[T]) -> int:    """    Return the index of the maximum element    :param seq: sequence to examine    :return: index of the maximum element    :raise ValueError: sequence was empty    """    max_index = 0    max_elem = seq[0]    for i, elem in enumerate(seq):        if elem > max_elem:            max_index = i            max_elem = elem    return max_indexdef index_of(predicate: Predicate, seq: tp.Sequence[T]) -> int:    """    Return an index of first met element that calling predicate on it returns True    :param predicate: predicate to apply    :param seq: sequence to examine    :return: index of the element    :raises ValueError: if no element found    """    i = 0    for elem in seq:        if predicate(elem):            return i        i += 1    raise ValueError('Element not found')class Multirun:    """    A class to launch the same operation on the entire sequence.    Consider:    >>> class Counter:    >>>     def __init__(self, value=0):    >>>         self.count = value    >>>     def add(self, v):    >>>         self.count += 1    >>>     def __eq__(self, other):    >>>          return self.count == other.count    >>>     def __iadd__(self, other):    >>>         self.add(other)    >>> a = [Counter(), Counter()]    The following:    >>> for b in a:    >>>     b.add(2)    Can be replaced with    >>> Multirun(a).add(2)    And the following:    >>> for b in a:    >>>     b += 3    With this    >>> b = Mulirun(a)    >>> b += 3    Furthermore note that:    >>> Multirun(a).add(2) == [Counter(2), Counter(2)]    :param sequence: sequence to execute these operations for    :param dont_return_list: the operation won't return a list if this is True    """    __slots__ = 'sequence', 'dont_return_list'    def __bool__(self) -> bool:        return bool(self.sequence)    def __init__(self, sequence: tp.Iterable, dont_return_list: bool = False):        self.sequence = sequence        self.dont_return_list = dont_return_list    def __iter__(self):        return iter(self.sequence)    def __getattr__(self, item):        def inner(*args, **kwargs):            if not self.dont_return_list:                results = []                for element in self:                    getattr(element, item)(*args, **kwargs)                    results.append(element)                return results            else:                for element in self:                    getattr(element, item)(*args, **kwargs)        # Take care: the array might just be empty...        try:            fun = getattr(n_th(self), item)            inner = wraps(fun)(inner)        except IndexError:            pass        return inner    def __iadd__(self, other):        for element in self:            element += other        return self    def __isub__(self, other):        for element in self:            element -= other        return self    def __imul__(self, other):        for element in self:            element *= other        return self    def __itruediv__(self, other):        for element in self:            element /= other        return self    def __ifloordiv__(self, other):        for element in self:            element //= other        return self    def __ilshift__(self, other):        for element in self:            element <<= other        return self    def __irshift__(self, other):        for element in self:            element >>= other        return self    def __ipow__(self, other):        for element in self:            element **= other        return self
\ No newline at end of file
-- 
2.43.0


From a9b38f0209fd9790bfd65c526f138eb18db9acdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:33 +0000
Subject: [PATCH 046/221] fix: half_cartesian produced incorrect pairs out of
 an iterator

---
 satella/coding/sequences/sequences.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/satella/coding/sequences/sequences.py b/satella/coding/sequences/sequences.py
index d07f45f..f03149d 100644
--- a/satella/coding/sequences/sequences.py
+++ b/satella/coding/sequences/sequences.py
@@ -1 +1 @@
-import copyimport typing as tpfrom satella.coding.decorators.decorators import wrapsfrom satella.coding.recast_exceptions import rethrow_asfrom .iterators import n_thfrom ..typing import T, Iteratable, NoArgCallable, Predicatedef infinite_iterator(returns: tp.Optional[T] = None,                      return_factory: tp.Optional[NoArgCallable[T]] = None) -> tp.Iterator[T]:    """    Return an infinite number of objects.    :param returns: object to return. Note that this will be this very object, it will        not be copied.    :param return_factory: a callable that takes 0 args and returns an element to return.    :return: an infinite iterator of provided values    """    while True:        if returns is None:            yield None if return_factory is None else return_factory()        else:            yield returnsdef make_list(element: T, n: int, deep_copy: bool = False) -> tp.List[T]:    """    Make a list consisting of n times element. Element will be copied via    copy.copy before adding to list.    :param element: element    :param n: times to repeat the element    :param deep_copy: whether to use copy.deepcopy instead of copy.copy    :return: list of length n    """    output = []    if deep_copy:        copy_op = copy.deepcopy    else:        copy_op = copy.copy    for _ in range(n):        output.append(copy_op(element))    return output# shamelessly copied from# https://medium.com/better-programming/is-this-the-last-element-of-my-python-for-loop-784f5ff90bb5def is_last(lst: Iteratable) -> tp.Iterator[tp.Tuple[bool, T]]:    """    Return every element of the list, alongside a flag telling is this the last element.    Use like:    >>> for is_last, element in is_last(my_list):    >>>     if is_last:    >>>         ...    :param lst: list to iterate thru    :return: a p_gen returning (bool, T)    Note that this returns a nice, O(1) iterator.    """    iterable = iter(lst)    try:        ret_var = next(iterable)    except StopIteration:        return    for val in iterable:        yield False, ret_var        ret_var = val    yield True, ret_vardef add_next(lst: Iteratable,             wrap_over: bool = False,             skip_last: bool = False) -> tp.Iterator[tp.Tuple[T, tp.Optional[T]]]:    """    Yields a 2-tuple of given iterable, presenting the next element as second element of the tuple.    The last element will be the last element alongside with a None, if wrap_over is False, or the    first element if wrap_over was True    Example:    >>> list(add_next([1, 2, 3, 4, 5])) == [(1, 2), (2, 3), (3, 4), (4, 5), (5, None)]    >>> list(add_next([1, 2, 3, 4, 5], True)) == [(1, 2), (2, 3), (3, 4), (4, 5), (5, 1)]    :param lst: iterable to iterate over    :param wrap_over: whether to attach the first element to the pair of the last element instead        of None    :param skip_last: if this is True, then last element, alongside with a None, won't be output    """    iterator = iter(lst)    try:        first_val = prev_val = next(iterator)    except StopIteration:        return    for val in iterator:        yield prev_val, val        prev_val = val    if wrap_over:        yield prev_val, first_val    else:        if not skip_last:            yield prev_val, Nonedef half_cartesian(seq: tp.Iterable[T],                   include_same_pairs: bool = True) -> tp.Iterator[tp.Tuple[T, T]]:    """    Generate half of the Cartesian product of both sequences.    Useful when you have a commutative operation that you'd like to execute on both elements    (eg. checking for collisions).    Example:    >>> list(half_cartesian([1, 2, 3], [1, 2, 3])) == \    >>>     [(1, 1), (1, 2), (1, 3), (2, 2), (2, 3), (3, 3)]    :param seq: The sequence    :param include_same_pairs: if True, then pairs returning two of the same objects will be        returned. For example, if False, the following will be true:    >>> list(half_cartesian([1, 2, 3], [1, 2, 3], include_same_pairs=False)) == \    >>>     [(1, 2), (1, 3), (2, 3)]    """    for i, elem1 in enumerate(seq):        for j, elem2 in enumerate(seq):            if include_same_pairs:                if j >= i:                    yield elem1, elem2            else:                if j > i:                    yield elem1, elem2def group_quantity(length: int, seq: Iteratable) -> tp.Iterator[tp.List[T]]:    """    Slice an iterable into lists containing at most len entries.    Eg.    >>> assert list(group_quantity(3, [1, 2, 3, 4, 5, 6, 7, 8, 9, 10])) == [[1, 2, 3], [4, 5, 6],    >>>                                                                     [7, 8, 9], [10]]    This correctly detects sequences, and uses an optimized variant via slicing if    a sequence is passed.    You can safely pass ranges    :param length: p_len for the returning sequences    :param seq: sequence to split    """    if isinstance(seq, tp.Sequence) and not isinstance(seq, range):        i = 0        while i < len(seq):            yield seq[i:i + length]            i += length    else:        entries = []        for elem in seq:            if len(entries) == length:                yield entries                entries = [elem]            else:                entries.append(elem)        if entries:            yield entriesdef filter_out_nones(y: tp.Sequence[T]) -> tp.List[T]:    """    Return all elements, as a list, that are not None    :param y: a sequence of items    :return: a list of all subelements, in order, that are not None    """    output = []    for item in y:        if item is not None:            output.append(item)    return outputdef filter_out_false(y: tp.Sequence[T]) -> tp.List[T]:    """    Return all elements, as a list, that are True    :param y: a sequence of items    :return: a list of all subelements, in order, that are not None    """    output = []    for item in y:        if item:            output.append(item)    return output@rethrow_as(IndexError, ValueError)def index_of_max(seq: tp.Sequence[T]) -> int:    """    Return the index of the maximum element    :param seq: sequence to examine    :return: index of the maximum element    :raise ValueError: sequence was empty    """    max_index = 0    max_elem = seq[0]    for i, elem in enumerate(seq):        if elem > max_elem:            max_index = i            max_elem = elem    return max_indexdef index_of(predicate: Predicate, seq: tp.Sequence[T]) -> int:    """    Return an index of first met element that calling predicate on it returns True    :param predicate: predicate to apply    :param seq: sequence to examine    :return: index of the element    :raises ValueError: if no element found    """    i = 0    for elem in seq:        if predicate(elem):            return i        i += 1    raise ValueError('Element not found')class Multirun:    """    A class to launch the same operation on the entire sequence.    Consider:    >>> class Counter:    >>>     def __init__(self, value=0):    >>>         self.count = value    >>>     def add(self, v):    >>>         self.count += 1    >>>     def __eq__(self, other):    >>>          return self.count == other.count    >>>     def __iadd__(self, other):    >>>         self.add(other)    >>> a = [Counter(), Counter()]    The following:    >>> for b in a:    >>>     b.add(2)    Can be replaced with    >>> Multirun(a).add(2)    And the following:    >>> for b in a:    >>>     b += 3    With this    >>> b = Mulirun(a)    >>> b += 3    Furthermore note that:    >>> Multirun(a).add(2) == [Counter(2), Counter(2)]    :param sequence: sequence to execute these operations for    :param dont_return_list: the operation won't return a list if this is True    """    __slots__ = 'sequence', 'dont_return_list'    def __bool__(self) -> bool:        return bool(self.sequence)    def __init__(self, sequence: tp.Iterable, dont_return_list: bool = False):        self.sequence = sequence        self.dont_return_list = dont_return_list    def __iter__(self):        return iter(self.sequence)    def __getattr__(self, item):        def inner(*args, **kwargs):            if not self.dont_return_list:                results = []                for element in self:                    getattr(element, item)(*args, **kwargs)                    results.append(element)                return results            else:                for element in self:                    getattr(element, item)(*args, **kwargs)        # Take care: the array might just be empty...        try:            fun = getattr(n_th(self), item)            inner = wraps(fun)(inner)        except IndexError:            pass        return inner    def __iadd__(self, other):        for element in self:            element += other        return self    def __isub__(self, other):        for element in self:            element -= other        return self    def __imul__(self, other):        for element in self:            element *= other        return self    def __itruediv__(self, other):        for element in self:            element /= other        return self    def __ifloordiv__(self, other):        for element in self:            element //= other        return self    def __ilshift__(self, other):        for element in self:            element <<= other        return self    def __irshift__(self, other):        for element in self:            element >>= other        return self    def __ipow__(self, other):        for element in self:            element **= other        return self
\ No newline at end of file
+import copyimport typing as tpfrom satella.coding.decorators.decorators import wrapsfrom satella.coding.recast_exceptions import rethrow_asfrom .iterators import n_thfrom ..typing import T, Iteratable, NoArgCallable, Predicatedef infinite_iterator(returns: tp.Optional[T] = None,                      return_factory: tp.Optional[NoArgCallable[T]] = None) -> tp.Iterator[T]:    """    Return an infinite number of objects.    :param returns: object to return. Note that this will be this very object, it will        not be copied.    :param return_factory: a callable that takes 0 args and returns an element to return.    :return: an infinite iterator of provided values    """    while True:        if returns is None:            yield None if return_factory is None else return_factory()        else:            yield returnsdef make_list(element: T, n: int, deep_copy: bool = False) -> tp.List[T]:    """    Make a list consisting of n times element. Element will be copied via    copy.copy before adding to list.    :param element: element    :param n: times to repeat the element    :param deep_copy: whether to use copy.deepcopy instead of copy.copy    :return: list of length n    """    output = []    if deep_copy:        copy_op = copy.deepcopy    else:        copy_op = copy.copy    for _ in range(n):        output.append(copy_op(element))    return output# shamelessly copied from# https://medium.com/better-programming/is-this-the-last-element-of-my-python-for-loop-784f5ff90bb5def is_last(lst: Iteratable) -> tp.Iterator[tp.Tuple[bool, T]]:    """    Return every element of the list, alongside a flag telling is this the last element.    Use like:    >>> for is_last, element in is_last(my_list):    >>>     if is_last:    >>>         ...    :param lst: list to iterate thru    :return: a p_gen returning (bool, T)    Note that this returns a nice, O(1) iterator.    """    iterable = iter(lst)    try:        ret_var = next(iterable)    except StopIteration:        return    for val in iterable:        yield False, ret_var        ret_var = val    yield True, ret_vardef add_next(lst: Iteratable,             wrap_over: bool = False,             skip_last: bool = False) -> tp.Iterator[tp.Tuple[T, tp.Optional[T]]]:    """    Yields a 2-tuple of given iterable, presenting the next element as second element of the tuple.    The last element will be the last element alongside with a None, if wrap_over is False, or the    first element if wrap_over was True    Example:    >>> list(add_next([1, 2, 3, 4, 5])) == [(1, 2), (2, 3), (3, 4), (4, 5), (5, None)]    >>> list(add_next([1, 2, 3, 4, 5], True)) == [(1, 2), (2, 3), (3, 4), (4, 5), (5, 1)]    :param lst: iterable to iterate over    :param wrap_over: whether to attach the first element to the pair of the last element instead        of None    :param skip_last: if this is True, then last element, alongside with a None, won't be output    """    iterator = iter(lst)    try:        first_val = prev_val = next(iterator)    except StopIteration:        return    for val in iterator:        yield prev_val, val        prev_val = val    if wrap_over:        yield prev_val, first_val    else:        if not skip_last:            yield prev_val, Nonedef half_cartesian(seq: tp.Iterable[T],                   include_same_pairs: bool = True) -> tp.Iterator[tp.Tuple[T, T]]:    """    Generate half of the Cartesian product of both sequences.    Useful when you have a commutative operation that you'd like to execute on both elements    (eg. checking for collisions).    Example:    >>> list(half_cartesian([1, 2, 3], [1, 2, 3])) == \    >>>     [(1, 1), (1, 2), (1, 3), (2, 2), (2, 3), (3, 3)]    :param seq: The sequence    :param include_same_pairs: if True, then pairs returning two of the same objects will be        returned. For example, if False, the following will be true:    >>> list(half_cartesian([1, 2, 3], [1, 2, 3], include_same_pairs=False)) == \    >>>     [(1, 2), (1, 3), (2, 3)]    """    seq = list(seq)     # as it will be iterated upon many times    for i, elem1 in enumerate(seq):        for j, elem2 in enumerate(seq):            if include_same_pairs:                if j >= i:                    yield elem1, elem2            else:                if j > i:                    yield elem1, elem2def group_quantity(length: int, seq: Iteratable) -> tp.Iterator[tp.List[T]]:    """    Slice an iterable into lists containing at most len entries.    Eg.    >>> assert list(group_quantity(3, [1, 2, 3, 4, 5, 6, 7, 8, 9, 10])) == [[1, 2, 3], [4, 5, 6],    >>>                                                                     [7, 8, 9], [10]]    This correctly detects sequences, and uses an optimized variant via slicing if    a sequence is passed.    You can safely pass ranges    :param length: p_len for the returning sequences    :param seq: sequence to split    """    if isinstance(seq, tp.Sequence) and not isinstance(seq, range):        i = 0        while i < len(seq):            yield seq[i:i + length]            i += length    else:        entries = []        for elem in seq:            if len(entries) == length:                yield entries                entries = [elem]            else:                entries.append(elem)        if entries:            yield entriesdef filter_out_nones(y: tp.Sequence[T]) -> tp.List[T]:    """    Return all elements, as a list, that are not None    :param y: a sequence of items    :return: a list of all subelements, in order, that are not None    """    output = []    for item in y:        if item is not None:            output.append(item)    return outputdef filter_out_false(y: tp.Sequence[T]) -> tp.List[T]:    """    Return all elements, as a list, that are True    :param y: a sequence of items    :return: a list of all subelements, in order, that are not None    """    output = []    for item in y:        if item:            output.append(item)    return output@rethrow_as(IndexError, ValueError)def index_of_max(seq: tp.Sequence[T]) -> int:    """    Return the index of the maximum element    :param seq: sequence to examine    :return: index of the maximum element    :raise ValueError: sequence was empty    """    max_index = 0    max_elem = seq[0]    for i, elem in enumerate(seq):        if elem > max_elem:            max_index = i            max_elem = elem    return max_indexdef index_of(predicate: Predicate, seq: tp.Sequence[T]) -> int:    """    Return an index of first met element that calling predicate on it returns True    :param predicate: predicate to apply    :param seq: sequence to examine    :return: index of the element    :raises ValueError: if no element found    """    i = 0    for elem in seq:        if predicate(elem):            return i        i += 1    raise ValueError('Element not found')class Multirun:    """    A class to launch the same operation on the entire sequence.    Consider:    >>> class Counter:    >>>     def __init__(self, value=0):    >>>         self.count = value    >>>     def add(self, v):    >>>         self.count += 1    >>>     def __eq__(self, other):    >>>          return self.count == other.count    >>>     def __iadd__(self, other):    >>>         self.add(other)    >>> a = [Counter(), Counter()]    The following:    >>> for b in a:    >>>     b.add(2)    Can be replaced with    >>> Multirun(a).add(2)    And the following:    >>> for b in a:    >>>     b += 3    With this    >>> b = Mulirun(a)    >>> b += 3    Furthermore note that:    >>> Multirun(a).add(2) == [Counter(2), Counter(2)]    :param sequence: sequence to execute these operations for    :param dont_return_list: the operation won't return a list if this is True    """    __slots__ = 'sequence', 'dont_return_list'    def __bool__(self) -> bool:        return bool(self.sequence)    def __init__(self, sequence: tp.Iterable, dont_return_list: bool = False):        self.sequence = sequence        self.dont_return_list = dont_return_list    def __iter__(self):        return iter(self.sequence)    def __getattr__(self, item):        def inner(*args, **kwargs):            if not self.dont_return_list:                results = []                for element in self:                    getattr(element, item)(*args, **kwargs)                    results.append(element)                return results            else:                for element in self:                    getattr(element, item)(*args, **kwargs)        # Take care: the array might just be empty...        try:            fun = getattr(n_th(self), item)            inner = wraps(fun)(inner)        except IndexError:            pass        return inner    def __iadd__(self, other):        for element in self:            element += other        return self    def __isub__(self, other):        for element in self:            element -= other        return self    def __imul__(self, other):        for element in self:            element *= other        return self    def __itruediv__(self, other):        for element in self:            element /= other        return self    def __ifloordiv__(self, other):        for element in self:            element //= other        return self    def __ilshift__(self, other):        for element in self:            element <<= other        return self    def __irshift__(self, other):        for element in self:            element >>= other        return self    def __ipow__(self, other):        for element in self:            element **= other        return self
\ No newline at end of file
-- 
2.43.0


From 34e6d0619dfd26ad84a7263d935514e84da304bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:54 +0000
Subject: [PATCH 047/221] fix: ListWrapperIterator did not support negative
 indices and open-ended slices

---
 satella/coding/sequences/iterators.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/satella/coding/sequences/iterators.py b/satella/coding/sequences/iterators.py
index 4d31773..d759e3f 100644
--- a/satella/coding/sequences/iterators.py
+++ b/satella/coding/sequences/iterators.py
@@ -565,8 +565,12 @@ class ListWrapperIterator(tp.Sequence[T], tp.Iterator[T]):
         :raises IndexError: invalid index
         """
         if isinstance(item, int):
-            if len(self.list) < item + 1:
+            if item < 0:
+                self.exhaust()
+            elif len(self.list) < item + 1:
                 self.advance_to_item(item + 1)
+        elif item.stop is None or item.stop < 0 or (item.start or 0) < 0 or (item.step or 1) < 0:
+            self.exhaust()
         else:
             self.advance_to_item(item.stop)
         return self.list[item]
-- 
2.43.0


From 7c00e4936dffced2597151c225d56d602eca73e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:54 +0000
Subject: [PATCH 048/221] fix: SelfClosingGenerator.send discarded the value
 yielded by the generator

---
 satella/coding/iterators.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/satella/coding/iterators.py b/satella/coding/iterators.py
index 2fa2365..fd5622f 100644
--- a/satella/coding/iterators.py
+++ b/satella/coding/iterators.py
@@ -59,8 +59,8 @@ class SelfClosingGenerator:
     def __call__(self, *args, **kwargs):
         return SelfClosingGenerator(self.generator(*args, **kwargs))
 
-    def send(self, obj: tp.Any) -> None:
-        self.generator.send(obj)
+    def send(self, obj: tp.Any):
+        return self.generator.send(obj)
 
     def __next__(self):
         try:
-- 
2.43.0


From 0e918708505b0c0b4da16ba63bd04450085d6d2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:54 +0000
Subject: [PATCH 049/221] fix: length_factory of hint_with_length could not be
 used alone, nor with generator functions

---
 satella/coding/iterators.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/satella/coding/iterators.py b/satella/coding/iterators.py
index fd5622f..1703fc2 100644
--- a/satella/coding/iterators.py
+++ b/satella/coding/iterators.py
@@ -105,7 +105,7 @@ class hint_with_length:
     """
     __slots__ = 'generator', 'length', 'length_factory'
 
-    def __init__(self, generator: tp.Generator, length: tp.Optional[int],
+    def __init__(self, generator: tp.Generator, length: tp.Optional[int] = None,
                  length_factory: tp.Optional[NoArgCallable[int]] = None):
         self.generator = generator
         if length is None and length_factory is None:
@@ -117,7 +117,7 @@ class hint_with_length:
         self.length_factory = length_factory
 
     def __call__(self, *args, **kwargs):
-        return hint_with_length(self.generator(*args, **kwargs), self.length)
+        return hint_with_length(self.generator(*args, **kwargs), self.length, self.length_factory)
 
     def close(self):
         return self.generator.close()
-- 
2.43.0


From 3bb47ac8c87d5e94bde8a2828c8a5d5b431d0b45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:54 +0000
Subject: [PATCH 050/221] fix: chain swallowed a TypeError raised by an
 iterable, and yielded the iterable instead

---
 satella/coding/iterators.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/satella/coding/iterators.py b/satella/coding/iterators.py
index 1703fc2..9730816 100644
--- a/satella/coding/iterators.py
+++ b/satella/coding/iterators.py
@@ -15,9 +15,11 @@ def chain(*args) -> tp.Iterator:
     """
     for elem in args:
         try:
-            yield from iter(elem)
+            iterator = iter(elem)
         except TypeError:
             yield elem
+        else:
+            yield from iterator
 
 
 def exhaust(iterator: tp.Iterator) -> None:
-- 
2.43.0


From 638bd602368c71401bd4bff020c26c95b289a69f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:06 +0000
Subject: [PATCH 051/221] fix: RunActionAfterGeneratorCompletes ran its action
 many times, after a failure, or not at all if completed by send

---
 satella/coding/generators.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/satella/coding/generators.py b/satella/coding/generators.py
index fd29de6..dd5a970 100644
--- a/satella/coding/generators.py
+++ b/satella/coding/generators.py
@@ -31,24 +31,32 @@ class RunActionAfterGeneratorCompletes(tp.Generator, metaclass=ABCMeta):
 
     def send(self, value):
         """Send a value to the generator"""
-        return self.generator.send(value)
+        return self._advance(self.generator.send, value)
 
     def next(self):
-        return self.generator.__next__()
+        return self.__next__()
 
     def __iter__(self):
         return self
 
     def throw(self, __typ, __val=None, __tb=None):
-        return self.generator.throw(__typ, __val, __tb)
+        return self._advance(self.generator.throw, __typ, __val, __tb)
 
     def __next__(self):
+        return self._advance(self.generator.__next__)
+
+    def _advance(self, operation, *args):
         try:
-            return self.generator.__next__()
+            return operation(*args)
         except StopIteration:
             if not self.closed:
+                self.closed = True
                 self.action_to_run(*self.args, **self.kwargs)
             raise
+        except BaseException:
+            if getattr(self.generator, 'gi_frame', None) is None:
+                self.closed = True      # the generator has failed, so it will never complete
+            raise
 
     @abstractmethod
     def action_to_run(self):
-- 
2.43.0


From 6193cefa7884112f886eec788c095842ab06bce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:08:43 +0000
Subject: [PATCH 052/221] fix: ListDeleter going past the first element does
 not wrap around to the last one

---
 satella/coding/deleters.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/satella/coding/deleters.py b/satella/coding/deleters.py
index 0fb1427..5da6906 100644
--- a/satella/coding/deleters.py
+++ b/satella/coding/deleters.py
@@ -161,6 +161,11 @@ class ListDeleter(tp.Generic[T]):
         if self.direction == DIR_FORWARD and self.current_index == len(self.list_to_process):
             raise StopIteration('Last element reached')
         self.current_index += +1 if self.direction == DIR_FORWARD else -1
+        return self._get_current()
+
+    def _get_current(self) -> T:
+        if self.current_index < 0:
+            raise StopIteration()
         try:
             return self.list_to_process[self.current_index]
         except IndexError:
@@ -185,10 +190,7 @@ class ListDeleter(tp.Generic[T]):
         if self.direction == DIR_BACKWARD and self.current_index == len(self.list_to_process):
             raise StopIteration('Cannot go previous on a last element!')
         self.current_index += -1 if self.direction == DIR_FORWARD else +1
-        try:
-            return self.list_to_process[self.current_index]
-        except IndexError:
-            raise StopIteration()
+        return self._get_current()
 
     def delete(self) -> None:
         self.indices_to_delete.add(self.current_index)
-- 
2.43.0


From f366d97edadca5174a0f8f6f2dbbdbdfe8b9bad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:08:43 +0000
Subject: [PATCH 053/221] fix: merge_list does not compare values and does not
 recurse upon equal keys

---
 satella/coding/transforms/merge_list.py | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/satella/coding/transforms/merge_list.py b/satella/coding/transforms/merge_list.py
index c47d8f1..1c78924 100644
--- a/satella/coding/transforms/merge_list.py
+++ b/satella/coding/transforms/merge_list.py
@@ -36,7 +36,8 @@ class merge_list(tp.Iterator[tp.Tuple[K, V]]):
 
         for i, it in enumerate(self.its):
             try:
-                self.heap.push((*next(it), i))
+                k, v = next(it)
+                self.heap.push((k, i, v))
                 self.available_lists.add(i)
             except StopIteration:
                 pass
@@ -49,15 +50,16 @@ class merge_list(tp.Iterator[tp.Tuple[K, V]]):
         if self.closed:
             raise StopIteration()
 
-        try:
-            k2, v2, i2 = self.pop()
-        except IndexError:
-            self.closed = True
-            return self.k, self.v
+        while True:
+            try:
+                k2, v2, i2 = self.pop()
+            except IndexError:
+                self.closed = True
+                return self.k, self.v
 
-        if k2 == self.k:
+            if k2 != self.k:
+                break
             self.v = self.merge_func(self.v, v2)
-            return next(self)
 
         try:
             return self.k, self.v
@@ -65,11 +67,11 @@ class merge_list(tp.Iterator[tp.Tuple[K, V]]):
             self.k, self.v, self.i = k2, v2, i2
 
     def pop(self):
-        k, v, i = self.heap.pop()
+        k, i, v = self.heap.pop()
         if i in self.available_lists:
             try:
                 k2, v2 = next(self.its[i])
-                self.heap.push((k2, v2, i))
+                self.heap.push((k2, i, v2))
             except StopIteration:
                 self.available_lists.remove(i)
         return k, v, i
-- 
2.43.0


From 0ca87a8725b90662194b0de2096904468204883b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:08:43 +0000
Subject: [PATCH 054/221] fix: merge_series works with series that start at
 different timestamps

---
 satella/coding/transforms/merger.py | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/satella/coding/transforms/merger.py b/satella/coding/transforms/merger.py
index 70873b7..16030c5 100644
--- a/satella/coding/transforms/merger.py
+++ b/satella/coding/transforms/merger.py
@@ -74,19 +74,14 @@ class merge_series:
         :param for_ts: timestamp to report for
         :return: whether every value can report for for_ts
         """
+        can_report = True
         for i, _ in enumerate(self.series):
-            if self.super_next_preloaded_values[i] is None:
-                if self.next_preloaded_values[i][0] > for_ts:
-                    return False
-            else:
-                try:
-                    while not (self.next_preloaded_values[i][0] <= for_ts
-                               < self.super_next_preloaded_values[i][0]):
-                        self.advance(i)
-                except TypeError:  # we've reached the finale
-                    if self.next_preloaded_values[i][0] > for_ts:
-                        return False
-        return True
+            while self.super_next_preloaded_values[i] is not None and \
+                    self.super_next_preloaded_values[i][0] <= for_ts:
+                self.advance(i)
+            if self.next_preloaded_values[i][0] > for_ts:
+                can_report = False
+        return can_report
 
     def assert_have_timestamps(self) -> None:
         """
-- 
2.43.0


From e0fb3d63e22c7dc3c8cf7c294f22e6a0dcaeee0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:08:43 +0000
Subject: [PATCH 055/221] fix: jsonify handles nested enum values, unhashable
 keys and objects whose str() fails

---
 satella/coding/transforms/jsonify.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/satella/coding/transforms/jsonify.py b/satella/coding/transforms/jsonify.py
index 1b4184f..970c524 100644
--- a/satella/coding/transforms/jsonify.py
+++ b/satella/coding/transforms/jsonify.py
@@ -23,19 +23,22 @@ def jsonify(data: tp.Any) -> tp.Optional[tp.Union[str, int, float, list, dict]]:
     elif isinstance(data, (int, float, str)):
         v = data
     elif isinstance(data, enum.Enum):
-        v = data.value
+        v = jsonify(data.value)
     elif isinstance(data, JSONAble):
         v = jsonify(data.to_json())
     elif isinstance(data, tp.Mapping):
         new_mapping = {}
         for key in data:
-            new_mapping[jsonify(key)] = jsonify(data[key])
+            json_key = jsonify(key)
+            if isinstance(json_key, (list, dict)):  # these can't be keys
+                json_key = str(key)
+            new_mapping[json_key] = jsonify(data[key])
         v = new_mapping
     elif isinstance(data, (tp.Iterable, tp.Iterator)):
         v = [jsonify(elem) for elem in data]
     else:
         try:
             v = str(data)
-        except TypeError:
+        except Exception:
             v = repr(data)
     return v
-- 
2.43.0


From 9f9acee391bca8c27a0412a4a3ba17f6f795089a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:08:43 +0000
Subject: [PATCH 056/221] fix: intify raises ValueError for infinities

---
 satella/coding/transforms/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/satella/coding/transforms/__init__.py b/satella/coding/transforms/__init__.py
index b87b5a0..3b2f0e8 100644
--- a/satella/coding/transforms/__init__.py
+++ b/satella/coding/transforms/__init__.py
@@ -149,7 +149,7 @@ def intify(v: tp.Any) -> int:
 
     try:
         return int(v)
-    except (TypeError, ValueError):
+    except (TypeError, ValueError, OverflowError):
         try:
             return len(v)
         except (AttributeError, TypeError, ValueError):
-- 
2.43.0


From 5e3283ac213b593665fc965b83945d298ccdfe4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:56:41 +0000
Subject: [PATCH 057/221] fix: operations upon two AtomicNumbers, or an
 AtomicNumber and itself, deadlocked

---
 satella/coding/concurrent/atomic.py | 94 +++++++++++++++++------------
 1 file changed, 56 insertions(+), 38 deletions(-)

diff --git a/satella/coding/concurrent/atomic.py b/satella/coding/concurrent/atomic.py
index ac3a021..a505f77 100644
--- a/satella/coding/concurrent/atomic.py
+++ b/satella/coding/concurrent/atomic.py
@@ -1,5 +1,6 @@
 import typing as tp
 
+from satella.coding.decorators.decorators import wraps
 from satella.coding.concurrent.monitor import Monitor
 from satella.coding.concurrent.thread import Condition
 from satella.exceptions import WouldWaitMore
@@ -8,6 +9,23 @@ from satella.time.measure import measure
 Number = tp.Union[int, float]
 
 
+def _synchronized_operation(fun):
+    """
+    Execute an operation atomically. Should the operand be an AtomicNumber as well, it's value is
+    obtained first, as locking both at the same time would deadlock if they are the same object, or
+    are used in both directions at once.
+    """
+    @wraps(fun)
+    def inner(self, other, *args):
+        if isinstance(other, AtomicNumber):
+            with Monitor.acquire(other):
+                other = other.value
+        with Monitor.acquire(self):
+            return fun(self, other, *args)
+
+    return inner
+
+
 class AtomicNumber(Monitor):
     """
     An atomic number. Note that the class is not hashable and for a reason, since it's value
@@ -53,43 +71,43 @@ class AtomicNumber(Monitor):
     def __repr__(self) -> str:
         return 'AtomicNumber(%s)' % (self.value,)
 
-    @Monitor.synchronized
+    @_synchronized_operation
     def __and__(self, other: Number) -> Number:
         return self.value & other
 
-    @Monitor.synchronized
+    @_synchronized_operation
     def __or__(self, other: Number) -> Number:
         return self.value | other
 
-    @Monitor.synchronized
+    @_synchronized_operation
     def __xor__(self, other: Number) -> Number:
         return self.value ^ other
 
-    @Monitor.synchronized
+    @_synchronized_operation
     def __rand__(self, other: Number) -> Number:
         return other & self.value
 
-    @Monitor.synchronized
+    @_synchronized_operation
     def __ror__(self, other: Number) -> Number:
         return other | self.value
 
-    @Monitor.synchronized
+    @_synchronized_operation
     def __rxor__(self, other: Number) -> Number:
         return other ^ self.value
 
-    @Monitor.synchronized
+    @_synchronized_operation
     def __iand__(self, other: Number) -> 'AtomicNumber':
         self.value &= other
         self.condition.notify_all()
         return self
 
-    @Monitor.synchronized
+    @_synchronized_operation
     def __ior__(self, other: Number) -> 'AtomicNumber':
         self.value |= other
         self.condition.notify_all()
         return self
 
-    @Monitor.synchronized
+    @_synchronized_operation
     def __ixor__(self, other: Number) -> 'AtomicNumber':
         self.value ^= other
         self.condition.notify_all()
@@ -99,133 +117,133 @@ class AtomicNumber(Monitor):
     def __str__(self) -> str:
         return str(self.value)
 
-    @Monitor.synchronized
+    @_synchronized_operation
     def __gt__(self, other: Number):
         return self.value > other
 
-    @Monitor.synchronized
+    @_synchronized_operation
     def __lshift__(self, other: int) -> Number:
         return self.value << other
 
-    @Monitor.synchronized
+    @_synchronized_operation
     def __rshift__(self, other: int) -> Number:
         return self.value >> other
 
-    @Monitor.synchronized
+    @_synchronized_operation
     def __rlshift__(self, other: int) -> Number:
         return other << self.value
 
-    @Monitor.synchronized
+    @_synchronized_operation
     def __rrshift__(self, other: int) -> Number:
         return other >> self.value
 
-    @Monitor.synchronized
+    @_synchronized_operation
     def __ilshift__(self, other: int) -> 'AtomicNumber':
         self.value <<= other
         self.condition.notify_all()
         return self
 
-    @Monitor.synchronized
+    @_synchronized_operation
     def __irshift__(self, other: int) -> 'AtomicNumber':
         self.value >>= other
         self.condition.notify_all()
         return self
 
-    @Monitor.synchronized
+    @_synchronized_operation
     def __ge__(self, other: Number):
         return self.value >= other
 
-    @Monitor.synchronized
+    @_synchronized_operation
     def __lt__(self, other: Number):
         return self.value < other
 
-    @Monitor.synchronized
+    @_synchronized_operation
     def __le__(self, other: Number):
         return self.value <= other
 
-    @Monitor.synchronized
+    @_synchronized_operation
     def __iadd__(self, other: Number) -> 'AtomicNumber':
         self.value += other
         self.condition.notify_all()
         return self
 
-    @Monitor.synchronized
+    @_synchronized_operation
     def __pow__(self, power: Number, modulo=None) -> Number:
         return pow(self.value, power, modulo)
 
-    @Monitor.synchronized
+    @_synchronized_operation
     def __ipow__(self, other) -> 'AtomicNumber':
         self.value **= other
         self.condition.notify_all()
         return self
 
-    @Monitor.synchronized
+    @_synchronized_operation
     def __radd__(self, other: Number) -> Number:
         return other + self.value
 
-    @Monitor.synchronized
+    @_synchronized_operation
     def __rsub__(self, other: Number) -> Number:
         return other - self.value
 
-    @Monitor.synchronized
+    @_synchronized_operation
     def __rmul__(self, other: Number) -> Number:
         return other * self.value
 
-    @Monitor.synchronized
+    @_synchronized_operation
     def __rtruediv__(self, other: Number) -> Number:
         return other / self.value
 
-    @Monitor.synchronized
+    @_synchronized_operation
     def __rfloordiv__(self, other: Number) -> Number:
         return other // self.value
 
-    @Monitor.synchronized
+    @_synchronized_operation
     def __rpow__(self, other: Number) -> Number:
         return other ** self.value
 
-    @Monitor.synchronized
+    @_synchronized_operation
     def __radd__(self, other: Number) -> Number:
         return other + self.value
 
-    @Monitor.synchronized
+    @_synchronized_operation
     def __add__(self, other: Number) -> Number:
         return self.value + other
 
-    @Monitor.synchronized
+    @_synchronized_operation
     def __sub__(self, other: Number) -> Number:
         return self.value - other
 
-    @Monitor.synchronized
+    @_synchronized_operation
     def __mul__(self, other: Number) -> Number:
         return self.value * other
 
-    @Monitor.synchronized
+    @_synchronized_operation
     def __truediv__(self, other: Number) -> Number:
         return self.value / other
 
-    @Monitor.synchronized
+    @_synchronized_operation
     def __floordiv__(self, other: Number) -> Number:
         return self.value // other
 
-    @Monitor.synchronized
+    @_synchronized_operation
     def __itruediv__(self, other: Number) -> 'AtomicNumber':
         self.value /= other
         self.condition.notify_all()
         return self
 
-    @Monitor.synchronized
+    @_synchronized_operation
     def __ifloordiv__(self, other: Number) -> 'AtomicNumber':
         self.value //= other
         self.condition.notify_all()
         return self
 
-    @Monitor.synchronized
+    @_synchronized_operation
     def __isub__(self, other: int) -> 'AtomicNumber':
         self.value -= other
         self.condition.notify_all()
         return self
 
-    @Monitor.synchronized
+    @_synchronized_operation
     def __imul__(self, other: int) -> 'AtomicNumber':
         self.value *= other
         self.condition.notify_all()
-- 
2.43.0


From 1029d4fc5142e7b3f8f86bade6e8854d40923c6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:56:41 +0000
Subject: [PATCH 058/221] fix: IDAllocator with a non-zero start_at allocated
 integers above its top_limit, and ignored a top_limit of 0

---
 satella/coding/concurrent/id_allocator.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/satella/coding/concurrent/id_allocator.py b/satella/coding/concurrent/id_allocator.py
index b702615..4b2d9ba 100644
--- a/satella/coding/concurrent/id_allocator.py
+++ b/satella/coding/concurrent/id_allocator.py
@@ -71,13 +71,13 @@ class IDAllocator(Monitor):
         self.start_at = start_at
         self.ints_allocated = set()
         self.free_ints = set()
-        self.top_limit = top_limit or math.inf
+        self.top_limit = math.inf if top_limit is None else top_limit
         self.bound = 0
 
     def _extend_the_bound_to(self, x: int) -> int:
         """Return how many integers added"""
-        if x > self.top_limit:
-            x = self.top_limit
+        # bound is counted from start_at
+        x = max(min(x, self.top_limit - self.start_at), self.bound)
         how_many = 0
         for i in range(self.bound, x):
             self.free_ints.add(i)
-- 
2.43.0


From 707c65091e6112de8370297222cdce131de97291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:56:41 +0000
Subject: [PATCH 059/221] fix: PeekableQueue could miss an item put while a
 reader was about to wait, or which another reader only peeked at

---
 satella/coding/concurrent/queue.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/satella/coding/concurrent/queue.py b/satella/coding/concurrent/queue.py
index 8df1a49..ce24933 100644
--- a/satella/coding/concurrent/queue.py
+++ b/satella/coding/concurrent/queue.py
@@ -29,7 +29,7 @@ class PeekableQueue(tp.Generic[T]):
         """
         with self.lock:
             self.queue.append(item)
-        self.inserted_condition.notify()
+        self.inserted_condition.notify_all()
 
     def put_many(self, items: tp.Sequence[T]) -> None:
         """
@@ -38,16 +38,15 @@ class PeekableQueue(tp.Generic[T]):
         :param items: sequence of items to put
         """
         with self.lock:
-            items_count = 0
             for item in items:
-                items_count += 1
                 self.queue.append(item)
-        self.inserted_condition.notify(items_count)
+        self.inserted_condition.notify_all()
 
     def __get_timeout_none(self, item_getter):
         while True:
-            self.lock.release()
-            self.inserted_condition.wait()
+            with self.inserted_condition:   # lest a notification will be missed
+                self.lock.release()
+                self.inserted_condition.wait()
             self.lock.acquire()
             if len(self.queue):
                 try:
@@ -58,9 +57,10 @@ class PeekableQueue(tp.Generic[T]):
     def __get_timeout(self, item_getter, timeout):
         with measure(timeout=timeout) as measurement:
             while not measurement.timeouted:
-                self.lock.release()
-                # raises WouldWaitMore
-                self.inserted_condition.wait(timeout=measurement.time_remaining)
+                with self.inserted_condition:   # lest a notification will be missed
+                    self.lock.release()
+                    # raises WouldWaitMore
+                    self.inserted_condition.wait(timeout=measurement.time_remaining)
                 self.lock.acquire()
                 if len(self.queue):
                     try:
-- 
2.43.0


From b7609de66b4084298398109306f1eaf30aa986cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:56:41 +0000
Subject: [PATCH 060/221] fix: LockedDataset considered itself unlocked after
 another thread has already locked it

---
 satella/coding/concurrent/locked_dataset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/satella/coding/concurrent/locked_dataset.py b/satella/coding/concurrent/locked_dataset.py
index 36b4807..32c92be 100644
--- a/satella/coding/concurrent/locked_dataset.py
+++ b/satella/coding/concurrent/locked_dataset.py
@@ -93,8 +93,8 @@ class LockedDataset:
         return self
 
     def __exit__(self, exc_type, exc_val, exc_tb):
-        _get_internal(self).lock.release()
         _get_internal(self).locked = False
+        _get_internal(self).lock.release()
         return False
 
 
-- 
2.43.0


From 3b13443788baee2751e74f6ff0d01ed4d2654b19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:56:41 +0000
Subject: [PATCH 061/221] fix: two threads could set a DeferredValue at the
 same time

---
 satella/coding/concurrent/value.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/satella/coding/concurrent/value.py b/satella/coding/concurrent/value.py
index 71bd9be..a86e8d3 100644
--- a/satella/coding/concurrent/value.py
+++ b/satella/coding/concurrent/value.py
@@ -1,6 +1,6 @@
 import time
 import typing as tp
-from threading import Event
+from threading import Event, Lock
 
 from satella.coding.misc import _BLANK
 from satella.coding.typing import T
@@ -22,10 +22,11 @@ class DeferredValue(tp.Generic[T]):
     >>> val.set_value(3)
     """
 
-    __slots__ = 'val', 'lock'
+    __slots__ = 'val', 'lock', 'set_lock'
 
     def __init__(self):
         self.lock = Event()
+        self.set_lock = Lock()
         self.val = _BLANK
 
     def set_value(self, va: T) -> None:
@@ -35,9 +36,10 @@ class DeferredValue(tp.Generic[T]):
         :param va: value to set
         :raises ValueError: value is already set
         """
-        if self.val is not _BLANK:
-            raise ValueError('Value curently set!')
-        self.val = va
+        with self.set_lock:
+            if self.val is not _BLANK:
+                raise ValueError('Value curently set!')
+            self.val = va
         self.lock.set()
 
     def result(self, timeout=None) -> T:
-- 
2.43.0


From b804239df8284f47346f1231e838e3b5b0db50dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:56:41 +0000
Subject: [PATCH 062/221] fix: CallableGroup.has_cancelled_callbacks was
 inverted

---
 satella/coding/concurrent/callablegroup.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/satella/coding/concurrent/callablegroup.py b/satella/coding/concurrent/callablegroup.py
index 9719236..a480e4d 100644
--- a/satella/coding/concurrent/callablegroup.py
+++ b/satella/coding/concurrent/callablegroup.py
@@ -113,7 +113,7 @@ class CallableGroup(tp.Generic[T]):
         of them was cancelled
         """
         for clb in self.callables:
-             if clb:
+            if not clb:
                 return True
         return False
 
-- 
2.43.0


From a2018c302cdfd6a5d52d7c9fe85c8c1e81b08e62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:56:41 +0000
Subject: [PATCH 063/221] fix: an exception raised by a callable made
 CallableGroup forget this callable and all the next ones

---
 satella/coding/concurrent/callablegroup.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/satella/coding/concurrent/callablegroup.py b/satella/coding/concurrent/callablegroup.py
index a480e4d..2a58fdc 100644
--- a/satella/coding/concurrent/callablegroup.py
+++ b/satella/coding/concurrent/callablegroup.py
@@ -173,11 +173,17 @@ class CallableGroup(tp.Generic[T]):
 
         results = []
 
-        for call, one_shot in callables.items():
+        while callables:
+            call, one_shot = callables.popitem(last=False)
             try:
                 q = call(*args, **kwargs)
             except Exception as e:
                 if not self.swallow_exceptions:
+                    # keep this one and these which were not called yet registered
+                    if not one_shot:
+                        self.add(call, one_shot)
+                    for other, other_one_shot in callables.items():
+                        self.add(other, other_one_shot)
                     raise  # re-raise
                 q = e
 
-- 
2.43.0


From 1bcc69075c35498ce9bf9291952ee37c17e0f7ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:56:41 +0000
Subject: [PATCH 064/221] fix: CallNoOftenThan discarded the result, and
 skipped the first call if the system was booted recently

---
 satella/coding/concurrent/callablegroup.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/satella/coding/concurrent/callablegroup.py b/satella/coding/concurrent/callablegroup.py
index 2a58fdc..68d78c3 100644
--- a/satella/coding/concurrent/callablegroup.py
+++ b/satella/coding/concurrent/callablegroup.py
@@ -1,5 +1,6 @@
 import collections
 import copy
+import math
 import time
 import typing as tp
 
@@ -213,9 +214,10 @@ class CallNoOftenThan:
     def __init__(self, interval: float, callable_: tp.Callable):
         self.interval = interval  # type: float
         self.callable = callable_  # type: tp.Callable
-        self.last_called = 0  # type: float
+        self.last_called = -math.inf  # type: float
 
     def __call__(self, *args, **kwargs):
         if time.monotonic() - self.last_called >= self.interval:
-            self.callable(*args, **kwargs)
+            result = self.callable(*args, **kwargs)
             self.last_called = time.monotonic()
+            return result
-- 
2.43.0


From f1d24668002598de1a9200231614a4a0bd0faea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:56:41 +0000
Subject: [PATCH 065/221] fix: FutureCollection.cancel and
 set_running_or_notify_cancel skipped futures

---
 satella/coding/concurrent/futures/collection.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/satella/coding/concurrent/futures/collection.py b/satella/coding/concurrent/futures/collection.py
index eeb9f64..e2c047c 100644
--- a/satella/coding/concurrent/futures/collection.py
+++ b/satella/coding/concurrent/futures/collection.py
@@ -62,7 +62,7 @@ class FutureCollection:
         """
         starting = False
         for future in self.futures:
-            starting = starting or future.set_running_or_notify_cancel()
+            starting = future.set_running_or_notify_cancel() or starting
         return starting
 
     def __iadd__(self, other: tp.Union['FutureCollection', Future, tp.Sequence[Future]]):
@@ -150,5 +150,5 @@ class FutureCollection:
         """
         all_cancelled = True
         for future in self.futures:
-            all_cancelled = all_cancelled and future.cancel()
+            all_cancelled = future.cancel() and all_cancelled
         return all_cancelled
-- 
2.43.0


From 99e778fc17073eefc1dc85dcd5e465d9625d7388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:56:41 +0000
Subject: [PATCH 066/221] fix: Future.exception could not be called without
 arguments

---
 satella/coding/concurrent/futures/futures.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/satella/coding/concurrent/futures/futures.py b/satella/coding/concurrent/futures/futures.py
index 38a9473..9b27d38 100644
--- a/satella/coding/concurrent/futures/futures.py
+++ b/satella/coding/concurrent/futures/futures.py
@@ -125,7 +125,7 @@ class Future(PythonFuture, tp.Generic[T]):
         else:
             return super().result(timeout)
 
-    def exception(self, timeout: None) -> tp.Type[Exception]:
+    def exception(self, timeout=None) -> tp.Type[Exception]:
         if self._state == PRE_FINISHED:
             return self._exception
         else:
-- 
2.43.0


From 0a7299f545f726a30285ef4f91434152ce90437b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:56:41 +0000
Subject: [PATCH 067/221] fix: Future.on_success called the function for a
 cancelled future

---
 satella/coding/concurrent/futures/futures.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/satella/coding/concurrent/futures/futures.py b/satella/coding/concurrent/futures/futures.py
index 9b27d38..8d3543b 100644
--- a/satella/coding/concurrent/futures/futures.py
+++ b/satella/coding/concurrent/futures/futures.py
@@ -50,7 +50,7 @@ class Future(PythonFuture, tp.Generic[T]):
         """
 
         def inner(fut: PythonFuture):
-            if fut._exception is not None:
+            if fut._exception is not None or fut.cancelled():
                 return
             return fun(fut._result)
 
-- 
2.43.0


From 57ba022e5eb5fc240067f2f5f7689534baa34211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:56:41 +0000
Subject: [PATCH 068/221] fix: a pre-done callback of a Future could not
 replace an exception with a result

---
 satella/coding/concurrent/futures/futures.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/satella/coding/concurrent/futures/futures.py b/satella/coding/concurrent/futures/futures.py
index 8d3543b..b623992 100644
--- a/satella/coding/concurrent/futures/futures.py
+++ b/satella/coding/concurrent/futures/futures.py
@@ -138,6 +138,7 @@ class Future(PythonFuture, tp.Generic[T]):
         """
         if self._state == PRE_FINISHED:
             self._result = result
+            self._exception = None
         else:
             with self._condition:
                 if self._state in {CANCELLED, CANCELLED_AND_NOTIFIED, FINISHED}:
-- 
2.43.0


From 25997c806a90b6568c2340194d2eb5eedc666b2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:56:41 +0000
Subject: [PATCH 069/221] fix: cancelling a future did not wake up nor call
 back those waiting for its WrappingFuture

---
 satella/coding/concurrent/futures/futures.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/satella/coding/concurrent/futures/futures.py b/satella/coding/concurrent/futures/futures.py
index b623992..1692d6c 100644
--- a/satella/coding/concurrent/futures/futures.py
+++ b/satella/coding/concurrent/futures/futures.py
@@ -204,14 +204,17 @@ class WrappingFuture(Future):
         return self.source_future.set_running_or_notify_cancel()
 
     def _on_future_completed(self, future: PythonFuture):
-        if future._exception is not None:
+        if future.cancelled():
+            with self._condition:
+                self._condition.notify_all()
+            self._invoke_callbacks()
+        elif future._exception is not None:
             self.set_exception(future._exception)
         else:
             self.set_result(future._result)
 
     def cancel(self) -> bool:
-        super().cancel()
-        return self.source_future.cancel()
+        return self.source_future.cancel()      # this will call _on_future_completed
 
 
 def wrap_if(fut: tp.Union[PythonFuture, Future]) -> Future:
-- 
2.43.0


From 38f8dfbd880d85f588e6c0528ef12dab50bd917d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:56:41 +0000
Subject: [PATCH 070/221] fix: TimerBackgroundThread altered its heap without
 holding the lock

---
 satella/coding/concurrent/timer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/satella/coding/concurrent/timer.py b/satella/coding/concurrent/timer.py
index 0b99010..ab21756 100644
--- a/satella/coding/concurrent/timer.py
+++ b/satella/coding/concurrent/timer.py
@@ -83,7 +83,7 @@ class TimerBackgroundThread(threading.Thread, Monitor):
                 delay = 1
             time.sleep(delay)
             with Monitor.acquire(self):
-                items_to_exec = self.timer_objects.pop_less_than(time.monotonic())
+                items_to_exec = list(self.timer_objects.pop_less_than(time.monotonic()))
 
             for item in items_to_exec:
                 with log_exceptions(logger, swallow_exception=True):
-- 
2.43.0


From 2eb23f3048699f2f8c2ad2a53188c85e2996dc80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:56:41 +0000
Subject: [PATCH 071/221] fix: SingleStartThread.start returned None upon being
 called again

---
 satella/coding/concurrent/thread.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/satella/coding/concurrent/thread.py b/satella/coding/concurrent/thread.py
index 5a35adb..3adb41c 100644
--- a/satella/coding/concurrent/thread.py
+++ b/satella/coding/concurrent/thread.py
@@ -160,7 +160,7 @@ class SingleStartThread(threading.Thread):
         :return: self
         """
         if self.__started:
-            return
+            return self
         self.__started = True
         super().start()
         return self
-- 
2.43.0


From cb63019edcc563d5d6dc51cc8dafd38a38acf9ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:56:41 +0000
Subject: [PATCH 072/221] fix: BogusTerminableThread.join failed without a
 timeout

---
 satella/coding/concurrent/thread.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/satella/coding/concurrent/thread.py b/satella/coding/concurrent/thread.py
index 3adb41c..687f51e 100644
--- a/satella/coding/concurrent/thread.py
+++ b/satella/coding/concurrent/thread.py
@@ -220,7 +220,8 @@ class BogusTerminableThread:
 
         if not self.terminated:
             started_elapsing = time.monotonic()
-            while time.monotonic() - started_elapsing < timeout and not self.terminated:
+            while not self.terminated and \
+                    (timeout is None or time.monotonic() - started_elapsing < timeout):
                 time.sleep(1)
             if not self.terminated:
                 raise WouldWaitMore('thread failed to terminate')
-- 
2.43.0


From 4e0d8db3de36b126962bf3d7389ddd11e4c7a430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:57:57 +0000
Subject: [PATCH 073/221] fix: arguments given to a single locking of a
 LockedDataset applied to all the next ones, in every thread

---
 satella/coding/concurrent/locked_dataset.py | 35 +++++++++++++++------
 1 file changed, 25 insertions(+), 10 deletions(-)

diff --git a/satella/coding/concurrent/locked_dataset.py b/satella/coding/concurrent/locked_dataset.py
index 32c92be..32c39a0 100644
--- a/satella/coding/concurrent/locked_dataset.py
+++ b/satella/coding/concurrent/locked_dataset.py
@@ -36,12 +36,11 @@ class LockedDataset:
     """
 
     class InternalDataset:
-        __slots__ = ('lock', 'locked', 'args')
+        __slots__ = ('lock', 'locked')
 
         def __init__(self):
             self.lock = threading.Lock()
             self.locked = False
-            self.args = ()
 
     def __init__(self):
         self.__internal = LockedDataset.InternalDataset()  # type: LockedDataset.InternalDataset
@@ -81,16 +80,10 @@ class LockedDataset:
         return super(LockedDataset, self).__setattr__(key, value)
 
     def __call__(self, blocking: bool = True, timeout: float = -1):
-        _get_internal(self).args = blocking, timeout
-        return self
+        return _LockWithArguments(self, blocking, timeout)
 
     def __enter__(self):
-        args = _get_internal(self).args
-
-        if not _get_internal(self).lock.acquire(*args):
-            raise WouldWaitMore('Resource is still locked')
-        _get_internal(self).locked = True
-        return self
+        return _lock(self)
 
     def __exit__(self, exc_type, exc_val, exc_tb):
         _get_internal(self).locked = False
@@ -98,5 +91,27 @@ class LockedDataset:
         return False
 
 
+class _LockWithArguments:
+    """Arguments to lock a dataset with, which apply to a single locking"""
+    __slots__ = 'dataset', 'args'
+
+    def __init__(self, dataset: LockedDataset, *args):
+        self.dataset = dataset
+        self.args = args
+
+    def __enter__(self) -> LockedDataset:
+        return _lock(self.dataset, *self.args)
+
+    def __exit__(self, exc_type, exc_val, exc_tb):
+        return self.dataset.__exit__(exc_type, exc_val, exc_tb)
+
+
+def _lock(self, *args):
+    if not _get_internal(self).lock.acquire(*args):
+        raise WouldWaitMore('Resource is still locked')
+    _get_internal(self).locked = True
+    return self
+
+
 def _get_internal(self):
     return super(LockedDataset, self).__getattribute__('_LockedDataset__internal')
-- 
2.43.0


From f402b84316c2c969cdf92499b31b28d1fdaafc7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:57:58 +0000
Subject: [PATCH 074/221] fix: a method decorated with @LockedDataset.locked,
 as documented, was never executed

---
 satella/coding/concurrent/locked_dataset.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/satella/coding/concurrent/locked_dataset.py b/satella/coding/concurrent/locked_dataset.py
index 32c39a0..458d431 100644
--- a/satella/coding/concurrent/locked_dataset.py
+++ b/satella/coding/concurrent/locked_dataset.py
@@ -53,6 +53,9 @@ class LockedDataset:
         :param timeout: optional timeout. Default, or -1 means "return ASAP"
         """
 
+        if callable(blocking):      # used as @LockedDataset.locked
+            return LockedDataset.locked()(blocking)
+
         def inner(f):
             @wraps(f)
             def in_ner(self, *args, **kwargs):
-- 
2.43.0


From c60751832258094e1f76b356955520ac285c53fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:00:38 +0000
Subject: [PATCH 075/221] fix: ExclusiveWritebackCache.sync ignored its timeout
 while jobs were queued

---
 .../structures/dictionaries/writeback_cache.py    | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/satella/coding/structures/dictionaries/writeback_cache.py b/satella/coding/structures/dictionaries/writeback_cache.py
index fe1ab2b..b559f3d 100644
--- a/satella/coding/structures/dictionaries/writeback_cache.py
+++ b/satella/coding/structures/dictionaries/writeback_cache.py
@@ -6,6 +6,8 @@ from satella.coding.concurrent.monitor import Monitor
 from satella.coding.concurrent.sync import sync_threadpool
 from satella.coding.recast_exceptions import silence_excs
 from satella.coding.typing import V, K
+from satella.exceptions import WouldWaitMore
+from satella.time.measure import measure
 
 
 class ExclusiveWritebackCache(tp.Generic[K, V]):
@@ -70,13 +72,14 @@ class ExclusiveWritebackCache(tp.Generic[K, V]):
         :param timeout: timeout to wait. None means wait indefinitely.
         :raises WouldWaitMore: if timeout has expired
         """
-        while self.get_queue_length() > 0:
-            time.sleep(0.1)
+        with measure(timeout=timeout) as measurement:
+            while self.get_queue_length() > 0:
+                if timeout is not None and measurement.timeouted:
+                    raise WouldWaitMore('timeout exceeded')
+                time.sleep(0.1)
 
-        def fix():
-            return
-
-        sync_threadpool(self.executor, max_wait=timeout)
+            sync_threadpool(self.executor, max_wait=None if timeout is None else
+                            max(0, measurement.time_remaining))
 
     def _operate(self):
         self.operations += 1
-- 
2.43.0


From 0781877db9f9c5f7e424f6658777c99003c718a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:14:18 +0000
Subject: [PATCH 076/221] fix: a Future presented its result to other threads
 before its pre-done callbacks were done changing it

---
 satella/coding/concurrent/futures/futures.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/satella/coding/concurrent/futures/futures.py b/satella/coding/concurrent/futures/futures.py
index 1692d6c..4ae6917 100644
--- a/satella/coding/concurrent/futures/futures.py
+++ b/satella/coding/concurrent/futures/futures.py
@@ -119,14 +119,19 @@ class Future(PythonFuture, tp.Generic[T]):
             except Exception:
                 LOGGER.exception('exception calling callback for %r', self)
 
+    def _is_in_pre_done_callback(self) -> bool:
+        # callbacks are called with the condition held, and other threads should neither see nor
+        # alter the result until these are through
+        return self._state == PRE_FINISHED and self._condition._is_owned()
+
     def result(self, timeout=None) -> T:
-        if self._state == PRE_FINISHED:
+        if self._is_in_pre_done_callback():
             return self.__get_result()
         else:
             return super().result(timeout)
 
     def exception(self, timeout=None) -> tp.Type[Exception]:
-        if self._state == PRE_FINISHED:
+        if self._is_in_pre_done_callback():
             return self._exception
         else:
             return super().exception(timeout)
@@ -136,7 +141,7 @@ class Future(PythonFuture, tp.Generic[T]):
 
         Should only be used by Executor implementations and unit tests.
         """
-        if self._state == PRE_FINISHED:
+        if self._is_in_pre_done_callback():
             self._result = result
             self._exception = None
         else:
@@ -157,7 +162,7 @@ class Future(PythonFuture, tp.Generic[T]):
 
         Should only be used by Executor implementations and unit tests.
         """
-        if self._state == PRE_FINISHED:
+        if self._is_in_pre_done_callback():
             self._exception = exception
             self._result = None
         else:
-- 
2.43.0


From 2578accc901826943d41128c5a9559ac0ad9a56e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:14:18 +0000
Subject: [PATCH 077/221] fix: a WrappingFuture never completed if its source
 future did so during the constructor

---
 satella/coding/concurrent/futures/futures.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/satella/coding/concurrent/futures/futures.py b/satella/coding/concurrent/futures/futures.py
index 4ae6917..7b9ecba 100644
--- a/satella/coding/concurrent/futures/futures.py
+++ b/satella/coding/concurrent/futures/futures.py
@@ -192,7 +192,6 @@ class WrappingFuture(Future):
         super().__init__()
         self.source_future = source_future
         self.source_future.add_done_callback(self._on_future_completed)
-        self._old_state = source_future._state
 
     @property
     def _state(self):
-- 
2.43.0


From 4ceab4807cded14abf9eaaf67a3d067859a7489e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:14:18 +0000
Subject: [PATCH 078/221] fix: concurrent.futures.wait hanged on a cancelled
 WrappingFuture

---
 satella/coding/concurrent/futures/futures.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/satella/coding/concurrent/futures/futures.py b/satella/coding/concurrent/futures/futures.py
index 7b9ecba..b48abe7 100644
--- a/satella/coding/concurrent/futures/futures.py
+++ b/satella/coding/concurrent/futures/futures.py
@@ -195,7 +195,7 @@ class WrappingFuture(Future):
 
     @property
     def _state(self):
-        if self.source_future._state == FINISHED:
+        if self.source_future._state in (CANCELLED, CANCELLED_AND_NOTIFIED, FINISHED):
             return self._old_state
         else:
             return self.source_future._state
@@ -210,6 +210,9 @@ class WrappingFuture(Future):
     def _on_future_completed(self, future: PythonFuture):
         if future.cancelled():
             with self._condition:
+                self._state = CANCELLED_AND_NOTIFIED
+                for waiter in self._waiters:
+                    waiter.add_cancelled(self)
                 self._condition.notify_all()
             self._invoke_callbacks()
         elif future._exception is not None:
-- 
2.43.0


From 0e3874f8dc62a5245bce5dc86d928c7017338e67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:14:18 +0000
Subject: [PATCH 079/221] fix: futures of functions ran in separate threads
 never completed if the function raised SystemExit

---
 satella/coding/concurrent/functions.py | 2 +-
 satella/coding/concurrent/thread.py    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/satella/coding/concurrent/functions.py b/satella/coding/concurrent/functions.py
index cb72b14..d7d7ec9 100644
--- a/satella/coding/concurrent/functions.py
+++ b/satella/coding/concurrent/functions.py
@@ -32,7 +32,7 @@ def run_as_future(fun):
         def separate_target():
             try:
                 fut.set_result(fun(*args, **kwargs))
-            except Exception as e:
+            except BaseException as e:
                 fut.set_exception(e)
 
         Thread(target=separate_target).start()
diff --git a/satella/coding/concurrent/thread.py b/satella/coding/concurrent/thread.py
index 687f51e..ad1a27b 100644
--- a/satella/coding/concurrent/thread.py
+++ b/satella/coding/concurrent/thread.py
@@ -59,7 +59,7 @@ def call_in_separate_thread(*t_args, no_thread_attribute: bool = False,
                     try:
                         res = fun(*args, **kwargs)
                         self.future.set_result(res)
-                    except Exception as e:
+                    except BaseException as e:
                         self.future.set_exception(e)
 
             t = MyThread()
-- 
2.43.0


From 376030384476cdceaf29d5ca171a1bb52a1a5e75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:37:09 +0000
Subject: [PATCH 080/221] fix: a WrappingFuture could claim to be finished
 before it had a result

---
 satella/coding/concurrent/futures/futures.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/satella/coding/concurrent/futures/futures.py b/satella/coding/concurrent/futures/futures.py
index b48abe7..305058d 100644
--- a/satella/coding/concurrent/futures/futures.py
+++ b/satella/coding/concurrent/futures/futures.py
@@ -195,10 +195,11 @@ class WrappingFuture(Future):
 
     @property
     def _state(self):
-        if self.source_future._state in (CANCELLED, CANCELLED_AND_NOTIFIED, FINISHED):
+        state = self.source_future._state   # read once, as it might change in the meantime
+        if state in (CANCELLED, CANCELLED_AND_NOTIFIED, FINISHED):
             return self._old_state
         else:
-            return self.source_future._state
+            return state
 
     @_state.setter
     def _state(self, v: str):
-- 
2.43.0


From 94290cdf02be1dfbaaf4042b8925d4b6f2279f4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:56:20 +0000
Subject: [PATCH 081/221] fix: rethrow_as and silence_excs lost the value of a
 function that called itself and failed inside

---
 satella/coding/recast_exceptions.py | 24 +++++++-----------------
 1 file changed, 7 insertions(+), 17 deletions(-)

diff --git a/satella/coding/recast_exceptions.py b/satella/coding/recast_exceptions.py
index 7605a87..32b984f 100644
--- a/satella/coding/recast_exceptions.py
+++ b/satella/coding/recast_exceptions.py
@@ -1,6 +1,5 @@
 import inspect
 import logging
-import threading
 import typing as tp
 import warnings
 
@@ -233,7 +232,7 @@ class rethrow_as:
         is used as as decorator
     :raises ValueError: you specify both returns and returns_factory
     """
-    __slots__ = 'mapping', 'exception_preprocessor', 'returns', '__exception_remapped', 'returns_factory'
+    __slots__ = 'mapping', 'exception_preprocessor', 'returns', 'returns_factory'
 
     def __init__(self, *pairs: ExceptionList,
                  exception_preprocessor: tp.Optional[tp.Callable[[Exception], str]] = repr,
@@ -259,35 +258,26 @@ class rethrow_as:
         if self.returns is not None and self.returns_factory is not None:
             raise ValueError('You can specify only one of (returns, returns_factory)')
 
-        # this is threading.local because two threads may execute the same function at the
-        # same time, and exceptions from one function would leak to another
-        self.__exception_remapped = threading.local()
-
     def __call__(self, fun: tp.Callable) -> tp.Callable:
         @wraps(fun)
         def inner(*args, **kwargs):
             with self:
-                v = fun(*args, **kwargs)
-            if self.__exception_remapped.was_raised:
-                # This means that the normal flow of execution was interrupted
-                if self.returns is not None:
-                    return self.returns
-                elif self.returns_factory is not None:
-                    return self.returns_factory()
-                return
-            return v
+                return fun(*args, **kwargs)
+            # This means that the normal flow of execution was interrupted
+            if self.returns is not None:
+                return self.returns
+            elif self.returns_factory is not None:
+                return self.returns_factory()
 
         return inner
 
     def __enter__(self):
-        self.__exception_remapped.was_raised = False
         return self
 
     def __exit__(self, exc_type, exc_val, exc_tb):
         if exc_type is not None:
             for from_, to in self.mapping:
                 if issubclass(exc_type, from_):
-                    self.__exception_remapped.was_raised = True
                     if to is None:
                         return True
                     raise to(self.exception_preprocessor(exc_val))
-- 
2.43.0


From e5d1197b802c4c9f3955343c6b0deb1fcd687b54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:06:38 +0000
Subject: [PATCH 082/221] fix: log_exceptions failed upon fields with a
 conversion, an index or a format specification

---
 satella/coding/recast_exceptions.py | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/satella/coding/recast_exceptions.py b/satella/coding/recast_exceptions.py
index 32b984f..fb5972c 100644
--- a/satella/coding/recast_exceptions.py
+++ b/satella/coding/recast_exceptions.py
@@ -86,15 +86,9 @@ class log_exceptions:
         """Return whether the exception has been logged"""
         if not isinstance(e, self.exc_types):
             return False
-        format_dict = {}
-        if '{args}' in self.format_string:
-            format_dict['args'] = args
-        if '{kwargs}' in self.format_string:
-            format_dict['kwargs'] = kwargs
+        format_dict = {'args': args, 'kwargs': kwargs}
         if self.locals is not None:
-            for key, value in self.locals.items():
-                if '{%s}' % (key,) in self.format_string:
-                    format_dict[key] = value
+            format_dict.update(self.locals)
         format_dict['e'] = e
         self.logger.log(self.severity, self.format_string.format(**format_dict),
                         exc_info=e)
-- 
2.43.0


From 30a74b7d49634760d027d604f00090aeb862a31b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:06:38 +0000
Subject: [PATCH 083/221] fix: log_exceptions dropped the value returned by a
 generator

---
 satella/coding/recast_exceptions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/satella/coding/recast_exceptions.py b/satella/coding/recast_exceptions.py
index fb5972c..3d3145d 100644
--- a/satella/coding/recast_exceptions.py
+++ b/satella/coding/recast_exceptions.py
@@ -100,7 +100,7 @@ class log_exceptions:
             def inner(*args, **kwargs):
                 # noinspection PyBroadException
                 try:
-                    yield from fun(*args, **kwargs)
+                    return (yield from fun(*args, **kwargs))
                 except Exception as e:      # pylint: disable=broad-except
                     if not self.analyze_exception(e, args, kwargs) or not self.swallow_exception:
                         raise
-- 
2.43.0


From 1da903e34cda8d71f175abb41e1a011419a9967e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:06:38 +0000
Subject: [PATCH 084/221] fix: log_exceptions and reraise_as used as decorators
 ignored BaseExceptions they were told to handle

---
 satella/coding/recast_exceptions.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/satella/coding/recast_exceptions.py b/satella/coding/recast_exceptions.py
index 3d3145d..d4f5a93 100644
--- a/satella/coding/recast_exceptions.py
+++ b/satella/coding/recast_exceptions.py
@@ -101,7 +101,7 @@ class log_exceptions:
                 # noinspection PyBroadException
                 try:
                     return (yield from fun(*args, **kwargs))
-                except Exception as e:      # pylint: disable=broad-except
+                except BaseException as e:      # pylint: disable=broad-except
                     if not self.analyze_exception(e, args, kwargs) or not self.swallow_exception:
                         raise
 
@@ -112,7 +112,7 @@ class log_exceptions:
                 # noinspection PyBroadException
                 try:
                     return fun(*args, **kwargs)
-                except Exception as e:      # pylint: disable=broad-except
+                except BaseException as e:      # pylint: disable=broad-except
                     if not self.analyze_exception(e, args, kwargs) or not self.swallow_exception:
                         raise
 
@@ -165,7 +165,7 @@ class reraise_as:
         def inner(*args, **kwargs):
             try:
                 return fun(*args, **kwargs)
-            except Exception as e:          # pylint: disable=broad-except
+            except BaseException as e:          # pylint: disable=broad-except
                 if isinstance(e, self.source):
                     if self.target_exc is not None:
                         raise self.target_exc(*self.args, **self.kwargs) from e
-- 
2.43.0


From 00f1d55096fbd22e5f9f0d56b37b38d1bb903f44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:06:38 +0000
Subject: [PATCH 085/221] fix: str() of a CustomException with keyword
 arguments failed

---
 satella/exceptions.py | 30 ++++++++++--------------------
 1 file changed, 10 insertions(+), 20 deletions(-)

diff --git a/satella/exceptions.py b/satella/exceptions.py
index 9ac1a0e..261f9a5 100644
--- a/satella/exceptions.py
+++ b/satella/exceptions.py
@@ -26,28 +26,18 @@ class CustomException(Exception):
         self.kwargs = kwargs
 
     def __str__(self) -> str:
-        a = '%s(%s' % (self.__class__.__qualname__.split('.')[-1], ', '.join(map(repr, self.args)))
-        try:
-            if self.kwargs:
-                a += ', ' + ', '.join(map(lambda k, v: '%s=%s' % (k, repr(v)), self.kwargs.items()))
-        except AttributeError:
-            pass
-        a += ')'
-        return a
+        return '%s(%s)' % (self.__class__.__qualname__.split('.')[-1], self.__arguments())
 
     def __repr__(self) -> str:
-        a = '%s%s(%s' % ((self.__class__.__module__ + '.')
-                         if self.__class__.__module__ != 'builtins' else '',
-                         self.__class__.__qualname__,
-                         ', '.join(map(repr, self.args)))
-        try:
-            if self.kwargs:
-                a += ', ' + (', '.join(map(lambda kv: '%s=%s' % (kv[0], repr(kv[1])),
-                                           self.kwargs.items())))
-        except AttributeError:
-            pass
-        a += ')'
-        return a
+        return '%s%s(%s)' % ((self.__class__.__module__ + '.')
+                             if self.__class__.__module__ != 'builtins' else '',
+                             self.__class__.__qualname__, self.__arguments())
+
+    def __arguments(self) -> str:
+        # kwargs are missing if the inheriting class did not call the constructor
+        arguments = [repr(arg) for arg in self.args]
+        arguments.extend('%s=%r' % item for item in getattr(self, 'kwargs', {}).items())
+        return ', '.join(arguments)
 
 
 def get_base_of_bases(classes):
-- 
2.43.0


From 5c835057022c88d0479cc923566a154eb238726c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:10:04 +0000
Subject: [PATCH 086/221] fix: transform_result and transform_arguments passed
 names of keyword arguments instead of the arguments

---
 satella/coding/decorators/arguments.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/satella/coding/decorators/arguments.py b/satella/coding/decorators/arguments.py
index 32fed98..2f47c30 100644
--- a/satella/coding/decorators/arguments.py
+++ b/satella/coding/decorators/arguments.py
@@ -35,7 +35,7 @@ def transform_result(expr: str):
         @wraps(fun)
         def inner(*args, **kwargs):
             a = fun(*args, **kwargs)
-            local = get_arguments(fun, *args, *kwargs)
+            local = get_arguments(fun, *args, **kwargs)
             local['x'] = a
             return eval(expr, globals(), local)
 
@@ -62,7 +62,7 @@ def transform_arguments(**expressions: str):
     def outer(fun):
         @wraps(fun)
         def inner(*args, **kwargs):
-            old_args = get_arguments(fun, *args, *kwargs)
+            old_args = get_arguments(fun, *args, **kwargs)
             new_args = {}
             for arg, arg_value in expressions.items():
                 new_args[arg] = eval(arg_value, globals(), old_args)
-- 
2.43.0


From 80b5ca853b60f70d7fcb317c7398d0bda2b7b215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:10:04 +0000
Subject: [PATCH 087/221] fix: replace_argument_if did not consult its
 predicate

---
 satella/coding/decorators/arguments.py | 5 +++--
 satella/coding/predicates.py           | 1 +
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/satella/coding/decorators/arguments.py b/satella/coding/decorators/arguments.py
index 2f47c30..4e520c8 100644
--- a/satella/coding/decorators/arguments.py
+++ b/satella/coding/decorators/arguments.py
@@ -153,8 +153,9 @@ def replace_argument_if(arg_name: str,
             if arg_name in args_dict:
                 v = args_dict[arg_name]
                 if predicate is not None:
-                    args_dict[arg_name] = build_structure(structure, v)
-                    altered = True
+                    if predicate(v):
+                        args_dict[arg_name] = build_structure(structure, v)
+                        altered = True
                 elif isinstance(v, instance_of):
                     args_dict[arg_name] = build_structure(structure, v)
                     altered = True
diff --git a/satella/coding/predicates.py b/satella/coding/predicates.py
index 46b2387..ce4bf01 100644
--- a/satella/coding/predicates.py
+++ b/satella/coding/predicates.py
@@ -187,6 +187,7 @@ class PredicateClass:
                                          'is an instance of instance')
 
     length = make_operation_single_arg(len, 'Return a predicate returning length of it''s argument')
+    len = length
 
     __contains__ = make_operation_two_args(operator.contains)
     __getattr__ = make_operation_two_args(getattr)
-- 
2.43.0


From 1d4c428678b778fb94d9234283891e228716fa8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:10:04 +0000
Subject: [PATCH 088/221] fix: call_with_arguments shifted positional arguments
 if one having a default was not given

---
 satella/coding/misc.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/satella/coding/misc.py b/satella/coding/misc.py
index 1152e5e..bd560e5 100644
--- a/satella/coding/misc.py
+++ b/satella/coding/misc.py
@@ -363,8 +363,10 @@ def call_with_arguments(function: tp.Callable, arguments: tp.Dict[str, tp.Any])
         if param_name not in arguments:
             if param_kind in (Parameter.VAR_KEYWORD, Parameter.VAR_POSITIONAL):
                 continue
-            elif param.default == Parameter.empty:
+            elif param.default is Parameter.empty:
                 raise TypeError('Argument %s not found' % (param_name,))
+            if param_kind != Parameter.KEYWORD_ONLY:
+                args.append(param.default)      # lest next arguments take it's place
             continue
 
         if param_kind == Parameter.POSITIONAL_ONLY or param_kind == Parameter.POSITIONAL_OR_KEYWORD:
-- 
2.43.0


From 62fa9c64523960f4c64bfe7cc37ae085af4010c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:10:04 +0000
Subject: [PATCH 089/221] fix: get_arguments failed upon unused *args, and
 accepted arguments that the function does not

---
 satella/coding/misc.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/satella/coding/misc.py b/satella/coding/misc.py
index bd560e5..cd86054 100644
--- a/satella/coding/misc.py
+++ b/satella/coding/misc.py
@@ -269,7 +269,9 @@ def get_arguments(function: tp.Callable, *args, **kwargs) -> tp.Dict[str, tp.Any
         appear in function if called with provided arguments
     :raise TypeError: the dictionary cannot be created with provided arguments
     """
-    return _get_arguments(function, False, *args, **kwargs)
+    bound = signature(function).bind(*args, **kwargs)
+    bound.apply_defaults()
+    return dict(bound.arguments)
 
 
 # pylint: disable=too-many-locals
-- 
2.43.0


From ee9f8f3e0d65dd64b7984b6dda1298b0b4fadbba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:10:04 +0000
Subject: [PATCH 090/221] fix: chain_functions took any pair for positional and
 keyword arguments

---
 satella/coding/decorators/decorators.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/satella/coding/decorators/decorators.py b/satella/coding/decorators/decorators.py
index a896e9a..2d9b148 100644
--- a/satella/coding/decorators/decorators.py
+++ b/satella/coding/decorators/decorators.py
@@ -55,7 +55,8 @@ def chain_functions(fun_first: tp.Callable[..., tp.Union[tp.Tuple[tp.Tuple, tp.D
             if isinstance(ret, dict):
                 args = ()
                 kwargs = ret
-            elif isinstance(ret, tuple) and len(ret) == 2:
+            elif isinstance(ret, tuple) and len(ret) == 2 and isinstance(ret[0], tuple) \
+                    and isinstance(ret[1], dict):
                 args, kwargs = ret
             elif isinstance(ret, tuple):
                 args = ret
-- 
2.43.0


From 664fa7061408bff975b598a1266c85bae3cbde1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:10:04 +0000
Subject: [PATCH 091/221] fix: retry called call_between_retries also after the
 last attempt, and retried failures of call_on_success

---
 satella/coding/decorators/retry_dec.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/satella/coding/decorators/retry_dec.py b/satella/coding/decorators/retry_dec.py
index 5a7de68..2c2db84 100644
--- a/satella/coding/decorators/retry_dec.py
+++ b/satella/coding/decorators/retry_dec.py
@@ -62,16 +62,16 @@ def retry(times: tp.Optional[int] = None,
             else:
                 iterator = range(times)
             for i in iterator:
+                if i and call_between_retries is not None:
+                    call_between_retries(f)
                 try:
                     y = fun(*args, **kwargs)
-                    if call_on_success is not None:
-                        call_on_success(i)
-                    return y
                 except exc_classes as e:
                     f = e
-                    if call_between_retries is not None:
-                        call_between_retries(e)
                     continue
+                if call_on_success is not None:
+                    call_on_success(i)
+                return y
             else:
                 on_failure(f)
                 if call_on_failure is not None:
-- 
2.43.0


From 5ee59f282818ec3598d2dfa395102701ff905d00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:10:04 +0000
Subject: [PATCH 092/221] fix: queue_get took an exception raised by the
 decorated method for an empty queue

---
 satella/coding/decorators/flow_control.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/satella/coding/decorators/flow_control.py b/satella/coding/decorators/flow_control.py
index 5ad83c6..40a0f29 100644
--- a/satella/coding/decorators/flow_control.py
+++ b/satella/coding/decorators/flow_control.py
@@ -84,7 +84,6 @@ def queue_get(queue_getter: tp.Union[str, tp.Callable[[object], Queue]],
             try:
                 que = my_queue_getter(self)
                 item = queue_get_method(que, timeout)
-                return fun(self, item)
             except exception_empty:
                 if method_to_execute_on_empty is not None:
                     if callable(method_to_execute_on_empty):
@@ -92,6 +91,8 @@ def queue_get(queue_getter: tp.Union[str, tp.Callable[[object], Queue]],
                     elif isinstance(method_to_execute_on_empty, str):
                         method = getattr(self, method_to_execute_on_empty)
                         method()
+            else:
+                return fun(self, item)
 
         return inner
 
-- 
2.43.0


From a704f5f96045dc6b91b3296201411e7c868d4db2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:10:04 +0000
Subject: [PATCH 093/221] fix: loop_while without a predicate failed upon
 methods

---
 satella/coding/decorators/flow_control.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/satella/coding/decorators/flow_control.py b/satella/coding/decorators/flow_control.py
index 40a0f29..28e3959 100644
--- a/satella/coding/decorators/flow_control.py
+++ b/satella/coding/decorators/flow_control.py
@@ -99,7 +99,7 @@ def queue_get(queue_getter: tp.Union[str, tp.Callable[[object], Queue]],
     return outer
 
 
-def loop_while(pred: tp.Union[Predicate, NoArgCallable[bool]] = lambda: True):
+def loop_while(pred: tp.Union[Predicate, NoArgCallable[bool]] = lambda *args: True):
     """
     Decorator to loop the following function while predicate called on it's first argument is True.
 
-- 
2.43.0


From 7dfccd3482ed9e770553768ff2983071bd0da69c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:12:50 +0000
Subject: [PATCH 094/221] fix: memoize executed the function many times if
 called by many threads at once

---
 satella/coding/decorators/decorators.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/satella/coding/decorators/decorators.py b/satella/coding/decorators/decorators.py
index 2d9b148..d11996a 100644
--- a/satella/coding/decorators/decorators.py
+++ b/satella/coding/decorators/decorators.py
@@ -1,4 +1,5 @@
 import inspect
+import threading
 import time
 import typing as tp
 import warnings
@@ -207,17 +208,24 @@ def memoize(fun):
     from satella.coding.concurrent.monitor import MonitorDict, Monitor
 
     fun.memoizer = MonitorDict()
+    locks = {}  # a lock per arguments being computed, so that memoized functions can call each other
 
     @wraps(fun)
     def inner(*args, **kwargs):
         with Monitor.acquire(fun.memoizer):
             if args in fun.memoizer:
                 return fun.memoizer[args]
-            else:
-                with Monitor.release(fun.memoizer):
-                    v = fun(*args, **kwargs)
+            lock = locks.setdefault(args, threading.RLock())
+
+        with lock:
+            with Monitor.acquire(fun.memoizer):
+                if args in fun.memoizer:    # computed by other thread in the meantime
+                    return fun.memoizer[args]
+            v = fun(*args, **kwargs)
+            with Monitor.acquire(fun.memoizer):
                 fun.memoizer[args] = v
-                return v
+                locks.pop(args, None)
+            return v
 
     return inner
 
-- 
2.43.0


From 0791db1bd777689e0a42a2d4ba4875946f8e6f2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:12:50 +0000
Subject: [PATCH 095/221] fix: cache_memoize returned values computed for other
 keyword arguments

---
 satella/coding/decorators/decorators.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/satella/coding/decorators/decorators.py b/satella/coding/decorators/decorators.py
index d11996a..64c9f16 100644
--- a/satella/coding/decorators/decorators.py
+++ b/satella/coding/decorators/decorators.py
@@ -167,22 +167,23 @@ def cache_memoize(cache_duration: float, time_getter: tp.Callable[[], float] = t
         def inner(*args, **kwargs):
 
             now = time_getter()
+            key = (args, frozenset(kwargs.items())) if kwargs else args
 
             with Monitor.acquire(fun.memoize_timestamps):
-                if args in fun.memoize_timestamps:
-                    ts = fun.memoize_timestamps[args]
+                if key in fun.memoize_timestamps:
+                    ts = fun.memoize_timestamps[key]
                     if now - ts > cache_duration:
                         with Monitor.release(fun.memoize_timestamps):
                             v = fun(*args, **kwargs)
-                        fun.memoize_timestamps[args] = now
-                        fun.memoize_values[args] = v
+                        fun.memoize_timestamps[key] = now
+                        fun.memoize_values[key] = v
                 else:
                     with Monitor.release(fun.memoize_timestamps):
                         v = fun(*args, **kwargs)
-                    fun.memoize_timestamps[args] = now
-                    fun.memoize_values[args] = v
+                    fun.memoize_timestamps[key] = now
+                    fun.memoize_values[key] = v
 
-                return fun.memoize_values[args]
+                return fun.memoize_values[key]
 
         return inner
 
-- 
2.43.0


From 1980df54d7b205aa1659dbcff5c41d0313fd77dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:12:50 +0000
Subject: [PATCH 096/221] fix: leaving a nested Context forgot all the other
 ones of this thread

---
 satella/coding/environment.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/satella/coding/environment.py b/satella/coding/environment.py
index 17e2dd9..066df56 100644
--- a/satella/coding/environment.py
+++ b/satella/coding/environment.py
@@ -87,13 +87,12 @@ class Context:
             return self.parent.does_exist(val)
 
     def __exit__(self, exc_type, exc_val, exc_tb) -> bool:
-        if self.parent is None:
-            try:
-                del local.thread_context
-            except AttributeError:
-                pass
+        # it is not self that was entered, but a layer created then
+        parent = local.thread_context.parent
+        if parent is None:
+            del local.thread_context
         else:
-            local.thread_context = self.parent
+            local.thread_context = parent
         return False
 
     @staticmethod
-- 
2.43.0


From 212aacc57f146b55837453b174c680570e94c987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:12:50 +0000
Subject: [PATCH 097/221] fix: overload did not choose the most specific
 function, and failed if these differed by the number of arguments

---
 satella/coding/overloading.py | 41 +++++++++++++++++++----------------
 1 file changed, 22 insertions(+), 19 deletions(-)

diff --git a/satella/coding/overloading.py b/satella/coding/overloading.py
index fb8fdbe..bf2aacb 100644
--- a/satella/coding/overloading.py
+++ b/satella/coding/overloading.py
@@ -66,16 +66,14 @@ class TypeSignature(inspect.Signature):
 
     def is_more_generic_than(self, b: TypeSignature) -> bool:
         """Is this type signature more generic than an other?"""
-        if self == {}:
-            for key in self:
-                key1 = self[key]
-                key2 = b.get(key, None)
-                if key2 is None:
-                    return key2 == {}
-
-                if key2.is_more_generic_than(key1):
-                    return False
-        return True
+        mine, other = self._annotations(), b._annotations()
+        return len(mine) == len(other) and mine != other and \
+            all(issubclass(t2, t1) for t1, t2 in zip(mine, other))
+
+    def _annotations(self) -> tp.List[type]:
+        """Return types of subsequent arguments"""
+        return [object if param.annotation is inspect.Parameter.empty else param.annotation
+                for param in self._parameters.values()]
 
     def __lt__(self, other: TypeSignature) -> bool:
         return self.is_more_generic_than(other)
@@ -84,10 +82,15 @@ class TypeSignature(inspect.Signature):
         """
         Does this invocation match this signature?
         """
-        bound_args = self.bind(*args, **kwargs)
-        bound_args.apply_defaults()
+        try:
+            bound_args = self.bind(*args, **kwargs)
+        except TypeError:
+            return False
         for param_name, param_value in bound_args.arguments.items():
-            if not isinstance(param_value, self._parameters[param_name].annotation):
+            annotation = self._parameters[param_name].annotation
+            if annotation is inspect.Parameter.empty:
+                continue
+            if not isinstance(param_value, annotation):
                 return False
         return True
 
@@ -147,12 +150,12 @@ class overload:
 
         :raises TypeError: no type signature given
         """
-        matching = []
+        best_sign, best_fun = None, None
         for sign, fun in self.type_signatures_to_functions.items():
             if sign.matches(*args, **kwargs):
-                matching.append((sign, fun))
-        matching.sort()     # This sorting should result in most precise class at the end of the list
-        if not matching:
+                # call the most specific function you could find
+                if best_sign is None or best_sign.is_more_generic_than(sign):
+                    best_sign, best_fun = sign, fun
+        if best_sign is None:
             raise TypeError('No matching entries!')
-        else:
-            return matching[-1][1](*args, **kwargs)  # call the most specific function you could find
+        return best_fun(*args, **kwargs)
-- 
2.43.0


From 8694dcbf224889e408fb0c8348a02e0a89ed08c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:12:50 +0000
Subject: [PATCH 098/221] fix: assert_equal failed on, or accepted, containers
 compared with something else

---
 satella/coding/deep_compare.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/satella/coding/deep_compare.py b/satella/coding/deep_compare.py
index 397d2fc..c23b285 100644
--- a/satella/coding/deep_compare.py
+++ b/satella/coding/deep_compare.py
@@ -38,16 +38,22 @@ def assert_equal(a, b):
             raise Inequal(a, b, InequalityReason.NOT_EQUAL)
         return
     elif isinstance(a, (set, frozenset)):
+        if not isinstance(b, (set, frozenset)):
+            raise Inequal(a, b, InequalityReason.NOT_EQUAL)
         if len(a) != len(b):
             raise Inequal(a, b, InequalityReason.LENGTH_MISMATCH)
         if a != b:
-            raise Inequal(a, b, InequalityReason.LENGTH_MISMATCH)
+            raise Inequal(a, b, InequalityReason.NOT_EQUAL)
     elif isinstance(a, (list, tuple)):
+        if not isinstance(b, (list, tuple)):
+            raise Inequal(a, b, InequalityReason.NOT_EQUAL)
         if len(a) != len(b):
             raise Inequal(a, b, InequalityReason.LENGTH_MISMATCH)
         for c, d in zip(a, b):
             assert_equal(c, d)
     elif isinstance(a, dict):
+        if not isinstance(b, dict):
+            raise Inequal(a, b, InequalityReason.NOT_EQUAL)
         if len(a) != len(b):
             raise Inequal(a, b, InequalityReason.LENGTH_MISMATCH)
         for key in a.keys():
-- 
2.43.0


From 36ea90ae9a2ed89097d1bd2b7e17eb7ef7aa913e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:12:50 +0000
Subject: [PATCH 099/221] fix: merge_dicts made later merges alter the
 dictionaries merged previously

---
 satella/coding/algos.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/satella/coding/algos.py b/satella/coding/algos.py
index 1ceba6e..be73fbd 100644
--- a/satella/coding/algos.py
+++ b/satella/coding/algos.py
@@ -13,14 +13,23 @@ def merge_dicts(v1: tp.Any, v2: tp.Any) -> tp.Any:
     """
     if isinstance(v1, dict) and isinstance(v2, dict):
         for k in v2.keys():
-            try:
+            if k in v1:
                 v1[k] = merge_dicts(v1[k], v2[k])
-            except KeyError:
-                v1[k] = v2[k]
+            else:
+                v1[k] = _copy(v2[k])
         return v1
 
     if isinstance(v1, list) and isinstance(v2, list):
-        v1.extend(v2)
+        v1.extend(map(_copy, v2))
         return v1
 
-    return v2
+    return _copy(v2)
+
+
+def _copy(v):
+    """Copy dicts and lists, as these might be updated by a subsequent merge"""
+    if isinstance(v, dict):
+        return {key: _copy(value) for key, value in v.items()}
+    if isinstance(v, list):
+        return [_copy(value) for value in v]
+    return v
-- 
2.43.0


From 5bed3b7399e2a927e6f842c1e0a39b2d09d9212a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:12:50 +0000
Subject: [PATCH 100/221] fix: CopyDocsFrom copied documentation of a single
 method only

---
 satella/coding/metaclasses.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/satella/coding/metaclasses.py b/satella/coding/metaclasses.py
index 9e35cf5..585909b 100644
--- a/satella/coding/metaclasses.py
+++ b/satella/coding/metaclasses.py
@@ -46,7 +46,6 @@ def CopyDocsFrom(target_cls: tp.Type):
                     if getattr(target_cls, key).__doc__:
                         value.__doc__ = getattr(target_cls, key).__doc__
                         dictionary[key] = value
-                        break
 
         return type(name, bases, dictionary)
 
-- 
2.43.0


From 1d4368e3d22146f8ad2d07acc3202713e4629f7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:12:50 +0000
Subject: [PATCH 101/221] fix: invalidating a CPManager deadlocked if the last
 connection was acquired in the meantime

---
 satella/coding/resources/cp_manager.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/satella/coding/resources/cp_manager.py b/satella/coding/resources/cp_manager.py
index 91fa3f3..24a864f 100644
--- a/satella/coding/resources/cp_manager.py
+++ b/satella/coding/resources/cp_manager.py
@@ -60,8 +60,11 @@ class CPManager(Monitor, Closeable, tp.Generic[T], metaclass=abc.ABCMeta):
         """
         Close all connections. Connections have to be released first. Object is ready for use after this
         """
-        while self.connections.qsize() > 0:
-            conn = self.connections.get()
+        while True:
+            try:
+                conn = self.connections.get(False)
+            except queue.Empty:     # connections are taken without locking this
+                break
             self.teardown_connection(conn)
             del self.id_to_times[id(conn)]
 
-- 
2.43.0


From c9d6f92420fafbd89e33f1f92905019a173cb397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:12:50 +0000
Subject: [PATCH 102/221] fix: a connection released after its CPManager was
 closed was never torn down

---
 satella/coding/resources/cp_manager.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/satella/coding/resources/cp_manager.py b/satella/coding/resources/cp_manager.py
index 24a864f..f0d5932 100644
--- a/satella/coding/resources/cp_manager.py
+++ b/satella/coding/resources/cp_manager.py
@@ -100,13 +100,15 @@ class CPManager(Monitor, Closeable, tp.Generic[T], metaclass=abc.ABCMeta):
         :param connection: connection to release
         """
         obj_id = id(connection)
-        if self.id_to_times[obj_id] >= self.max_cycle_no:
+        with Monitor.acquire(self):
+            keep = not self.terminating and self.id_to_times[obj_id] < self.max_cycle_no
+            if keep:
+                try:
+                    self.connections.put(connection, False)
+                except queue.Full:
+                    keep = False
+        if not keep:
             self._kill_connection(connection)
-        else:
-            try:
-                self.connections.put(connection, False)
-            except queue.Full:
-                self._kill_connection(connection)
 
     def _kill_connection(self, connection):
         obj_id = id(connection)
-- 
2.43.0


From b42bc7afd665917c26d0eae4a36136ad911085aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:14:59 +0000
Subject: [PATCH 103/221] fix: build_structure dropped all the entries of a
 dictionary but the first, and failed on empty ones and strings

---
 satella/coding/predicates.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/satella/coding/predicates.py b/satella/coding/predicates.py
index ce4bf01..f7912b3 100644
--- a/satella/coding/predicates.py
+++ b/satella/coding/predicates.py
@@ -264,8 +264,9 @@ def build_structure(struct: tp.Union[tuple, list, dict],
                 key = build_structure(key, argument, None, True)
                 value = build_structure(value, argument, None, True)
                 new_dict[key] = value
-                f = new_dict
-                break
+            f = new_dict
+        elif isinstance(struct, (str, bytes, bytearray)):
+            f = struct
         elif isinstance(struct, tp.Sequence):
             new_seq = []
             for elem in struct:
-- 
2.43.0


From 6083cc682e07b8569fe0dac798e87a60e3d80ade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:17:39 +0000
Subject: [PATCH 104/221] fix: ~ in place of not, as documented for predicates,
 was always true

---
 satella/coding/predicates.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/satella/coding/predicates.py b/satella/coding/predicates.py
index f7912b3..11ef606 100644
--- a/satella/coding/predicates.py
+++ b/satella/coding/predicates.py
@@ -225,7 +225,8 @@ class PredicateClass:
     __rmod__ = make_operation_two_args(operator.mod, swap_order=True)
     __rpow__ = make_operation_two_args(operator.pow, swap_order=True)
     __neg__ = make_operation_single_arg(operator.neg)
-    __invert__ = make_operation_single_arg(operator.invert)
+    __invert__ = make_operation_single_arg(lambda y: not y if isinstance(y, bool) else ~y,
+                                           'Negate a boolean, or invert bits of anything else')
     __abs__ = make_operation_single_arg(abs)
 
     def __hash__(self) -> int:
-- 
2.43.0


From 42d9d70aa0d242a6d9a78e4a6eeecd970ffacc92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:23:03 +0000
Subject: [PATCH 105/221] fix: for_argument took every predicate for 'self' and
 ignored it

---
 satella/coding/decorators/arguments.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/satella/coding/decorators/arguments.py b/satella/coding/decorators/arguments.py
index 4e520c8..1dee4d0 100644
--- a/satella/coding/decorators/arguments.py
+++ b/satella/coding/decorators/arguments.py
@@ -315,9 +315,7 @@ def for_argument(*t_ops: ForArgumentArg, **t_kwops: ForArgumentArg):
     """
     new_t_ops = []
     for op in t_ops:
-        if op == 'self':
-            new_t_ops.append(_NOP)
-        elif op is None:
+        if op is None or (isinstance(op, str) and op == 'self'):    # predicates overload ==
             new_t_ops.append(_NOP)
         elif isinstance(op, str):
             new_t_ops.append(source_to_function(op))
-- 
2.43.0


From 3a877838acf28ad140d60279f2fb0663817f8edb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:32:26 +0000
Subject: [PATCH 106/221] fix: wrap_property made setters and deleters of
 properties which had none

---
 satella/coding/metaclasses.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/satella/coding/metaclasses.py b/satella/coding/metaclasses.py
index 585909b..ead78d6 100644
--- a/satella/coding/metaclasses.py
+++ b/satella/coding/metaclasses.py
@@ -176,7 +176,10 @@ def wrap_property(getter: tp.Callable[[GetterDefinition], GetterDefinition] = la
     """
 
     def inner(prop):
-        return wraps(prop)(property(getter(prop.fget), setter(prop.fset), deleter(prop.fdel)))
+        def wrap(wrapper, fun):
+            return None if fun is None else wrapper(fun)
+
+        return wraps(prop)(property(wrap(getter, prop.fget), wrap(setter, prop.fset), wrap(deleter, prop.fdel)))
 
     return inner
 
-- 
2.43.0


From 6f709f19fb544da9735e5fea794a9fa407f5de20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:32:26 +0000
Subject: [PATCH 107/221] fix: ordering comparisons of an empty Optional failed
 instead of being false

---
 satella/coding/optionals.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/satella/coding/optionals.py b/satella/coding/optionals.py
index ea754b5..d5dcae6 100644
--- a/satella/coding/optionals.py
+++ b/satella/coding/optionals.py
@@ -78,6 +78,22 @@ class Optional(Proxy[T]):
             return False
         return other == me
 
+    def __lt__(self, other) -> bool:
+        me = getattr(self, '_Proxy__obj')
+        return False if me is None else super().__lt__(other)
+
+    def __le__(self, other) -> bool:
+        me = getattr(self, '_Proxy__obj')
+        return False if me is None else super().__le__(other)
+
+    def __gt__(self, other) -> bool:
+        me = getattr(self, '_Proxy__obj')
+        return False if me is None else super().__gt__(other)
+
+    def __ge__(self, other) -> bool:
+        me = getattr(self, '_Proxy__obj')
+        return False if me is None else super().__ge__(other)
+
     def __getattr__(self, item):
         obj = getattr(self, '_Proxy__obj')
         return EMPTY_OPTIONAL if obj is None else getattr(obj, item)
-- 
2.43.0


From 720bbd0d284fcac3334496ac77731c32205e9373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:36 +0000
Subject: [PATCH 108/221] fix: Regexp descriptors failed with AttributeError
 instead of ConfigurationValidationError

---
 satella/configuration/schema/basic.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/satella/configuration/schema/basic.py b/satella/configuration/schema/basic.py
index f451d80..858194a 100644
--- a/satella/configuration/schema/basic.py
+++ b/satella/configuration/schema/basic.py
@@ -217,13 +217,13 @@ class Regexp(String):
 
         match = self.regexp.match(value)
         if not match:
-            raise ConfigurationValidationError('value does not match %s' % (self.REGEXP.pattern,),
+            raise ConfigurationValidationError('value does not match %s' % (self.regexp.pattern,),
                                                value)
 
         return match.group(0)
 
     def __str__(self):
-        return 'Regexp(%s)' % (self.REGEXP.pattern,)
+        return 'Regexp(%s)' % (self.regexp.pattern,)
 
 
 @register_custom_descriptor('ipv4')
-- 
2.43.0


From 959af65820c1db13227e3d0d7713eaf1ec040a6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:36 +0000
Subject: [PATCH 109/221] fix: IPv4 descriptor accepted invalid addresses and
 silently truncated these followed by something

---
 satella/configuration/schema/basic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/satella/configuration/schema/basic.py b/satella/configuration/schema/basic.py
index 858194a..387bee9 100644
--- a/satella/configuration/schema/basic.py
+++ b/satella/configuration/schema/basic.py
@@ -231,4 +231,4 @@ class IPv4(Regexp):
     """
     This must be a valid IPv4 address (no hostnames allowed)
     """
-    REGEXP = r'\d{1,3}\.\d{1,3}\.\d{1,3}\.\d{1,3}'
+    REGEXP = r'(?:(?:25[0-5]|2[0-4][0-9]|[01]?[0-9]?[0-9])\.){3}(?:25[0-5]|2[0-4][0-9]|[01]?[0-9]?[0-9])\Z'
-- 
2.43.0


From 876ab5d52605d6e256b6464872acefde2b323471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:36 +0000
Subject: [PATCH 110/221] fix: Integer descriptor failed with OverflowError
 upon infinity

---
 satella/configuration/schema/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/satella/configuration/schema/base.py b/satella/configuration/schema/base.py
index 3abb886..db851a6 100644
--- a/satella/configuration/schema/base.py
+++ b/satella/configuration/schema/base.py
@@ -48,7 +48,7 @@ class Descriptor:
                  'my_exceptions')
 
     BASIC_MAKER = staticmethod(lambda v: v)
-    MY_EXCEPTIONS = [TypeError, ValueError]  # a list of Exception classes
+    MY_EXCEPTIONS = [TypeError, ValueError, OverflowError]  # a list of Exception classes
     CHECKERS = []  # a list of CheckerCondition
 
     def __init__(self):
-- 
2.43.0


From 1b306c937c3b6c0db981aa8f862b884fec9d3732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:36 +0000
Subject: [PATCH 111/221] fix: FileContents failed with OSError instead of
 ConfigurationValidationError when the file cannot be read

---
 satella/configuration/schema/basic.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/satella/configuration/schema/basic.py b/satella/configuration/schema/basic.py
index 387bee9..44c849e 100644
--- a/satella/configuration/schema/basic.py
+++ b/satella/configuration/schema/basic.py
@@ -160,6 +160,7 @@ class FileContents(Descriptor):
     def __init__(self, encoding: tp.Optional[str] = None, strip_afterwards: bool = False):
         super().__init__()
         self.encoding = encoding
+        self.my_exceptions += OSError,
         self.strip_afterwards = strip_afterwards
 
     def BASIC_MAKER(self, c: str):
-- 
2.43.0


From 6c2e7d9ac1f6f4e1a926187094c3d3048fdba2d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:36 +0000
Subject: [PATCH 112/221] fix: Caster was not initialized, ignored checkers and
 failed with TypeError upon values it could not cast

---
 satella/configuration/schema/structs.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/satella/configuration/schema/structs.py b/satella/configuration/schema/structs.py
index 7d55518..f1eb86e 100644
--- a/satella/configuration/schema/structs.py
+++ b/satella/configuration/schema/structs.py
@@ -1,7 +1,6 @@
 import copy
 import typing as tp
 
-from satella.coding.recast_exceptions import rethrow_as
 from satella.exceptions import ConfigurationValidationError
 from .base import Descriptor, must_be_type, ConfigDictValue
 from .registry import register_custom_descriptor
@@ -55,10 +54,10 @@ class Caster(Descriptor):
     """
 
     def __init__(self, to_cast: tp.Callable[[tp.Any], tp.Any]):
+        super().__init__()
         self.to_cast = to_cast
 
-    @rethrow_as(ValueError, ConfigurationValidationError)
-    def __call__(self, value: ConfigDictValue):
+    def BASIC_MAKER(self, value: ConfigDictValue):
         return self.to_cast(value)
 
 
-- 
2.43.0


From a415f6065ce4152cb3bfecc620b4c62da9fe1a8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:36 +0000
Subject: [PATCH 113/221] fix: unknown types in a JSON schema failed with
 AttributeError or KeyError instead of ConfigurationSchemaError

---
 satella/configuration/schema/from_json.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/satella/configuration/schema/from_json.py b/satella/configuration/schema/from_json.py
index e3b318a..06b1812 100644
--- a/satella/configuration/schema/from_json.py
+++ b/satella/configuration/schema/from_json.py
@@ -8,12 +8,10 @@ from .structs import create_key, Dict
 
 
 def _get_descriptor_for_str(key: str, value: str) -> Descriptor:
-    try:
-        if value in PLAIN_ENTRIES:
-            return create_key(BASE_LOOKUP_TABLE[value](),
-                              key, False, None)
-    except KeyError:
+    if value not in PLAIN_ENTRIES:
         raise ConfigurationSchemaError('Unknown descriptor type %s' % (value,))
+    return create_key(BASE_LOOKUP_TABLE[value](),
+                      key, False, None)
 
 
 def _get_descriptor_for_dict(key: str, value: dict) -> Descriptor:
@@ -55,6 +53,8 @@ def _get_descriptor_for_dict(key: str, value: dict) -> Descriptor:
             optional = True
             default = value['default']
         optional = value.get('optional', optional)
+        if type_ not in BASE_LOOKUP_TABLE:
+            raise ConfigurationSchemaError('Unknown descriptor type %s' % (type_,))
         descriptor = BASE_LOOKUP_TABLE[type_](*args)
         return create_key(descriptor, key, optional, default)
 
-- 
2.43.0


From 5a6c256b145df235fb078d6eaae1edf1d1fbee43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:36 +0000
Subject: [PATCH 114/221] fix: FileObject and DirectoryObject were not equal to
 their paths, as documented

---
 satella/configuration/schema/basic.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/satella/configuration/schema/basic.py b/satella/configuration/schema/basic.py
index 44c849e..74b6d21 100644
--- a/satella/configuration/schema/basic.py
+++ b/satella/configuration/schema/basic.py
@@ -72,7 +72,7 @@ class FileObject:
         return self.path
 
     def __eq__(self, other) -> bool:
-        return self.path == str(other) and isinstance(other, FileObject)
+        return isinstance(other, (FileObject, str)) and self.path == str(other)
 
     def __hash__(self) -> int:
         return hash(self.path)
@@ -119,7 +119,7 @@ class DirectoryObject:
         return self.path
 
     def __eq__(self, other) -> bool:
-        return self.path == str(other) and isinstance(other, DirectoryObject)
+        return isinstance(other, (DirectoryObject, str)) and self.path == str(other)
 
     def __hash__(self) -> int:
         return hash(self.path)
-- 
2.43.0


From 12d44d0285c036bbbc8c73c790030426991f2875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:36 +0000
Subject: [PATCH 115/221] fix: FileContents given a number read (and closed)
 the file open with that descriptor

---
 satella/configuration/schema/basic.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/satella/configuration/schema/basic.py b/satella/configuration/schema/basic.py
index 74b6d21..aa8df02 100644
--- a/satella/configuration/schema/basic.py
+++ b/satella/configuration/schema/basic.py
@@ -4,7 +4,7 @@ import re
 import typing as tp
 
 from satella.exceptions import ConfigurationValidationError
-from .base import Descriptor, ConfigDictValue
+from .base import Descriptor, ConfigDictValue, must_be_type
 from .registry import register_custom_descriptor
 
 
@@ -147,6 +147,7 @@ class File(Descriptor):
     an instance of :class:`~satella.configuration.schema.basic.FileObject`
     """
 
+    CHECKERS = [must_be_type(str, os.PathLike)]     # integers are descriptors of open files
     BASIC_MAKER = _make_file
 
 
@@ -156,6 +157,7 @@ class FileContents(Descriptor):
     This value must be a valid path to a file. The value in your schema will be
     the contents of this file, applied with encoding (if given). By default, bytes will be read in
     """
+    CHECKERS = [must_be_type(str, os.PathLike)]
 
     def __init__(self, encoding: tp.Optional[str] = None, strip_afterwards: bool = False):
         super().__init__()
@@ -191,6 +193,7 @@ class Directory(Descriptor):
     an instance of :class:`~satella.configuration.schema.basic.FileObject`
     """
 
+    CHECKERS = [must_be_type(str, os.PathLike)]
     BASIC_MAKER = _make_directory
 
 
-- 
2.43.0


From 964e906213002d4e262a2951e92f00fa1772e09c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:54 +0000
Subject: [PATCH 116/221] fix: satella.configuration could not be imported,
 unless satella.coding was imported before

---
 satella/coding/predicates.py                          | 6 ++++--
 satella/coding/structures/dictionaries/dict_object.py | 9 +++++++--
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/satella/coding/predicates.py b/satella/coding/predicates.py
index 11ef606..9759986 100644
--- a/satella/coding/predicates.py
+++ b/satella/coding/predicates.py
@@ -2,7 +2,9 @@ import operator
 import typing as tp
 
 from satella.coding.typing import Predicate
-from satella.configuration.schema import Descriptor
+
+if tp.TYPE_CHECKING:    # configuration imports this module, directly or not
+    from satella.configuration.schema import Descriptor
 
 __all__ = ['x', 'build_structure', 'PredicateClass']
 
@@ -149,7 +151,7 @@ class PredicateClass:
         """
         return PredicateClass(self.operation)
 
-    def is_valid_schema(self, schema: tp.Optional[tp.Union[Descriptor, tp.Dict]] = None, **kwargs):
+    def is_valid_schema(self, schema: tp.Optional[tp.Union['Descriptor', tp.Dict]] = None, **kwargs):
         """
         Check if given value has the correct schema.
         The schema is the same as in
diff --git a/satella/coding/structures/dictionaries/dict_object.py b/satella/coding/structures/dictionaries/dict_object.py
index 38ef366..48e8aa4 100644
--- a/satella/coding/structures/dictionaries/dict_object.py
+++ b/satella/coding/structures/dictionaries/dict_object.py
@@ -2,9 +2,11 @@ import copy
 import typing as tp
 
 from satella.coding.recast_exceptions import rethrow_as
-from satella.configuration.schema import Descriptor, descriptor_from_dict
 from satella.exceptions import ConfigurationValidationError
 
+if tp.TYPE_CHECKING:
+    from satella.configuration.schema import Descriptor
+
 
 class DictObject(dict):
     """
@@ -46,7 +48,7 @@ class DictObject(dict):
     def __delattr__(self, key):
         del self[key]
 
-    def is_valid_schema(self, schema: tp.Optional[tp.Union[Descriptor, tp.Dict]] = None,
+    def is_valid_schema(self, schema: tp.Optional[tp.Union['Descriptor', tp.Dict]] = None,
                         **kwarg_schema) -> bool:
         """
         Check if this dictionary conforms to particular schema.
@@ -60,6 +62,9 @@ class DictObject(dict):
         :return: whether is conformant
         """
 
+        # configuration imports this module, directly or not
+        from satella.configuration.schema import Descriptor, descriptor_from_dict
+
         if kwarg_schema:
             schema = kwarg_schema
 
-- 
2.43.0


From f25e74ce2f96264244128733431cdb83aedc975e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:39 +0000
Subject: [PATCH 117/221] fix: load_source_from_dict failed upon arguments
 being dictionaries of an unrecognized type, instead of a warning

---
 satella/configuration/sources/from_dict.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/satella/configuration/sources/from_dict.py b/satella/configuration/sources/from_dict.py
index 8300a42..ef8b343 100644
--- a/satella/configuration/sources/from_dict.py
+++ b/satella/configuration/sources/from_dict.py
@@ -56,17 +56,15 @@ def load_source_from_dict(dct: dict) -> BaseSource:
     def to_arg(arg):
         if isinstance(arg, dict) and 'type' in arg:
             a_type = arg['type']
-            if a_type in EXTRA_TYPES:
+            if not isinstance(a_type, str):
+                pass        # surely not a definition, and might be unhashable
+            elif a_type in EXTRA_TYPES:
                 return EXTRA_TYPES[a_type](arg)
             elif a_type in sources.__dict__:
                 return load_source_from_dict(arg)
-            else:
-                warnings.warn(
-                    'Caught %s attempting to parse a dict with type, returning original value' % (
-                        e,), UserWarning)
-                return arg
-        else:
-            return arg
+            warnings.warn('Unknown type %s in a dict with type, returning original value' % (
+                a_type,), UserWarning)
+        return arg
 
     args = map(to_arg, args)
     kwargs = {k: to_arg(v) for k, v in dct.items()}
-- 
2.43.0


From b83b456754d59aa4473f002d295b8329ad4b86c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:20 +0000
Subject: [PATCH 118/221] fix: import_from walked into top-level packages named
 the same as the subpackages being imported

---
 satella/imports.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/satella/imports.py b/satella/imports.py
index b129afa..6c9189f 100644
--- a/satella/imports.py
+++ b/satella/imports.py
@@ -48,7 +48,7 @@ def import_from(path: tp.List[str], package_prefix: str, all_: tp.List[str],
     :param skip_not_having_all: skip module's not having an __all__ entry
     :raise AttributeError: module's __all__ contained entry that was not in this module
     """
-    for importer, modname, is_pkg in pkgutil.walk_packages(path, onerror=lambda x: None):
+    for importer, modname, is_pkg in pkgutil.iter_modules(path):
         if recursive and is_pkg:
             if modname.startswith('_') and skip_single_underscores:
                 continue
-- 
2.43.0


From 26c75be55cbdb00ec9d7a106a9543782901317f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:20 +0000
Subject: [PATCH 119/221] fix: import_from did not skip modules preceded with
 an underscore, unless they were packages

---
 satella/imports.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/satella/imports.py b/satella/imports.py
index 6c9189f..d484526 100644
--- a/satella/imports.py
+++ b/satella/imports.py
@@ -49,9 +49,9 @@ def import_from(path: tp.List[str], package_prefix: str, all_: tp.List[str],
     :raise AttributeError: module's __all__ contained entry that was not in this module
     """
     for importer, modname, is_pkg in pkgutil.iter_modules(path):
+        if modname.startswith('_') and skip_single_underscores:
+            continue
         if recursive and is_pkg:
-            if modname.startswith('_') and skip_single_underscores:
-                continue
             module = importlib.import_module(package_prefix + '.' + modname)
             try:
                 mod_all = module.__all__
-- 
2.43.0


From 19442464154b7df4d13d9923623b175c70b95c8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:20 +0000
Subject: [PATCH 120/221] fix: import_from given skip_not_having_all did not
 skip modules, unless they were packages

---
 satella/imports.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/satella/imports.py b/satella/imports.py
index d484526..0fc5ce1 100644
--- a/satella/imports.py
+++ b/satella/imports.py
@@ -74,6 +74,8 @@ def import_from(path: tp.List[str], package_prefix: str, all_: tp.List[str],
             try:
                 package_ref = module.__all__
             except AttributeError:
+                if skip_not_having_all:
+                    continue
                 warnings.warn('Module %s does not contain __all__, enumerating it instead' %
                               (package_prefix + '.' + modname,), RuntimeWarning)
                 package_ref = dir(module)
-- 
2.43.0


From 08d6423263bbbfa9bba8b5f22f19b1efc0a7bb56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:24 +0000
Subject: [PATCH 121/221] fix: split() never returned, if given an absolute
 path

---
 satella/files.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/satella/files.py b/satella/files.py
index eca9748..2477a2e 100644
--- a/satella/files.py
+++ b/satella/files.py
@@ -215,7 +215,10 @@ def split(path: str) -> tp.List[str]:
     """
     data = list(os.path.split(path))
     while _has_separator(data[0]):
-        data = list(os.path.split(data[0])) + data[1:]
+        head, tail = os.path.split(data[0])
+        if head == data[0]:     # this is the root, it won't be split any further
+            break
+        data = [head, tail] + data[1:]
     return data
 
 
-- 
2.43.0


From 9b145ecf1b13f47a2920c3d96e0e2e9863ee82c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:24 +0000
Subject: [PATCH 122/221] fix: find_files ignored apply_wildcard_to_entire_path
 within subdirectories

---
 satella/files.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/satella/files.py b/satella/files.py
index 2477a2e..48e6ebc 100644
--- a/satella/files.py
+++ b/satella/files.py
@@ -370,6 +370,7 @@ def find_files(path: str, wildcard: str = r'(.*)',
             new_prefix = _cond_join(prefix_with, filename)
             yield from find_files(os.path.join(path, filename), wildcard,
                                   prefix_with=new_prefix,
+                                  apply_wildcard_to_entire_path=apply_wildcard_to_entire_path,
                                   prefix_with_path=False)
         else:
             if apply_wildcard_to_entire_path:
-- 
2.43.0


From 1ff938f14297820d7042c011ee42835dfae34223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:24 +0000
Subject: [PATCH 123/221] fix: AutoflushFile did not accept modes a+ and ab+,
 as documented

---
 satella/files.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/satella/files.py b/satella/files.py
index 48e6ebc..72e4694 100644
--- a/satella/files.py
+++ b/satella/files.py
@@ -459,7 +459,8 @@ class AutoflushFile(Proxy[io.FileIO]):
             fle.close()
 
         with reraise_as(KeyError, ValueError, f'Unsupported mode "{mode}"'):
-            mode = {'w': 'a', 'wb': 'ab', 'w+': 'a+', 'wb+': 'ab+', 'a': 'a', 'ab': 'ab'}[mode]
+            mode = {'w': 'a', 'wb': 'ab', 'w+': 'a+', 'wb+': 'ab+', 'a': 'a', 'ab': 'ab',
+                    'a+': 'a+', 'ab+': 'ab+'}[mode]
 
         self.__dict__['con_args'] = file, mode, *con_args
 
-- 
2.43.0


From e7507e551eb36282101c1b7689251c6070807fe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:24 +0000
Subject: [PATCH 124/221] fix: AutoflushFile forgot the position that it was
 seeked to, or that was read up to

---
 satella/files.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/satella/files.py b/satella/files.py
index 72e4694..505c6cc 100644
--- a/satella/files.py
+++ b/satella/files.py
@@ -512,6 +512,8 @@ class AutoflushFile(Proxy[io.FileIO]):
         file = self._get_file()
         if file is None:
             file = open(*self.con_args, **self.con_kwargs)
+            if self.__dict__['pointer'] is not None:
+                file.seek(self.__dict__['pointer'])
             ptr = file.tell()
             self.__dict__['_Proxy__obj'] = file
             self.__dict__['pointer'] = ptr
-- 
2.43.0


From 2630aeaf35cf6801abdc31b2a46e126934b0ebde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:24 +0000
Subject: [PATCH 125/221] fix: AutoflushFile.readall() failed unless the file
 was unbuffered

---
 satella/files.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/satella/files.py b/satella/files.py
index 505c6cc..cb069be 100644
--- a/satella/files.py
+++ b/satella/files.py
@@ -506,7 +506,7 @@ class AutoflushFile(Proxy[io.FileIO]):
     def readall(self) -> tp.Union[str, bytes]:
         """Read all contents into the file"""
         fle = self._open_file()
-        return fle.readall()
+        return fle.read()
 
     def _open_file(self) -> io.FileIO:
         file = self._get_file()
-- 
2.43.0


From 738afdae20323e97018a5ace46f32f37838db632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:24 +0000
Subject: [PATCH 126/221] fix: AutoflushFile took a wrong position after a
 write, if others appended to the file meanwhile

---
 satella/files.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/satella/files.py b/satella/files.py
index cb069be..7d44ba0 100644
--- a/satella/files.py
+++ b/satella/files.py
@@ -545,6 +545,7 @@ class AutoflushFile(Proxy[io.FileIO]):
         """
         fle = self._open_file()
         val = fle.write(*args, **kwargs)
+        fle.flush()     # as of now the file might be longer than we expect it to
         self.__dict__['pointer'] = fle.tell()
         return val
 
-- 
2.43.0


From 3caa9832b34ab0c52a76e086ed9a42830cb555c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:24 +0000
Subject: [PATCH 127/221] fix: DevNullFilelikeObject reported being closed
 since the start, and its writelines() failed because of that

---
 satella/files.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/satella/files.py b/satella/files.py
index 7d44ba0..c88800b 100644
--- a/satella/files.py
+++ b/satella/files.py
@@ -78,6 +78,11 @@ class DevNullFilelikeObject(io.FileIO):
         self.is_closed = False
         self.binary = binary
 
+    @property
+    def closed(self) -> bool:
+        """Has this object been closed"""
+        return self.is_closed
+
     @closed_devnull
     def tell(self) -> int:
         """
-- 
2.43.0


From df23697b074c9449d814c9a29a2f44354fda2a87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:24 +0000
Subject: [PATCH 128/221] fix: DevNullFilelikeObject.seek() did not accept
 whence

---
 satella/files.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/satella/files.py b/satella/files.py
index c88800b..2ebbbf2 100644
--- a/satella/files.py
+++ b/satella/files.py
@@ -103,7 +103,7 @@ class DevNullFilelikeObject(io.FileIO):
         return True
 
     @closed_devnull
-    def seek(self, v: int) -> int:
+    def seek(self, v: int, whence: int = os.SEEK_SET) -> int:
         """Seek to a particular file offset"""
         return 0
 
-- 
2.43.0


From 19e4c52de2f3be7cdb7a002cb046cc5da45864e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:54 +0000
Subject: [PATCH 129/221] fix: bytes() of a BinaryParser failed for streams
 other than bytes

---
 satella/parsing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/satella/parsing.py b/satella/parsing.py
index b2e5d9b..ea689f3 100644
--- a/satella/parsing.py
+++ b/satella/parsing.py
@@ -45,7 +45,7 @@ class BinaryParser:
             raise NotEnoughBytes('Offset larger than the stream!')
 
     def __bytes__(self) -> bytes:
-        return self.b_stream[self.init_ofs:self.init_ofs + self.length]
+        return bytes(self.b_stream[self.init_ofs:self.init_ofs + self.length])
 
     def skip(self, n: int) -> None:
         """
-- 
2.43.0


From 04a1a26cb5ed79701e3f72456220879e4221c89c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:54 +0000
Subject: [PATCH 130/221] fix: BinaryParser of length 0 allowed to read the
 entire stream

---
 satella/parsing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/satella/parsing.py b/satella/parsing.py
index ea689f3..486330f 100644
--- a/satella/parsing.py
+++ b/satella/parsing.py
@@ -40,7 +40,7 @@ class BinaryParser:
         self.b_stream = b_stream
         self.pointer = self.init_ofs = offset
         self.struct_cache = {}
-        self.length = length or len(b_stream)
+        self.length = len(b_stream) if length is None else length
         if offset > len(self.b_stream):
             raise NotEnoughBytes('Offset larger than the stream!')
 
-- 
2.43.0


From e68211d5189417518737911cd2df413dcc637459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:54 +0000
Subject: [PATCH 131/221] fix: BinaryParser starting at an offset or longer
 than the stream did not notice that the stream ended

---
 satella/parsing.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/satella/parsing.py b/satella/parsing.py
index 486330f..459b895 100644
--- a/satella/parsing.py
+++ b/satella/parsing.py
@@ -40,9 +40,10 @@ class BinaryParser:
         self.b_stream = b_stream
         self.pointer = self.init_ofs = offset
         self.struct_cache = {}
-        self.length = len(b_stream) if length is None else length
         if offset > len(self.b_stream):
             raise NotEnoughBytes('Offset larger than the stream!')
+        remaining = len(b_stream) - offset
+        self.length = remaining if length is None else min(length, remaining)
 
     def __bytes__(self) -> bytes:
         return bytes(self.b_stream[self.init_ofs:self.init_ofs + self.length])
-- 
2.43.0


From 0798a1df1a92e701d6dc6de8d42a9d83cac0ad26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:54 +0000
Subject: [PATCH 132/221] fix: BinaryParser.get_struct did not accept
 single-character structs starting with =

---
 satella/parsing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/satella/parsing.py b/satella/parsing.py
index 459b895..20511b7 100644
--- a/satella/parsing.py
+++ b/satella/parsing.py
@@ -136,7 +136,7 @@ class BinaryParser:
         """
         st = self._to_struct(st)
 
-        if st.format[0] in {'>', '<', '!', '@'}:
+        if st.format[0] in {'>', '<', '!', '@', '='}:
             assert len(st.format) == 2, 'Format must span at most 1 character, use ' \
                                         'get_structs for multiples!'
         else:
-- 
2.43.0


From 3cb8f5e0cef8be2038d223590259ec6f16ed0175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:45 +0000
Subject: [PATCH 133/221] fix: read_json_from_file did not read files as UTF-8,
 as documented, but with the encoding of current locale

---
 satella/json.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/satella/json.py b/satella/json.py
index ac1286b..34501d6 100644
--- a/satella/json.py
+++ b/satella/json.py
@@ -113,10 +113,10 @@ def read_json_from_file(path: str) -> JSONAble:
     """
     try:
         import ujson
-        with open(path, 'r') as f_in:
+        with open(path, 'r', encoding='utf-8') as f_in:
             v = ujson.load(f_in)
     except ImportError:
-        with open(path, 'r') as f_in:
+        with open(path, 'r', encoding='utf-8') as f_in:
             try:
                 v = json.load(f_in)
             except json.decoder.JSONDecodeError as e:
-- 
2.43.0


From 02de57691d8edd4ea1fb6e5c4286af6c9b86986d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:45 +0000
Subject: [PATCH 134/221] fix: comparing a JSONAbleDataObject with anything
 else failed with AttributeError

---
 satella/json.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/satella/json.py b/satella/json.py
index 34501d6..357578b 100644
--- a/satella/json.py
+++ b/satella/json.py
@@ -146,6 +146,8 @@ class JSONAbleDataObject:
     """
 
     def __eq__(self, other) -> bool:
+        if other.__class__ is not self.__class__:
+            return NotImplemented
         return all(getattr(self, annotation) == getattr(other, annotation) for annotation in self.__class__.__annotations__.keys())
 
     def __hash__(self) -> int:
-- 
2.43.0


From cd8dd5064e45a7fb6170bf8b1374a7fd7c730478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:45 +0000
Subject: [PATCH 135/221] fix: JSONAbleDataObject disregarded fields that were
 declared in its base classes

---
 satella/json.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/satella/json.py b/satella/json.py
index 357578b..4e5ea0d 100644
--- a/satella/json.py
+++ b/satella/json.py
@@ -145,14 +145,21 @@ class JSONAbleDataObject:
     >>> assert CultureContext.from_json(a.to_json) == a
     """
 
+    @classmethod
+    def _get_fields(cls) -> tp.Dict[str, tp.Any]:
+        fields = {}
+        for class_ in reversed(cls.__mro__):
+            fields.update(getattr(class_, '__annotations__', {}))
+        return fields
+
     def __eq__(self, other) -> bool:
         if other.__class__ is not self.__class__:
             return NotImplemented
-        return all(getattr(self, annotation) == getattr(other, annotation) for annotation in self.__class__.__annotations__.keys())
+        return all(getattr(self, annotation) == getattr(other, annotation) for annotation in self._get_fields())
 
     def __hash__(self) -> int:
         hash_ = 0
-        for annotation in self.__class__.__annotations__.keys():
+        for annotation in self._get_fields():
             hash_ ^= hash(getattr(self, annotation))
         return hash_
 
@@ -160,7 +167,7 @@ class JSONAbleDataObject:
         """
         :raises ValueError: a non-default value was not provided
         """
-        for annotation in self.__class__.__annotations__.keys():
+        for annotation in self._get_fields():
             try:
                 annot_val = kwargs.pop(annotation)
                 setattr(self, annotation, annot_val)
@@ -171,7 +178,7 @@ class JSONAbleDataObject:
     def to_json(self) -> tp.Dict:
         """Convert self to JSONable value"""
         result = {}
-        for annotation in self.__class__.__annotations__.keys():
+        for annotation in self._get_fields():
             result[annotation] = getattr(self, annotation)
         return result
 
-- 
2.43.0


From eda5be7f7a16ff314f753231095a4affb05be604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:28 +0000
Subject: [PATCH 136/221] fix: measure.start() called after stop() started from
 zero instead of resuming, as documented

---
 satella/time/measure.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/satella/time/measure.py b/satella/time/measure.py
index 5ae57a5..d088346 100644
--- a/satella/time/measure.py
+++ b/satella/time/measure.py
@@ -194,10 +194,8 @@ class measure:  # pylint: disable=invalid-name
         if self.stopped_on is None:
             raise TypeError('the counter is already running!')
 
-        if self.stopped_on is not None:
-            self.started_on = self.time_getter_callable() - self.elapsed
-            self.stopped_on = None
-        self.started_on = self.time_getter_callable()
+        self.started_on = self.time_getter_callable() - self.elapsed
+        self.stopped_on = None
         self.elapsed = None
 
     def update(self) -> None:
-- 
2.43.0


From 245062c9797052b8142e40b428cb0f8c64e6abfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:28 +0000
Subject: [PATCH 137/221] fix: leaving a measure() that was stopped by the
 block failed with TypeError, hiding the exception of the block

---
 satella/time/measure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/satella/time/measure.py b/satella/time/measure.py
index d088346..8cd92d9 100644
--- a/satella/time/measure.py
+++ b/satella/time/measure.py
@@ -278,6 +278,6 @@ class measure:  # pylint: disable=invalid-name
         self.elapsed = self.stopped_on - self.started_on
 
     def __exit__(self, exc_type, exc_val, exc_tb) -> bool:
-        if self.stop_on_stop:
+        if self.stop_on_stop and not self.stopped:
             self.stop()
         return False
-- 
2.43.0


From 29ec71675acf007fd6f093e85d41c080b7c8948c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:28 +0000
Subject: [PATCH 138/221] fix: parse_time_string failed upon units such as
 mins, days or weeks

---
 satella/time/parse.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/satella/time/parse.py b/satella/time/parse.py
index 329ac86..f268628 100644
--- a/satella/time/parse.py
+++ b/satella/time/parse.py
@@ -29,8 +29,11 @@ def parse_time_string(s: tp.Union[int, float, str]) -> float:
     if isinstance(s, (int, float)):
         return s
 
-    for modifier, multiple in TIME_MODIFIERS:
-        if modifier in s:
-            return float(s[:s.index(modifier)]) * multiple
+    modifiers = [(s.index(modifier), multiple) for modifier, multiple in TIME_MODIFIERS
+                 if modifier in s]
+    if modifiers:
+        # the first letter is what matters, as the rest are of the unit's name, eg. "2 days"
+        index, multiple = min(modifiers)
+        return float(s[:index]) * multiple
 
     return float(s)
-- 
2.43.0


From d3b0e10a46124efafcc820021eb2b1afe0ab81cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:28 +0000
Subject: [PATCH 139/221] fix: sleep() failed with ValueError if the time
 elapsed between two looks at the clock

---
 satella/time/misc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/satella/time/misc.py b/satella/time/misc.py
index a7a16c1..da3fe48 100644
--- a/satella/time/misc.py
+++ b/satella/time/misc.py
@@ -27,7 +27,7 @@ def sleep(y: tp.Union[str, float], abort_on_interrupt: bool = False) -> bool:
     with measure() as measurement:
         while measurement() < y:
             try:
-                time.sleep(y - measurement())
+                time.sleep(max(0, y - measurement()))
             except KeyboardInterrupt:
                 if abort_on_interrupt:
                     return False
-- 
2.43.0


From 1feca3274855bc71734f22e35df5e33fae949215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:28 +0000
Subject: [PATCH 140/221] fix: ExponentialBackoff slept for longer than the
 limit, if it was less than start

---
 satella/time/backoff.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/satella/time/backoff.py b/satella/time/backoff.py
index 74c3a41..5f732e9 100644
--- a/satella/time/backoff.py
+++ b/satella/time/backoff.py
@@ -64,7 +64,7 @@ class ExponentialBackoff:
         """
         if self.grace_amount == self.grace_counter:
             if self.counter == 0:
-                self.counter = self.start
+                self.counter = min(self.limit, self.start)
             else:
                 self.counter = min(self.limit, self.counter * 2)
             self.unavailable_until = time.monotonic() + self.counter
-- 
2.43.0


From 0ca13b9bcc4076a0d3396593a70ae00ef96f7808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:28 +0000
Subject: [PATCH 141/221] fix: ExponentialBackoff.wait_until_available
 disregarded the timeout, until the next health check

---
 satella/time/backoff.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/satella/time/backoff.py b/satella/time/backoff.py
index 5f732e9..d7df399 100644
--- a/satella/time/backoff.py
+++ b/satella/time/backoff.py
@@ -84,6 +84,8 @@ class ExponentialBackoff:
                 tn = self.time_until_next_check()
                 if tn is None:
                     return
+                if timeout is not None:
+                    tn = min(tn, m.time_remaining)
                 self.condition.wait(timeout=tn, dont_raise=True)
             raise WouldWaitMore('timeouted while waiting for service to become healthy')
 
-- 
2.43.0


From f6d6b3e72819c9820e89a0fcb952e0e4c529b61e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:54 +0000
Subject: [PATCH 142/221] fix: generators decorated with measure() lost the
 value returned

---
 satella/time/measure.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/satella/time/measure.py b/satella/time/measure.py
index 8cd92d9..c082c66 100644
--- a/satella/time/measure.py
+++ b/satella/time/measure.py
@@ -229,9 +229,9 @@ class measure:  # pylint: disable=invalid-name
                         if not s.create_stopped:
                             s.reset()
                             with s:
-                                yield from func(s, *args, **kwargs)
+                                return (yield from func(s, *args, **kwargs))
                         else:
-                            yield from func(s, *args, **kwargs)
+                            return (yield from func(s, *args, **kwargs))
 
                     return inner
                 else:
-- 
2.43.0


From a46db19306454e7474013f054f758a74ad20c0ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:25 +0000
Subject: [PATCH 143/221] fix: ExponentialBackoff failed with TypeError, or
 forgot about a failure, if it was reported while others were waiting

---
 satella/time/backoff.py | 21 ++++++---------------
 1 file changed, 6 insertions(+), 15 deletions(-)

diff --git a/satella/time/backoff.py b/satella/time/backoff.py
index d7df399..6cd362b 100644
--- a/satella/time/backoff.py
+++ b/satella/time/backoff.py
@@ -91,15 +91,12 @@ class ExponentialBackoff:
 
     def time_until_next_check(self) -> tp.Optional[float]:
         """Return the time until next health check, or None if the service is healthy"""
-        if self.unavailable_until is None:
+        # this might be changed by another thread at any time, and waiting threads won't write it
+        unavailable_until = self.unavailable_until
+        if unavailable_until is None:
             return None
-        else:
-            t = time.monotonic()
-            if t > self.unavailable_until:
-                self.unavailable_until = None
-                return None
-            else:
-                return self.unavailable_until - t
+        t = time.monotonic()
+        return None if t > unavailable_until else unavailable_until - t
 
     @property
     def ready_for_next_check(self) -> bool:
@@ -107,13 +104,7 @@ class ExponentialBackoff:
         :return: Has  :meth:`~satella.time.ExponentialBackoff.failure` been called only
             in the last waiting period?
         """
-        if self.unavailable_until is None:
-            return True
-        elif time.monotonic() > self.unavailable_until:
-            self.unavailable_until = None
-            return True
-        else:
-            return False
+        return self.time_until_next_check() is None
 
     @property
     def available(self) -> bool:
-- 
2.43.0


From 9c5ea6517a51d230b06d4b93345f8337ba5a3d17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:25 +0000
Subject: [PATCH 144/221] fix: ExponentialBackoff.wait_until_available could
 miss success(), and wait until the next health check

---
 satella/time/backoff.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/satella/time/backoff.py b/satella/time/backoff.py
index 6cd362b..50cff88 100644
--- a/satella/time/backoff.py
+++ b/satella/time/backoff.py
@@ -81,12 +81,13 @@ class ExponentialBackoff:
         """
         with measure(timeout=timeout) as m:
             while not m.timeouted:
-                tn = self.time_until_next_check()
-                if tn is None:
-                    return
-                if timeout is not None:
-                    tn = min(tn, m.time_remaining)
-                self.condition.wait(timeout=tn, dont_raise=True)
+                with self.condition:    # so that success() is not called between checking and waiting
+                    tn = self.time_until_next_check()
+                    if tn is None:
+                        return
+                    if timeout is not None:
+                        tn = min(tn, m.time_remaining)
+                    self.condition.wait(timeout=tn, dont_raise=True)
             raise WouldWaitMore('timeouted while waiting for service to become healthy')
 
     def time_until_next_check(self) -> tp.Optional[float]:
-- 
2.43.0


From c5929f7460d7d53da1dc0c347218f572e0147c2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:42 +0000
Subject: [PATCH 145/221] fix: renaming entries of a MetricDataCollection left
 them under their old hashes, and renamed these of other collections;
 prefix_with() returned None

---
 satella/instrumentation/metrics/data.py | 30 ++++++++++++++-----------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/satella/instrumentation/metrics/data.py b/satella/instrumentation/metrics/data.py
index 1d1bf61..e8ca391 100644
--- a/satella/instrumentation/metrics/data.py
+++ b/satella/instrumentation/metrics/data.py
@@ -1,3 +1,4 @@
+import copy
 import typing as tp
 
 from satella.coding.structures import frozendict
@@ -74,12 +75,22 @@ class MetricDataCollection(JSONAble):
     """
     __slots__ = ('values',)
 
-    def add_labels(self, labels: dict) -> None:
+    def _alter(self, operation: tp.Callable[[MetricData], None]) -> 'MetricDataCollection':
+        """
+        Apply given operation to a copy of each child and return self. Since the operation might
+        change the hash of the child, and other collections might have it, children can't be
+        altered in place.
+        """
         output = set()
         for child in self.values:
-            child.add_labels(labels)
+            child = copy.copy(child)
+            operation(child)
             output.add(child)
         self.values = output
+        return self
+
+    def add_labels(self, labels: dict) -> None:
+        self._alter(lambda child: child.add_labels(labels))
 
     def __repr__(self):
         return 'MetricDataCollection(%s)' % (repr(self.values, ))
@@ -129,14 +140,11 @@ class MetricDataCollection(JSONAble):
 
     def prefix_with(self, prefix: str) -> 'MetricDataCollection':
         """Prefix every child with given prefix and return self"""
-        for child in self.values:
-            child.prefix_with(prefix)
+        return self._alter(lambda child: child.prefix_with(prefix))
 
     def postfix_with(self, postfix: str) -> 'MetricDataCollection':
         """Postfix every child with given postfix and return self"""
-        for child in self.values:
-            child.postfix_with(postfix)
-        return self
+        return self._alter(lambda child: child.postfix_with(postfix))
 
     def __add_metric_data(self, other: MetricData):
         values = self.values.copy()
@@ -178,18 +186,14 @@ class MetricDataCollection(JSONAble):
 
     def set_timestamp(self, timestamp: float) -> 'MetricDataCollection':
         """Assign every child this timestamp and return self"""
-        for child in self.values:
-            child.add_timestamp(timestamp)
-        return self
+        return self._alter(lambda child: child.add_timestamp(timestamp))
 
     def __eq__(self, other: 'MetricDataCollection') -> bool:
         return self.values == other.values
 
     def set_value(self, value) -> 'MetricDataCollection':
         """Set all children to a particular value and return self. Most useful"""
-        for child in self.values:
-            child.value = value
-        return self
+        return self._alter(lambda child: setattr(child, 'value', value))
 
     def remove_internals(self):
         """
-- 
2.43.0


From cd11630c10a8064108c03938b87ea4fb4a780318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:42 +0000
Subject: [PATCH 146/221] fix: a MetricDataCollection made from another one
 shared its entries with it

---
 satella/instrumentation/metrics/data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/satella/instrumentation/metrics/data.py b/satella/instrumentation/metrics/data.py
index e8ca391..52c6034 100644
--- a/satella/instrumentation/metrics/data.py
+++ b/satella/instrumentation/metrics/data.py
@@ -100,7 +100,7 @@ class MetricDataCollection(JSONAble):
             if isinstance(values[0], MetricData):
                 self.values = set(values)
             elif isinstance(values[0], MetricDataCollection):
-                self.values = values[0].values
+                self.values = values[0].values.copy()
             else:
                 self.values = set(values[0])
         else:
-- 
2.43.0


From 1e578573745f62bcd7a40ae3b29abb56593ec7ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:42 +0000
Subject: [PATCH 147/221] fix: MetricData.from_json() took its argument apart

---
 satella/instrumentation/metrics/data.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/satella/instrumentation/metrics/data.py b/satella/instrumentation/metrics/data.py
index 52c6034..dfaa4d1 100644
--- a/satella/instrumentation/metrics/data.py
+++ b/satella/instrumentation/metrics/data.py
@@ -59,6 +59,7 @@ class MetricData(JSONAble):
 
     @classmethod
     def from_json(cls, x: dict) -> 'MetricData':
+        x = dict(x)
         name = x.pop('_name')
         value = x.pop('_')
         timestamp = x.pop('_timestamp', None)
-- 
2.43.0


From 518f74e59e21b612dedcb4228e64e48e1b87e015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:42 +0000
Subject: [PATCH 148/221] fix: comparing MetricData or MetricDataCollection
 with something else failed

---
 satella/instrumentation/metrics/data.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/satella/instrumentation/metrics/data.py b/satella/instrumentation/metrics/data.py
index dfaa4d1..ec9a781 100644
--- a/satella/instrumentation/metrics/data.py
+++ b/satella/instrumentation/metrics/data.py
@@ -30,6 +30,8 @@ class MetricData(JSONAble):
         self.labels = frozendict(labels_current)
 
     def __eq__(self, other: 'MetricData') -> bool:
+        if not isinstance(other, MetricData):
+            return NotImplemented
         return self.labels == other.labels and self.name == other.name
 
     def prefix_with(self, prefix: str) -> None:
@@ -190,6 +192,8 @@ class MetricDataCollection(JSONAble):
         return self._alter(lambda child: child.add_timestamp(timestamp))
 
     def __eq__(self, other: 'MetricDataCollection') -> bool:
+        if not isinstance(other, MetricDataCollection):
+            return NotImplemented
         return self.values == other.values
 
     def set_value(self, value) -> 'MetricDataCollection':
-- 
2.43.0


From 31195e80c85d03c45be9245983d730659214b874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:42 +0000
Subject: [PATCH 149/221] fix: prometheus.exports_per_time was counted during
 the last second only

---
 satella/instrumentation/metrics/exporters/prometheus.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/satella/instrumentation/metrics/exporters/prometheus.py b/satella/instrumentation/metrics/exporters/prometheus.py
index ad22217..6865b6a 100644
--- a/satella/instrumentation/metrics/exporters/prometheus.py
+++ b/satella/instrumentation/metrics/exporters/prometheus.py
@@ -64,7 +64,7 @@ class PrometheusHTTPExporterThread(TerminableThread):
         self.httpd.extra_labels = extra_labels or {}
         self.httpd.metric = getMetric('prometheus.exports_per_time',
                                       'cps' if enable_metric else 'empty',
-                                      time_unit_vector=[1, 20, 60])
+                                      time_unit_vectors=[1, 20, 60])
 
     def run(self) -> None:
         self.httpd.server_bind()
-- 
2.43.0


From ddc8a291a60f7945717074f2f3d859368ec8e4b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:42 +0000
Subject: [PATCH 150/221] fix: newlines in labels were not escaped for
 Prometheus

---
 satella/instrumentation/metrics/exporters/prometheus.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/satella/instrumentation/metrics/exporters/prometheus.py b/satella/instrumentation/metrics/exporters/prometheus.py
index 6865b6a..ec46f27 100644
--- a/satella/instrumentation/metrics/exporters/prometheus.py
+++ b/satella/instrumentation/metrics/exporters/prometheus.py
@@ -103,7 +103,7 @@ class RendererObject(io.StringIO):
         if md.labels:
             self.write('{')
             self.write(','.join('%s="%s"' % (
-                key, str(value).replace('\\', '\\\\').replace('"', '\\"')) for
+                key, str(value).replace('\\', '\\\\').replace('"', '\\"').replace('\n', '\\n')) for
                                 key, value in md.labels.items()))
             self.write('}')
         self.write(' %s' % (md.value,))
-- 
2.43.0


From bd7db162424a6b4912256f45311b8d1bb2ab0367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:42 +0000
Subject: [PATCH 151/221] fix: counters did not report their timestamps

---
 satella/instrumentation/metrics/metric_types/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/satella/instrumentation/metrics/metric_types/base.py b/satella/instrumentation/metrics/metric_types/base.py
index 8427195..a1231f4 100644
--- a/satella/instrumentation/metrics/metric_types/base.py
+++ b/satella/instrumentation/metrics/metric_types/base.py
@@ -164,7 +164,7 @@ class LeafMetric(Metric):
 
     def to_metric_data(self) -> MetricDataCollection:
         return MetricDataCollection(
-            MetricData(self.name, None, self.labels, internal=self.internal))
+            MetricData(self.name, None, self.labels, self.get_timestamp(), self.internal))
 
     def append_child(self, metric: 'Metric'):
         raise TypeError('This metric cannot contain children!')
-- 
2.43.0


From 34cb1fa47bcb1eedb2e5179cd7c21aa0c7f2d404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:42 +0000
Subject: [PATCH 152/221] fix: timestamps of metrics with labels remained at
 the moment of their first update

---
 .../instrumentation/metrics/metric_types/base.py    | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/satella/instrumentation/metrics/metric_types/base.py b/satella/instrumentation/metrics/metric_types/base.py
index a1231f4..8557017 100644
--- a/satella/instrumentation/metrics/metric_types/base.py
+++ b/satella/instrumentation/metrics/metric_types/base.py
@@ -206,15 +206,16 @@ class EmbeddedSubmetrics(LeafMetric):
         else:
             return
 
-        if key in self.children_mapping:
-            # noinspection PyProtectedMember
-            self.children_mapping[key]._handle(*args)
-        else:
+        if key not in self.children_mapping:
             clone = self.clone(labels)
             self.children_mapping[key] = clone
             self.children.append(clone)
-            # noinspection PyProtectedMember
-            self.children_mapping[key]._handle(*args)
+
+        child = self.children_mapping[key]
+        if self.enable_timestamp:
+            child.last_updated = self.last_updated
+        # noinspection PyProtectedMember
+        child._handle(*args)
 
     def to_metric_data(self) -> MetricDataCollection:
         if self.embedded_submetrics_enabled:
-- 
2.43.0


From ad33c94f22fc81d39e92fcd526466650308cf4f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:42 +0000
Subject: [PATCH 153/221] fix: internal metrics with labels were not internal

---
 satella/instrumentation/metrics/metric_types/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/satella/instrumentation/metrics/metric_types/base.py b/satella/instrumentation/metrics/metric_types/base.py
index 8557017..df22fcf 100644
--- a/satella/instrumentation/metrics/metric_types/base.py
+++ b/satella/instrumentation/metrics/metric_types/base.py
@@ -241,7 +241,7 @@ class EmbeddedSubmetrics(LeafMetric):
         """
 
         return self.__class__(self.name, self, MetricLevel.INHERIT, *self.args, labels=labels,
-                              **self.kwargs)
+                              internal=self.internal, **self.kwargs)
 
 
 from .registry import register_metric
-- 
2.43.0


From 2f52c3eed8c171eba938917460b576b83438426f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:42 +0000
Subject: [PATCH 154/221] fix: labels of the metric were lost upon handling a
 value with labels

---
 satella/instrumentation/metrics/metric_types/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/satella/instrumentation/metrics/metric_types/base.py b/satella/instrumentation/metrics/metric_types/base.py
index df22fcf..cbe6bf3 100644
--- a/satella/instrumentation/metrics/metric_types/base.py
+++ b/satella/instrumentation/metrics/metric_types/base.py
@@ -207,7 +207,7 @@ class EmbeddedSubmetrics(LeafMetric):
             return
 
         if key not in self.children_mapping:
-            clone = self.clone(labels)
+            clone = self.clone({**self.labels, **labels})
             self.children_mapping[key] = clone
             self.children.append(clone)
 
-- 
2.43.0


From 6dd975f6fa5b63e1fbe1eac8af769eee0b920eba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:05 +0000
Subject: [PATCH 155/221] fix: linkfail with labels reported nothing, and gave
 the callbacks a wrong address

---
 satella/instrumentation/metrics/metric_types/linkfail.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/satella/instrumentation/metrics/metric_types/linkfail.py b/satella/instrumentation/metrics/metric_types/linkfail.py
index b25d3bb..5019401 100644
--- a/satella/instrumentation/metrics/metric_types/linkfail.py
+++ b/satella/instrumentation/metrics/metric_types/linkfail.py
@@ -49,7 +49,7 @@ class LinkfailMetric(EmbeddedSubmetrics):
 
     def _handle(self, success: bool, address: int = 0, *args, **labels):
         if self.embedded_submetrics_enabled or labels:
-            return super()._handle(success, address=address, *args, **labels)
+            return super()._handle(success, address, *args, **labels)
         if success:
             self.consecutive_failures[address] = 0
             self.consecutive_successes[address] += 1
@@ -67,6 +67,9 @@ class LinkfailMetric(EmbeddedSubmetrics):
                     self.callback_on_offline(address, self.labels)
 
     def to_metric_data(self) -> MetricDataCollection:
+        if self.embedded_submetrics_enabled:
+            return super().to_metric_data()
+
         mdc = MetricDataCollection()
         keys = set(self.consecutive_successes.keys())
         keys = keys.union(set(self.consecutive_failures.keys()))
-- 
2.43.0


From 4779557c159502834609105c37bb40dfe80cc88b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:05 +0000
Subject: [PATCH 156/221] fix: linkfail reported a status of but a single
 address

---
 satella/instrumentation/metrics/metric_types/linkfail.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/satella/instrumentation/metrics/metric_types/linkfail.py b/satella/instrumentation/metrics/metric_types/linkfail.py
index 5019401..5953bcd 100644
--- a/satella/instrumentation/metrics/metric_types/linkfail.py
+++ b/satella/instrumentation/metrics/metric_types/linkfail.py
@@ -84,5 +84,5 @@ class LinkfailMetric(EmbeddedSubmetrics):
                               self.consecutive_successes[address],
                               labels, self.get_timestamp(), self.internal)
             mdc += MetricData(self.name + '.status', int(self.working[address]),
-                              self.labels, self.get_timestamp(), self.internal)
+                              labels, self.get_timestamp(), self.internal)
         return mdc
-- 
2.43.0


From 9e2b3fd2b4e9d3eb9c432d461d1e75fd174683af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:05 +0000
Subject: [PATCH 157/221] fix: sums and counts of internal histograms were
 exposed, those total were without labels

---
 .../metrics/metric_types/histogram.py                | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/satella/instrumentation/metrics/metric_types/histogram.py b/satella/instrumentation/metrics/metric_types/histogram.py
index 6b1fbe3..9820b6f 100644
--- a/satella/instrumentation/metrics/metric_types/histogram.py
+++ b/satella/instrumentation/metrics/metric_types/histogram.py
@@ -60,14 +60,18 @@ class HistogramMetric(EmbeddedSubmetrics, MeasurableMixin):
             if self.aggregate_children:
                 mdc = self.containers_to_metric_data()
                 mdc.postfix_with('total')
-                mdc += MetricData(self.name + '.total.sum', self.sum, {}, self.get_timestamp())
-                mdc += MetricData(self.name + '.total.count', self.count, {}, self.get_timestamp())
+                mdc += MetricData(self.name + '.total.sum', self.sum, self.labels, self.get_timestamp(),
+                                  self.internal)
+                mdc += MetricData(self.name + '.total.count', self.count, self.labels,
+                                  self.get_timestamp(), self.internal)
                 k += mdc
             return k
 
         mdc = self.containers_to_metric_data()
-        mdc += MetricData(self.name + '.sum', self.sum, self.labels, self.get_timestamp())
-        mdc += MetricData(self.name + '.count', self.count, self.labels, self.get_timestamp())
+        mdc += MetricData(self.name + '.sum', self.sum, self.labels, self.get_timestamp(),
+                          self.internal)
+        mdc += MetricData(self.name + '.count', self.count, self.labels, self.get_timestamp(),
+                          self.internal)
         return mdc
 
     def containers_to_metric_data(self) -> MetricDataCollection:
-- 
2.43.0


From c4639aa53c9074347d1f4652f419c8713bf0c09c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:05 +0000
Subject: [PATCH 158/221] fix: reading a cps metric failed if it was clicked at
 the same time

---
 satella/instrumentation/metrics/metric_types/cps.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/satella/instrumentation/metrics/metric_types/cps.py b/satella/instrumentation/metrics/metric_types/cps.py
index 72ef9e5..0611ba5 100644
--- a/satella/instrumentation/metrics/metric_types/cps.py
+++ b/satella/instrumentation/metrics/metric_types/cps.py
@@ -58,7 +58,7 @@ class ClicksPerTimeUnitMetric(EmbeddedSubmetrics):
 
                 return k + sum_data
 
-        return self.count_vectors(self.last_clicks)
+        return self.count_vectors(list(self.last_clicks))
 
     def count_vectors(self, last_clicks) -> MetricDataCollection:
         count_map = [0] * len(self.time_unit_vectors)
-- 
2.43.0


From 9b1ebaf7d63275a4c74c26e546898404a560a456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:05 +0000
Subject: [PATCH 159/221] fix: measuring a future twice measured it from the
 second call only

---
 .../instrumentation/metrics/metric_types/measurable_mixin.py  | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/satella/instrumentation/metrics/metric_types/measurable_mixin.py b/satella/instrumentation/metrics/metric_types/measurable_mixin.py
index 5b3c519..a27f437 100644
--- a/satella/instrumentation/metrics/metric_types/measurable_mixin.py
+++ b/satella/instrumentation/metrics/metric_types/measurable_mixin.py
@@ -28,10 +28,10 @@ class MeasurableMixin:
             the value
         :param labels: extra labels to call handle() with
         """
-        future.old_value = value_getter()
+        old_value = value_getter()
 
         def on_future_done(fut: Future):
-            self.handle(logging_level, value_getter() - fut.old_value, **labels)
+            self.handle(logging_level, value_getter() - old_value, **labels)
 
         future.add_done_callback(on_future_done)
 
-- 
2.43.0


From 7ee3634b9872dcabc21c94fefa50c27657a77f7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:05 +0000
Subject: [PATCH 160/221] fix: a measured generator lost its return value

---
 .../instrumentation/metrics/metric_types/measurable_mixin.py    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/satella/instrumentation/metrics/metric_types/measurable_mixin.py b/satella/instrumentation/metrics/metric_types/measurable_mixin.py
index a27f437..7d7870e 100644
--- a/satella/instrumentation/metrics/metric_types/measurable_mixin.py
+++ b/satella/instrumentation/metrics/metric_types/measurable_mixin.py
@@ -100,7 +100,7 @@ class MeasurableMixin:
                     start_value = value_getter()
                     excepted = None
                     try:
-                        yield from fun(*args, **kwargs)
+                        return (yield from fun(*args, **kwargs))
                     except Exception as e:
                         excepted = e
                     finally:
-- 
2.43.0


From 2f0e16df5ee2999373ccf6b265ebf6e89ff5ab15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:05 +0000
Subject: [PATCH 161/221] fix: measure(include_exceptions=False) included
 exceptions other than Exception

---
 .../instrumentation/metrics/metric_types/measurable_mixin.py    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/satella/instrumentation/metrics/metric_types/measurable_mixin.py b/satella/instrumentation/metrics/metric_types/measurable_mixin.py
index 7d7870e..465d862 100644
--- a/satella/instrumentation/metrics/metric_types/measurable_mixin.py
+++ b/satella/instrumentation/metrics/metric_types/measurable_mixin.py
@@ -83,7 +83,7 @@ class MeasurableMixin:
                     excepted = None
                     try:
                         return fun(*args, **kwargs)
-                    except Exception as e:
+                    except BaseException as e:
                         excepted = e
                     finally:
                         value_taken = self.value_getter() - start_value
-- 
2.43.0


From 2fcfe9e788bae78c35aa5fab12d7b988f503a441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:35 +0000
Subject: [PATCH 162/221] fix: values handled by a metric in several threads at
 once were lost

---
 satella/instrumentation/metrics/metric_types/base.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/satella/instrumentation/metrics/metric_types/base.py b/satella/instrumentation/metrics/metric_types/base.py
index cbe6bf3..167bb0d 100644
--- a/satella/instrumentation/metrics/metric_types/base.py
+++ b/satella/instrumentation/metrics/metric_types/base.py
@@ -1,4 +1,5 @@
 import enum
+import threading
 import time
 import typing as tp
 
@@ -33,7 +34,7 @@ class Metric:
     :param internal: if True, this metric won't be visible in exporters
     """
     __slots__ = ('name', 'root_metric', 'internal', '_level', 'enable_timestamp',
-                 'last_updated', 'children')
+                 'last_updated', 'children', 'handle_lock')
 
     CLASS_NAME = 'base'
 
@@ -85,6 +86,7 @@ class Metric:
                 self.name == '' and self.level == MetricLevel.INHERIT), \
             'Unable to set INHERIT for root metric!'
         self.children = []  # type: tp.List[Metric]
+        self.handle_lock = threading.RLock()
 
     def get_timestamp(self) -> tp.Optional[float]:
         """Return this timestamp, or None if no timestamp support is enabled"""
@@ -137,9 +139,10 @@ class Metric:
     @for_argument(None, MetricLevel)
     def handle(self, level: tp.Union[int, MetricLevel], *args, **kwargs) -> None:
         if self.can_process_this_level(level):
-            if self.enable_timestamp:
-                self.last_updated = time.time()
-            self._handle(*args, **kwargs)
+            with self.handle_lock:
+                if self.enable_timestamp:
+                    self.last_updated = time.time()
+                self._handle(*args, **kwargs)
 
     def debug(self, *args, **kwargs):
         self.handle(MetricLevel.DEBUG, *args, **kwargs)
-- 
2.43.0


From ecc2ab9c94c80ad1d1b298c3993e83f830464e2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:17 +0000
Subject: [PATCH 163/221] fix: a metric that was reset was no longer the one
 that getMetric() gives, but was still reported by its parent

---
 .../metrics/metric_types/base.py              | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/satella/instrumentation/metrics/metric_types/base.py b/satella/instrumentation/metrics/metric_types/base.py
index 167bb0d..64d1f08 100644
--- a/satella/instrumentation/metrics/metric_types/base.py
+++ b/satella/instrumentation/metrics/metric_types/base.py
@@ -55,14 +55,16 @@ class Metric:
         from satella.instrumentation import metrics
         if self.name == '':
             with metrics.metrics_lock:
-                metrics.metrics = {}
-                metrics.level = MetricLevel.RUNTIME
+                metrics.metrics = {'': self}
+                self._level = MetricLevel.RUNTIME
+                self.children = []
         else:
+            name = self.get_fully_qualified_name()
             with metrics.metrics_lock:
-                metrics.metrics = {k: v for k, v in metrics.metrics.items() if
-                                   not k.startswith(self.get_fully_qualified_name() + '.')}
-                del metrics.metrics[self.get_fully_qualified_name()]
-        self.children = []
+                if metrics.metrics.get(name) is self:
+                    metrics.metrics = {k: v for k, v in metrics.metrics.items() if
+                                       not k.startswith(name + '.')}
+                self.children = []
 
     def __init__(self, name, root_metric: 'Metric' = None,
                  metric_level: tp.Optional[tp.Union[MetricLevel, int]] = None,
@@ -199,6 +201,11 @@ class EmbeddedSubmetrics(LeafMetric):
         self.children_mapping = {}  # type: tp.Dict[tp.Any, Metric]
         self.last_updated = time.time()  # type: float
 
+    def reset(self) -> None:
+        with self.handle_lock:
+            super().reset()
+            self.children_mapping = {}
+
     def _handle(self, *args, **labels):
         if self.enable_timestamp:
             self.last_updated = time.time()
-- 
2.43.0


From 01dad7feb90fdaf99e271613c5904dcc7c4f9589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:17 +0000
Subject: [PATCH 164/221] fix: getMetric() for a child of a leaf metric, that
 failed, would succeed the next time with a metric reported nowhere

---
 satella/instrumentation/metrics/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/satella/instrumentation/metrics/__init__.py b/satella/instrumentation/metrics/__init__.py
index 64553ac..ade53bc 100644
--- a/satella/instrumentation/metrics/__init__.py
+++ b/satella/instrumentation/metrics/__init__.py
@@ -49,9 +49,9 @@ def _process_metric(name, name_index, metric_level, metric_level_to_set_for_chil
         else:
             metric = Metric(name_part, root_metric, metric_level_to_set_for_children,
                             **kwargs)
-        metrics[tentative_name] = metric
         if metric != root_metric:  # prevent infinite recursion errors
             root_metric.append_child(metric)
+        metrics[tentative_name] = metric
     else:
         metric = metrics[tentative_name]
     root_metric = metric
-- 
2.43.0


From 283c6005aed31ff857274f1c02f9f3a9a427cfe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:17 +0000
Subject: [PATCH 165/221] fix: getMetric() accepted names with letters that
 become ASCII in upper case

---
 satella/instrumentation/metrics/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/satella/instrumentation/metrics/__init__.py b/satella/instrumentation/metrics/__init__.py
index ade53bc..11898fb 100644
--- a/satella/instrumentation/metrics/__init__.py
+++ b/satella/instrumentation/metrics/__init__.py
@@ -28,7 +28,7 @@ def adjust_metric_level_for_root(metric_level: tp.Optional[MetricLevel],
         return metric_level_to_set_for_children
 
 
-ALLOWED_CHARACTERS = string.ascii_uppercase + string.digits + ':' + '_' + '.'
+ALLOWED_CHARACTERS = string.ascii_letters + string.digits + ':' + '_' + '.'
 
 
 def _process_metric(name, name_index, metric_level, metric_level_to_set_for_children, name_part, root_metric,
@@ -72,7 +72,7 @@ def getMetric(metric_name: str = '',
     :raise MetricAlreadyExists: a metric having this name already exists, but with a different type
     :raise ValueError: metric name contains a forbidden character
     """
-    for character in metric_name.upper():
+    for character in metric_name:
         if character not in ALLOWED_CHARACTERS:
             raise ValueError('Metric name contains a forbidden character %s' % (character,))
 
-- 
2.43.0


From 12223fcc9634cb6a3f46231afd15a4fc02b62cfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:17 +0000
Subject: [PATCH 166/221] fix: arguments of a metric were given to its parents,
 which would then overwrite timestamps of all of their children

---
 satella/instrumentation/metrics/__init__.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/satella/instrumentation/metrics/__init__.py b/satella/instrumentation/metrics/__init__.py
index 11898fb..2822841 100644
--- a/satella/instrumentation/metrics/__init__.py
+++ b/satella/instrumentation/metrics/__init__.py
@@ -40,15 +40,14 @@ def _process_metric(name, name_index, metric_level, metric_level_to_set_for_chil
                             None,
                             adjust_metric_level_for_root(metric_level,
                                                          metric_level_to_set_for_children),
-                            **kwargs)
+                            **(kwargs if metric_name == '' else {}))
             metric.level = MetricLevel.RUNTIME
             root_metric = metric
         elif metric_name == tentative_name:
             metric = METRIC_NAMES_TO_CLASSES[metric_type](name_part, root_metric,
                                                           metric_level, **kwargs)
         else:
-            metric = Metric(name_part, root_metric, metric_level_to_set_for_children,
-                            **kwargs)
+            metric = Metric(name_part, root_metric, metric_level_to_set_for_children)
         if metric != root_metric:  # prevent infinite recursion errors
             root_metric.append_child(metric)
         metrics[tentative_name] = metric
-- 
2.43.0


From 89c4317934aab53c2abe00b80528c7c6988697ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:44 +0000
Subject: [PATCH 167/221] fix: MetrifiedExclusiveWritebackCache reported
 nothing, or failed to report, entries waiting

---
 satella/instrumentation/metrics/structures/cache_dict.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/satella/instrumentation/metrics/structures/cache_dict.py b/satella/instrumentation/metrics/structures/cache_dict.py
index f1b1d46..8558409 100644
--- a/satella/instrumentation/metrics/structures/cache_dict.py
+++ b/satella/instrumentation/metrics/structures/cache_dict.py
@@ -136,7 +136,7 @@ class MetrifiedExclusiveWritebackCache(ExclusiveWritebackCache[K, V]):
         self.cache_miss = cache_miss
         self.cache_hits = cache_hits
         if entries_waiting is not None:
-            entries_waiting.callable = self.get_queue_length()
+            entries_waiting.callable = self.get_queue_length
 
     def __getitem__(self, item):
         if item in self.in_cache:
-- 
2.43.0


From 62ad016760335d1cb6fbd85d7fb5e22c8023775a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:44 +0000
Subject: [PATCH 168/221] fix: tasks of a MetrifiedThreadPoolExecutor that was
 garbage collected were never executed

---
 .../metrics/structures/threadpool.py            | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/satella/instrumentation/metrics/structures/threadpool.py b/satella/instrumentation/metrics/structures/threadpool.py
index 356bcdc..c13ea38 100644
--- a/satella/instrumentation/metrics/structures/threadpool.py
+++ b/satella/instrumentation/metrics/structures/threadpool.py
@@ -17,7 +17,8 @@ from satella.time import measure
 from satella.instrumentation.metrics.metric_types import EmptyMetric, MetricLevel, CallableMetric
 
 
-def _worker(executor_reference, work_queue, initializer, initargs):
+def _worker(executor_reference, work_queue, initializer, initargs, waiting_time_metric,
+            executing_time_metric, metric_level):
     if initializer is not None:
         try:
             initializer(*initargs)
@@ -32,21 +33,18 @@ def _worker(executor_reference, work_queue, initializer, initargs):
             work_item = work_queue.get(block=True)
             if work_item is not None:
                 # Measure the time spent in waiting
-                executor = executor_reference()
                 work_item.measure.stop()
-                executor.waiting_time_metric.handle(executor.metric_level, work_item.measure())
-                del executor
+                waiting_time_metric.handle(metric_level, work_item.measure())
 
                 with measure() as measurement:
                     work_item.run()
 
-                executor = executor_reference()
-                executor.executing_time_metric.handle(executor.metric_level, measurement())
+                executing_time_metric.handle(metric_level, measurement())
                 # Delete references to object. See issue16284
                 del work_item
 
                 # attempt to increment idle count
-
+                executor = executor_reference()
                 if executor is not None:
                     executor._idle_semaphore.release()      # pylint: disable=protected-access
                 del executor
@@ -165,7 +163,10 @@ class MetrifiedThreadPoolExecutor(ThreadPoolExecutor):
                                  args=(weakref.ref(self, weakref_cb),
                                        self._work_queue,
                                        self._initializer,
-                                       self._initargs))
+                                       self._initargs,
+                                       self.waiting_time_metric,
+                                       self.executing_time_metric,
+                                       self.metric_level))
             t.daemon = True
             t.start()
             self._threads.add(t)
-- 
2.43.0


From 9c4ab7ad4cf964dde0c3d66d7a7eeda2b6834173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:44 +0000
Subject: [PATCH 169/221] fix: MetrifiedThreadPoolExecutor ignored
 thread_name_prefix

---
 satella/instrumentation/metrics/structures/threadpool.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/satella/instrumentation/metrics/structures/threadpool.py b/satella/instrumentation/metrics/structures/threadpool.py
index c13ea38..46dbd47 100644
--- a/satella/instrumentation/metrics/structures/threadpool.py
+++ b/satella/instrumentation/metrics/structures/threadpool.py
@@ -97,7 +97,7 @@ class MetrifiedThreadPoolExecutor(ThreadPoolExecutor):
         self._initargs = initargs
         self._idle_semaphore = threading.Semaphore(0)
         self._broken = False
-        if not hasattr(self, '_thread_name_prefix'):
+        if thread_name_prefix or not hasattr(self, '_thread_name_prefix'):
             self._thread_name_prefix = thread_name_prefix or ("ThreadPoolExecutor-%d" %
                                                               self._counter())
         self.waiting_time_metric = time_spent_waiting or EmptyMetric('')
-- 
2.43.0


From b02c42dac1ccf76040a40a555c2baf58f7e136ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:59 +0000
Subject: [PATCH 170/221] fix: measure(include_exceptions=False) included
 exceptions of generators other than Exception

---
 .../instrumentation/metrics/metric_types/measurable_mixin.py  | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/satella/instrumentation/metrics/metric_types/measurable_mixin.py b/satella/instrumentation/metrics/metric_types/measurable_mixin.py
index 465d862..1f4e0a6 100644
--- a/satella/instrumentation/metrics/metric_types/measurable_mixin.py
+++ b/satella/instrumentation/metrics/metric_types/measurable_mixin.py
@@ -101,7 +101,9 @@ class MeasurableMixin:
                     excepted = None
                     try:
                         return (yield from fun(*args, **kwargs))
-                    except Exception as e:
+                    except GeneratorExit:   # the consumer has had enough
+                        raise
+                    except BaseException as e:
                         excepted = e
                     finally:
                         value_taken = value_getter() - start_value
-- 
2.43.0


From 9005ef6833349e2ed01e52efb1343137274d23dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:33:57 +0000
Subject: [PATCH 171/221] fix: MetrifiedLRUCacheDict counted evictions of keys
 that were not there

---
 satella/instrumentation/metrics/structures/cache_dict.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/satella/instrumentation/metrics/structures/cache_dict.py b/satella/instrumentation/metrics/structures/cache_dict.py
index 8558409..93ddd95 100644
--- a/satella/instrumentation/metrics/structures/cache_dict.py
+++ b/satella/instrumentation/metrics/structures/cache_dict.py
@@ -110,9 +110,11 @@ class MetrifiedLRUCacheDict(LRUCacheDict[K, V]):
         self.how_long_refresh_takes = how_long_refresh_takes
 
     def evict(self):
-        if self.evictions is not None:
-            self.evictions.runtime(+1)
+        length = len(self)
         super().evict()
+        # only a key that was found missing might have been forgotten
+        if self.evictions is not None and len(self) < length:
+            self.evictions.runtime(+1)
 
     def __getitem__(self, item):
         if self.has_info_about(item):
-- 
2.43.0


From 6e87e30f4e1ca5f56ffba0519f4bd5681f0772ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:00:02 +0000
Subject: [PATCH 172/221] fix: LocalRelativeValue fired when there was plenty
 of memory instead of when there was too little

---
 satella/instrumentation/memory/conditions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/satella/instrumentation/memory/conditions.py b/satella/instrumentation/memory/conditions.py
index 18d94b9..a2645f1 100644
--- a/satella/instrumentation/memory/conditions.py
+++ b/satella/instrumentation/memory/conditions.py
@@ -118,7 +118,7 @@ class LocalRelativeValue(MemoryCondition):
     __slots__ = ()
 
     def can_fire(self, local_memory_data, local_maximum_consume: tp.Optional[int]) -> bool:
-        return local_memory_data.rss / local_maximum_consume < (1 - self.value / 100)
+        return local_memory_data.rss / local_maximum_consume > (1 - self.value / 100)
 
 
 class CustomCondition(BaseCondition):
-- 
2.43.0


From 4cf34b5effdfb72c9ab440b5a6f69eb61a9875c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:00:02 +0000
Subject: [PATCH 173/221] fix: Any and All of memory conditions failed for
 custom conditions that returned something else than a bool

---
 satella/instrumentation/memory/conditions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/satella/instrumentation/memory/conditions.py b/satella/instrumentation/memory/conditions.py
index a2645f1..6be5518 100644
--- a/satella/instrumentation/memory/conditions.py
+++ b/satella/instrumentation/memory/conditions.py
@@ -49,7 +49,7 @@ class OperationJoin(BaseCondition):
 
     def can_fire(self, local_memory_data, local_maximum_consume: tp.Optional[int]) -> bool:
         return functools.reduce(self._OPERATOR, (
-            condition.can_fire(local_memory_data, local_maximum_consume) for condition in
+            bool(condition.can_fire(local_memory_data, local_maximum_consume)) for condition in
             self.conditions), self._STARTING_VALUE)
 
 
-- 
2.43.0


From a7c8dd3b8a94a3433b77ebadac6cad8177024897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:00:02 +0000
Subject: [PATCH 174/221] fix: StoredVariableValue.from_json lost the pickled
 value

---
 satella/instrumentation/trace_back/classes.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/satella/instrumentation/trace_back/classes.py b/satella/instrumentation/trace_back/classes.py
index 31d8498..072d690 100644
--- a/satella/instrumentation/trace_back/classes.py
+++ b/satella/instrumentation/trace_back/classes.py
@@ -117,7 +117,8 @@ class StoredVariableValue(JSONAble):
         sv.pickle_type = x['pickle_type']
         if 'pickle' in x:
             sv.pickle = base64.b64decode(x['pickle'].encode('utf8'))
-        sv.pickle = None
+        else:
+            sv.pickle = None
         return sv
 
     def to_json(self) -> dict:
-- 
2.43.0


From 9f15bc66b3440bde23a2391d441d125b8ec59b16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:00:02 +0000
Subject: [PATCH 175/221] fix: a Traceback could not be made if a variable
 failed to be repr()-ed

---
 satella/instrumentation/trace_back/classes.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/satella/instrumentation/trace_back/classes.py b/satella/instrumentation/trace_back/classes.py
index 072d690..dff32cc 100644
--- a/satella/instrumentation/trace_back/classes.py
+++ b/satella/instrumentation/trace_back/classes.py
@@ -82,6 +82,13 @@ class GenerationPolicy:
                 return r
 
 
+def _safe_repr(value: tp.Any) -> str:
+    try:
+        return repr(value)
+    except Exception as e:
+        return '<repr unavailable due to %s>' % (type(e).__name__,)
+
+
 class StoredVariableValue(JSONAble):
     """
     Class used to store a variable value. Picklable.
@@ -138,7 +145,7 @@ class StoredVariableValue(JSONAble):
         return self.repr
 
     def __init__(self, value: tp.Any, policy: tp.Optional[GenerationPolicy] = None):
-        self.repr = repr(value)  # type: str
+        self.repr = _safe_repr(value)  # type: str
         self.type_ = repr(type(value))  # type: str
 
         policy = policy or GenerationPolicy()
-- 
2.43.0


From d8f264b94bc0b4b8b324389d675e2ef6d6734b2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:00:02 +0000
Subject: [PATCH 176/221] fix: a Traceback could not be made if a reason for
 failing to be pickled could not be repr()-ed

---
 satella/instrumentation/trace_back/classes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/satella/instrumentation/trace_back/classes.py b/satella/instrumentation/trace_back/classes.py
index dff32cc..4833994 100644
--- a/satella/instrumentation/trace_back/classes.py
+++ b/satella/instrumentation/trace_back/classes.py
@@ -161,7 +161,7 @@ class StoredVariableValue(JSONAble):
                 self.pickle_type = 'pickle'
             except BaseException as e:
                 # yes, they all can happen!
-                self.pickle = repr((e,) + e.args).encode('utf8')
+                self.pickle = _safe_repr((e,) + e.args).encode('utf8')
                 self.pickle_type = "failed"
             else:
                 if policy.should_compress(self.pickle):
-- 
2.43.0


From 89378f550be80fa931e424995d018f31b80ff779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:00:02 +0000
Subject: [PATCH 177/221] fix: StoredVariableValue.load_value raised other
 exceptions than ValueError when the value could not be loaded

---
 satella/instrumentation/trace_back/classes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/satella/instrumentation/trace_back/classes.py b/satella/instrumentation/trace_back/classes.py
index 4833994..01cfba2 100644
--- a/satella/instrumentation/trace_back/classes.py
+++ b/satella/instrumentation/trace_back/classes.py
@@ -199,7 +199,7 @@ class StoredVariableValue(JSONAble):
 
         try:
             return pickle.loads(pickle_)
-        except pickle.UnpicklingError:
+        except Exception:
             raise ValueError(
                 'object picklable, but cannot load in this environment')
 
-- 
2.43.0


From dd03fd741f95e6cd39fdbe852209884817684745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:00:02 +0000
Subject: [PATCH 178/221] fix: DumpToFileHandler dumped its own stack frames
 instead of those of the exception for exceptions in the main thread

---
 satella/exception_handling/dump_to_file.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/satella/exception_handling/dump_to_file.py b/satella/exception_handling/dump_to_file.py
index de29404..382214f 100644
--- a/satella/exception_handling/dump_to_file.py
+++ b/satella/exception_handling/dump_to_file.py
@@ -6,10 +6,11 @@ import os
 import typing as tp
 import uuid
 from logging import Logger
+from traceback import format_exception
 
 from satella.coding import silence_excs
 from satella.files import DevNullFilelikeObject
-from satella.instrumentation import Traceback
+from satella.instrumentation import Traceback, frame_from_traceback
 from .exception_handlers import BaseExceptionHandler
 
 AsStreamTypeAccept = tp.Union[str, tp.IO, None, Logger, tp.Tuple[Logger, int]]
@@ -107,7 +108,12 @@ class DumpToFileHandler(BaseExceptionHandler):
 
     def handle_exception(self, type_, value, traceback) -> bool:
         try:
-            tb = Traceback()
+            if traceback is None:
+                tb = Traceback()
+            else:
+                # sys.exc_info() is not there when called by the interpreter's excepthook
+                tb = Traceback(frame_from_traceback(traceback))
+                tb.formatted_traceback = ''.join(format_exception(type_, value, traceback))
         except ValueError:
             return False  # no traceback, probably hit KeyboardInterrupt or SystemExit,
             # continue with it
-- 
2.43.0


From 51929a371c36dd3ef77a18088ec1db3ab6403b75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:00:02 +0000
Subject: [PATCH 179/221] fix: MemoryErrorExceptionHandler could be installed
 repeatedly, and install() did not return it

---
 satella/exception_handling/memerrhandler.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/satella/exception_handling/memerrhandler.py b/satella/exception_handling/memerrhandler.py
index 640fd33..09e9e59 100644
--- a/satella/exception_handling/memerrhandler.py
+++ b/satella/exception_handling/memerrhandler.py
@@ -34,6 +34,12 @@ class MemoryErrorExceptionHandler(BaseExceptionHandler):
 
         from .global_eh import GlobalExcepthook
         GlobalExcepthook().add_hook(self)
+        self.installed = True
+        return self
+
+    def uninstall(self):
+        super().uninstall()
+        self.installed = False
 
     def handle_exception(self, type_, value, traceback) -> tp.Optional[bool]:
         if not issubclass(type_, MemoryError):
-- 
2.43.0


From 3351ac0188797b329e4d38a84559d2a3f773a2bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:00:02 +0000
Subject: [PATCH 180/221] fix: CPUTimeAwareIntervalTerminableThread could not
 be given a time string

---
 satella/instrumentation/cpu_time/concurrency.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/satella/instrumentation/cpu_time/concurrency.py b/satella/instrumentation/cpu_time/concurrency.py
index 0f847ba..c61800c 100644
--- a/satella/instrumentation/cpu_time/concurrency.py
+++ b/satella/instrumentation/cpu_time/concurrency.py
@@ -30,7 +30,7 @@ class CPUTimeAwareIntervalTerminableThread(IntervalTerminableThread, metaclass=A
                  wakeup_interval: tp.Union[str, float] = '3s', *args, **kwargs):
         self.seconds = parse_time_string(seconds)
         self.wakeup_interval = parse_time_string(wakeup_interval)
-        self.max_sooner = max_sooner or seconds * 0.1
+        self.max_sooner = max_sooner or self.seconds * 0.1
         cp_bt = _CPUProfileBuilderThread.get_instance()
         cp_bt.request_percentile(percentile)
         self.percentile = percentile
-- 
2.43.0


From 8f7fd265a3109d5701832773fd7cd4d7d1860a42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:00:02 +0000
Subject: [PATCH 181/221] fix: CPUTimeAwareIntervalTerminableThread ran sooner
 even when given max_sooner of 0

---
 satella/instrumentation/cpu_time/concurrency.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/satella/instrumentation/cpu_time/concurrency.py b/satella/instrumentation/cpu_time/concurrency.py
index c61800c..86590f1 100644
--- a/satella/instrumentation/cpu_time/concurrency.py
+++ b/satella/instrumentation/cpu_time/concurrency.py
@@ -30,7 +30,7 @@ class CPUTimeAwareIntervalTerminableThread(IntervalTerminableThread, metaclass=A
                  wakeup_interval: tp.Union[str, float] = '3s', *args, **kwargs):
         self.seconds = parse_time_string(seconds)
         self.wakeup_interval = parse_time_string(wakeup_interval)
-        self.max_sooner = max_sooner or self.seconds * 0.1
+        self.max_sooner = self.seconds * 0.1 if max_sooner is None else max_sooner
         cp_bt = _CPUProfileBuilderThread.get_instance()
         cp_bt.request_percentile(percentile)
         self.percentile = percentile
-- 
2.43.0


From 9b85dafce9158f43dcd984c71df63a24f7cfe4d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:00:02 +0000
Subject: [PATCH 182/221] fix: asking for a CPU time percentile failed if it
 was requested as the profile was being rebuilt

---
 satella/instrumentation/cpu_time/collector.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/satella/instrumentation/cpu_time/collector.py b/satella/instrumentation/cpu_time/collector.py
index d64097a..9f0145a 100644
--- a/satella/instrumentation/cpu_time/collector.py
+++ b/satella/instrumentation/cpu_time/collector.py
@@ -43,7 +43,7 @@ class _CPUProfileBuilderThread(SingleStartThread):
         self.data = []
         self.process = psutil.Process(os.getpid())
         self.percentiles_requested = list(percentiles_requested)
-        self.percentile_values = []
+        self.percentile_values = {}
         self.percentiles_regenerated = False
         self.started = False
         self.own_load_average = collections.deque()  # typing: tuple[float, pCPUtimes]
@@ -90,8 +90,9 @@ class _CPUProfileBuilderThread(SingleStartThread):
     def percentile(self, percent: float) -> float:
         if not self.data:
             return 0
-        if percent in self.percentiles_requested and self.percentiles_regenerated:
-            return self.percentile_values[self.percentiles_requested.index(percent)]
+        values = self.percentile_values
+        if percent in values:
+            return values[percent]
         else:
             return percentile(self.data, percent)
 
@@ -105,10 +106,10 @@ class _CPUProfileBuilderThread(SingleStartThread):
         for _ in range(int(self.window_size)):
             time.sleep(1)
             data.append(calculate_occupancy_factor())
-        percentiles = []
+        percentiles = {}
         data.sort()
         for percent in self.percentiles_requested:
-            percentiles.append(percentile(data, percent))
+            percentiles[percent] = percentile(data, percent)
         self.percentile_values = percentiles
         self.percentiles_regenerated = True
         self.data = data
-- 
2.43.0


From 8fa0a79194e73d66d749302fa403a88c332d5f2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:00:02 +0000
Subject: [PATCH 183/221] fix: ResourceLocked raised by PIDFileLock lacked the
 attributes promised

---
 satella/os/pidlock.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/satella/os/pidlock.py b/satella/os/pidlock.py
index 177895c..46cd6a3 100644
--- a/satella/os/pidlock.py
+++ b/satella/os/pidlock.py
@@ -67,7 +67,10 @@ class PIDFileLock:
                 return self.acquire()
 
             if pid in {x.pid for x in psutil.process_iter()}:
-                raise ResourceLocked(pid)
+                exc = ResourceLocked(pid)
+                exc.pid = pid
+                exc.is_alive = True
+                raise exc
             else:
                 # does not exist
                 os.unlink(self.path)
-- 
2.43.0


From 98addb816fd61d4916c7b5b9a045794778cf40a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:00:02 +0000
Subject: [PATCH 184/221] fix: PIDFileLock could be acquired by two processes
 at once, or fail if it was released meanwhile

---
 satella/os/pidlock.py | 42 +++++++++++++++++++++++++++++++++++++-----
 1 file changed, 37 insertions(+), 5 deletions(-)

diff --git a/satella/os/pidlock.py b/satella/os/pidlock.py
index 46cd6a3..a66ca78 100644
--- a/satella/os/pidlock.py
+++ b/satella/os/pidlock.py
@@ -1,10 +1,35 @@
+import contextlib
 import os
 
 import psutil
 
+try:
+    import fcntl
+except ImportError:
+    fcntl = None        # Windows
+
 from satella.exceptions import ResourceLocked
 
 
+@contextlib.contextmanager
+def _locked_directory(directory: str):
+    """
+    Hold an advisory lock on a directory, so that a single process examines the PID file at a time.
+    """
+    fd = None
+    if fcntl is not None:
+        with contextlib.suppress(OSError):
+            fd = os.open(directory or '.', os.O_RDONLY)
+    if fd is None:
+        yield
+        return
+    try:
+        fcntl.flock(fd, fcntl.LOCK_EX)
+        yield
+    finally:
+        os.close(fd)
+
+
 class PIDFileLock:
     """
     Acquire a PID lock file.
@@ -54,17 +79,24 @@ class PIDFileLock:
 
         :raises ResourceLocked: if lock if held
         """
+        with _locked_directory(os.path.dirname(self.path)):
+            return self._acquire()
+
+    def _acquire(self) -> None:
         try:
             self.file_no = os.open(self.path, os.O_CREAT | os.O_EXCL | os.O_WRONLY)
-        except (OSError, FileExistsError):
-            with open(self.path, 'r') as fin:
-                data = fin.read().strip()
+        except FileExistsError:
+            try:
+                with open(self.path, 'r') as fin:
+                    data = fin.read().strip()
+            except FileNotFoundError:
+                return self._acquire()      # it was released in the meantime
 
             try:
                 pid = int(data)
             except ValueError:
                 os.unlink(self.path)
-                return self.acquire()
+                return self._acquire()
 
             if pid in {x.pid for x in psutil.process_iter()}:
                 exc = ResourceLocked(pid)
@@ -74,7 +106,7 @@ class PIDFileLock:
             else:
                 # does not exist
                 os.unlink(self.path)
-                return self.acquire()
+                return self._acquire()
 
         fd = os.fdopen(self.file_no, 'w')
         fd.write(str(os.getpid()) + '\n')
-- 
2.43.0


From fe41c135f0f24545d257fe085e5df09945a67046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:00:02 +0000
Subject: [PATCH 185/221] fix: hang_until_sig did not release on SIGINT, and
 did not restore handlers properly if SIGTERM was given explicitly

---
 satella/os/signals.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/satella/os/signals.py b/satella/os/signals.py
index 7b0ba87..a5fc483 100644
--- a/satella/os/signals.py
+++ b/satella/os/signals.py
@@ -27,21 +27,19 @@ def hang_until_sig(extra_signals: tp.Optional[tp.Sequence[int]] = None,
     global end
     extra_signals = extra_signals or ()
 
-    old_term = signal.getsignal(signal.SIGTERM)
-    olds = []
+    signals = set(extra_signals)
+    signals.update((signal.SIGTERM, signal.SIGINT))
+    olds = [(s, signal.getsignal(s)) for s in signals]
 
     # Set the signal handler
-    signal.signal(signal.SIGTERM, __sighandler)
-    for s in extra_signals:
-        olds.append(signal.getsignal(s))
+    for s in signals:
         signal.signal(s, __sighandler)
 
     while not end:
         sleep(sleep_interval, True)
 
     # Unset the signal handler
-    signal.signal(signal.SIGTERM, old_term)
-    for s, old_handler in zip(extra_signals, olds):
+    for s, old_handler in olds:
         signal.signal(s, old_handler)
 
     end = False  # reset for next use
-- 
2.43.0


From 4816b4bc73684e1f0e80dada5cefd576adaaaeda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:00:02 +0000
Subject: [PATCH 186/221] fix: printing failed after daemonize(), as standard
 streams were replaced with binary ones

---
 satella/os/daemon.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/satella/os/daemon.py b/satella/os/daemon.py
index 8a394f1..8f56316 100644
--- a/satella/os/daemon.py
+++ b/satella/os/daemon.py
@@ -71,9 +71,9 @@ def _parse_ug(no: tp.Union[str, int], module: types.ModuleType, field_name: str,
 
 
 def _redirect_descriptors_to_null() -> None:
-    sys.stdin = open(DEVNULL, 'rb')
-    sys.stdout = open(DEVNULL, 'wb')
-    sys.stderr = open(DEVNULL, 'wb')
+    sys.stdin = open(DEVNULL, 'r')
+    sys.stdout = open(DEVNULL, 'w')
+    sys.stderr = open(DEVNULL, 'w')
 
 
 def _close_descriptors() -> None:
-- 
2.43.0


From e3790de15cbf5b7a529fc8bf8207f8a8fb158af8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:00:02 +0000
Subject: [PATCH 187/221] fix: daemonize() given both an user and a group could
 not set the group

---
 satella/os/daemon.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/satella/os/daemon.py b/satella/os/daemon.py
index 8f56316..8782b4c 100644
--- a/satella/os/daemon.py
+++ b/satella/os/daemon.py
@@ -58,8 +58,9 @@ def daemonize(exit_via: tp.Callable = sys.exit,
     if redirect_std_to_devnull:
         _redirect_descriptors_to_null()
 
-    _parse_ug(uid, pwd, 'pw_uid', os.seteuid)
+    # group goes first, as the privilege to set it is lost along with the user
     _parse_ug(gid, grp, 'gr_gid', os.setegid)
+    _parse_ug(uid, pwd, 'pw_uid', os.seteuid)
 
 
 def _parse_ug(no: tp.Union[str, int], module: types.ModuleType, field_name: str,
-- 
2.43.0


From 100594b79d8b11c583bba61ff663a55e61172f2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:00:02 +0000
Subject: [PATCH 188/221] fix: daemonize() failed if group was given as a name

---
 satella/os/daemon.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/satella/os/daemon.py b/satella/os/daemon.py
index 8782b4c..d6092eb 100644
--- a/satella/os/daemon.py
+++ b/satella/os/daemon.py
@@ -1,6 +1,5 @@
 import os
 import sys
-import types
 import typing as tp
 
 try:
@@ -59,15 +58,15 @@ def daemonize(exit_via: tp.Callable = sys.exit,
         _redirect_descriptors_to_null()
 
     # group goes first, as the privilege to set it is lost along with the user
-    _parse_ug(gid, grp, 'gr_gid', os.setegid)
-    _parse_ug(uid, pwd, 'pw_uid', os.seteuid)
+    _parse_ug(gid, grp.getgrnam, 'gr_gid', os.setegid)
+    _parse_ug(uid, pwd.getpwnam, 'pw_uid', os.seteuid)
 
 
-def _parse_ug(no: tp.Union[str, int], module: types.ModuleType, field_name: str,
+def _parse_ug(no: tp.Union[str, int], lookup: tp.Callable[[str], tp.Any], field_name: str,
               osfun: tp.Callable[[int], None]) -> None:
     if no is not None:
         if isinstance(no, str):
-            no = getattr(module.getpwnam(no), field_name)
+            no = getattr(lookup(no), field_name)
         osfun(no)
 
 
-- 
2.43.0


From 3893d838436dcf5169396324ea691cdf6ef6c852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:00:02 +0000
Subject: [PATCH 189/221] fix: whereis() returned directories, and missed
 executables with a setuid bit only

---
 satella/os/misc.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/satella/os/misc.py b/satella/os/misc.py
index 10377d6..da40172 100644
--- a/satella/os/misc.py
+++ b/satella/os/misc.py
@@ -48,7 +48,8 @@ def _whereis(directory: str, name, available_extensions):
     for file in safe_listdir(directory):
         path = os.path.join(directory, file)
         with silence_excs(FileNotFoundError):
-            if 'x' in stat.filemode(os.stat(path).st_mode):
+            mode = os.stat(path).st_mode
+            if stat.S_ISREG(mode) and mode & 0o111:
                 if sys.platform.startswith('win'):  # a POSIX-specific check
                     file = file.upper()  # paths are not case-sensitive on Windows
 
-- 
2.43.0


From a03d4b7d54a0e2267c9662d124eaa18f1271536c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:00:02 +0000
Subject: [PATCH 190/221] fix: read_nowait read nothing until the process
 finished, so that one with a lot of output would hang

---
 satella/processes.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/satella/processes.py b/satella/processes.py
index c60c225..e43a6c2 100644
--- a/satella/processes.py
+++ b/satella/processes.py
@@ -25,13 +25,11 @@ def read_nowait(process: subprocess.Popen, output_list: tp.List[str]):
     This thread will terminate automatically after the process closes it's stdout or finishes.
     """
     while True:
-        with silence_excs(subprocess.TimeoutExpired):
-            process.wait(timeout=0.1)
-            line = process.stdout.read(2048)
-            if line:
-                output_list.append(line)
-            else:
-                break
+        line = process.stdout.read(2048)
+        if line:
+            output_list.append(line)
+        else:
+            break
 
 
 def call_and_return_stdout(args: tp.Union[str, tp.List[str]],
-- 
2.43.0


From 5a17b644e3e6126e5b11a3f519a591b5dd42dce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:00:02 +0000
Subject: [PATCH 191/221] fix: call_and_return_stdout failed if a character was
 split between reads

---
 satella/processes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/satella/processes.py b/satella/processes.py
index e43a6c2..66041a9 100644
--- a/satella/processes.py
+++ b/satella/processes.py
@@ -82,7 +82,7 @@ def call_and_return_stdout(args: tp.Union[str, tp.List[str]],
     if encoding is None:
         result = b''.join(stdout_list)
     else:
-        result = ''.join((row.decode(encoding) for row in stdout_list))
+        result = b''.join(stdout_list).decode(encoding)
 
     if expected_return_code is not None:
         if proc.returncode != expected_return_code:
-- 
2.43.0


From 5fb1d8afa2578175067072679843c54145120414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:03:53 +0000
Subject: [PATCH 192/221] fix: DumpToFileHandler did not tell loggers about
 values of variables

---
 satella/exception_handling/dump_to_file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/satella/exception_handling/dump_to_file.py b/satella/exception_handling/dump_to_file.py
index 382214f..434405d 100644
--- a/satella/exception_handling/dump_to_file.py
+++ b/satella/exception_handling/dump_to_file.py
@@ -120,7 +120,7 @@ class DumpToFileHandler(BaseExceptionHandler):
 
         for q in self.hr:
             if q.mode == StreamType.MODE_LOGGER:
-                q.logger.log(q.level, str(value), exc_info=value, stack_info=tb.pretty_format())
+                q.logger.log(q.level, '%s\n%s', value, tb.pretty_format(), exc_info=value)
             else:
                 with q as f:
                     f.write('Unhandled exception caught: \n')
-- 
2.43.0


From 5965ade00ea2322632b1a3901ac41c78b6687a87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:04:46 +0000
Subject: [PATCH 193/221] fix: DumpToFileHandler failed with None given as a
 target for pickles

---
 satella/exception_handling/dump_to_file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/satella/exception_handling/dump_to_file.py b/satella/exception_handling/dump_to_file.py
index 434405d..9257c5e 100644
--- a/satella/exception_handling/dump_to_file.py
+++ b/satella/exception_handling/dump_to_file.py
@@ -68,7 +68,7 @@ class AsStream:
         elif self.mode == StreamType.MODE_STREAM:
             return self.o
         elif self.mode == StreamType.MODE_DEVNULL:
-            self.o = DevNullFilelikeObject()
+            self.o = DevNullFilelikeObject(binary=not self.human_readable)
             return self.o
 
     def __exit__(self, exc_type, exc_val, exc_tp):
-- 
2.43.0


From aaedc803607fd9d7111fb551d6f92d1c0ecaf495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:36 +0000
Subject: [PATCH 194/221] fix: repr() of a tainted object failed

---
 satella/debug/tainting/tainteds.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/satella/debug/tainting/tainteds.py b/satella/debug/tainting/tainteds.py
index 5f04002..373f8af 100644
--- a/satella/debug/tainting/tainteds.py
+++ b/satella/debug/tainting/tainteds.py
@@ -79,8 +79,7 @@ class TaintedObject(tp.Generic[T]):
     def __call__(self, *args, **kwargs):
         return taint(self.__v(*args, **kwargs))
 
-    @might_accept_tainted(taint_result=True)
-    def __repr__(self) -> str:
+    def __repr__(self) -> str:  # it must be a str otherwise Python will complain
         return '%s TAINTED' % str(self.__v)
 
     @might_accept_tainted(taint_result=True)
-- 
2.43.0


From d5eca83ea37e785d12fc9beeb4a18648668771b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:36 +0000
Subject: [PATCH 195/221] fix: result of != upon tainted objects was not
 tainted

---
 satella/debug/tainting/tainteds.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/satella/debug/tainting/tainteds.py b/satella/debug/tainting/tainteds.py
index 373f8af..6bdb8b3 100644
--- a/satella/debug/tainting/tainteds.py
+++ b/satella/debug/tainting/tainteds.py
@@ -108,6 +108,10 @@ class TaintedObject(tp.Generic[T]):
     def __eq__(self, other) -> bool:
         return self.__v == other
 
+    @might_accept_tainted(taint_result=True)
+    def __ne__(self, other) -> bool:
+        return self.__v != other
+
     @might_accept_tainted(taint_result=True)
     def __gt__(self, other) -> bool:
         return self.__v > other
-- 
2.43.0


From 2f4b3fb5b8d73f913c7ddc2cc8c1060f865a4d2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:36 +0000
Subject: [PATCH 196/221] fix: attributes of tainted objects could not be set
 nor deleted

---
 satella/debug/tainting/tainteds.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/satella/debug/tainting/tainteds.py b/satella/debug/tainting/tainteds.py
index 6bdb8b3..109d173 100644
--- a/satella/debug/tainting/tainteds.py
+++ b/satella/debug/tainting/tainteds.py
@@ -63,7 +63,10 @@ class TaintedObject(tp.Generic[T]):
         if key == '_TaintedObject__environment' or key == '_TaintedObject__v':
             super().__setattr__(key, value)
         else:
-            super().__setattr__(key, taint(value))
+            setattr(self.__v, key, taint(value))
+
+    def __delattr__(self, key: str):
+        delattr(self.__v, key)
 
     def __iter__(self) -> tp.Iterator[TaintedObject[T]]:
         for item in self.__v:
-- 
2.43.0


From 90413b1963cc9f26d1709a3ec3392bffa7cff808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:36 +0000
Subject: [PATCH 197/221] fix: tainting a class raised TypeError

---
 satella/debug/tainting/tainteds.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/satella/debug/tainting/tainteds.py b/satella/debug/tainting/tainteds.py
index 109d173..4749cb2 100644
--- a/satella/debug/tainting/tainteds.py
+++ b/satella/debug/tainting/tainteds.py
@@ -56,7 +56,7 @@ class TaintedObject(tp.Generic[T]):
                     dict_to_transform = v.__dict__
                 for key in dict_to_transform:
                     dict_to_transform[key] = taint(dict_to_transform[key])
-            except AttributeError:
+            except (AttributeError, TypeError):
                 pass  # must have been a primitive type
 
     def __setattr__(self, key: str, value: tp.Any):
-- 
2.43.0


From 635a43b9a3847eef6b6b3019cb63d754a4415381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:36 +0000
Subject: [PATCH 198/221] fix: tainted integers could not be used as indices,
 and bytearrays could not be tainted

---
 satella/debug/tainting/tainteds.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/satella/debug/tainting/tainteds.py b/satella/debug/tainting/tainteds.py
index 4749cb2..264e36c 100644
--- a/satella/debug/tainting/tainteds.py
+++ b/satella/debug/tainting/tainteds.py
@@ -1,6 +1,7 @@
 from __future__ import annotations
 
 import functools
+import operator
 import typing as tp
 
 from satella.coding.typing import T
@@ -98,6 +99,9 @@ class TaintedObject(tp.Generic[T]):
     def __int__(self) -> int:
         return int(self.__v)
 
+    def __index__(self) -> int:
+        return operator.index(self.__v)
+
     def __float__(self) -> float:
         return float(self.__v)
 
-- 
2.43.0


From e48dfa2dc59d581d267dc50f97da938ef8c0af8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:36 +0000
Subject: [PATCH 199/221] fix: +=, -= and *= upon a tainted immutable changed
 every variable that referred to it

---
 satella/debug/tainting/tainteds.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/satella/debug/tainting/tainteds.py b/satella/debug/tainting/tainteds.py
index 264e36c..85dd9ab 100644
--- a/satella/debug/tainting/tainteds.py
+++ b/satella/debug/tainting/tainteds.py
@@ -135,6 +135,9 @@ class TaintedObject(tp.Generic[T]):
     def __le__(self, other) -> bool:
         return self.__v <= other
 
+    def __after_inplace(self, value) -> TaintedObject:
+        return self if value is self.__v else taint(value)
+
     @might_accept_tainted(taint_result=True)
     def __add__(self, other) -> TaintedObject:
         return self.__v + other
@@ -145,8 +148,7 @@ class TaintedObject(tp.Generic[T]):
 
     @might_accept_tainted()
     def __iadd__(self, other) -> TaintedObject:
-        self.__v += other
-        return self
+        return self.__after_inplace(operator.iadd(self.__v, other))
 
     @might_accept_tainted(taint_result=True)
     def __sub__(self, other) -> TaintedObject:
@@ -154,8 +156,7 @@ class TaintedObject(tp.Generic[T]):
 
     @might_accept_tainted()
     def __isub__(self, other) -> TaintedObject:
-        self.__v -= other
-        return self
+        return self.__after_inplace(operator.isub(self.__v, other))
 
     @might_accept_tainted(taint_result=True)
     def __mul__(self, other) -> TaintedObject:
@@ -163,8 +164,7 @@ class TaintedObject(tp.Generic[T]):
 
     @might_accept_tainted()
     def __imul__(self, other) -> TaintedObject:
-        self.__v *= other
-        return self
+        return self.__after_inplace(operator.imul(self.__v, other))
 
     def __dir__(self) -> tp.Iterable[str]:
         return dir(self.__v)
-- 
2.43.0


From b85004150ca368be356bdfc881e4e2e23f77510a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:36 +0000
Subject: [PATCH 200/221] fix: "in" gave wrong answers for tainted strings

---
 satella/debug/tainting/tainteds.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/satella/debug/tainting/tainteds.py b/satella/debug/tainting/tainteds.py
index 85dd9ab..59aee4e 100644
--- a/satella/debug/tainting/tainteds.py
+++ b/satella/debug/tainting/tainteds.py
@@ -172,6 +172,9 @@ class TaintedObject(tp.Generic[T]):
     def __hash__(self) -> int:
         return hash(self.__v)
 
+    def __contains__(self, item) -> bool:  # This has to return a bool otherwise Python will break
+        return access_tainted(item) in self.__v
+
     def __getitem__(self, item: int) -> TaintedObject[T]:
         return taint(self.__v[item])
 
-- 
2.43.0


From a0459543b50da6fe41ee7036983ef5987ab42264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:36 +0000
Subject: [PATCH 201/221] fix: a tainting environment was enabled even if it
 was refused due to another session in progress

---
 satella/debug/tainting/environment.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/satella/debug/tainting/environment.py b/satella/debug/tainting/environment.py
index fb4eb32..7d849c6 100644
--- a/satella/debug/tainting/environment.py
+++ b/satella/debug/tainting/environment.py
@@ -59,10 +59,10 @@ class TaintingEnvironment:
 
         :raises RuntimeError: there is already a tainting session in progress
         """
-        self.enabled = True
         global local
         if hasattr(local, 'satella_tainting'):
             raise RuntimeError('Other tainting session in progress')
+        self.enabled = True
         local.satella_tainting = self
         return self
 
-- 
2.43.0


From dbd10de106e109709d66dbe9bed1bf53e0fea145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:36 +0000
Subject: [PATCH 202/221] fix: most operators, such as / and reflected ones,
 failed with TypeError given a tainted operand

---
 satella/debug/tainting/tainteds.py | 51 ++++++++++++++++++++++++++++++
 1 file changed, 51 insertions(+)

diff --git a/satella/debug/tainting/tainteds.py b/satella/debug/tainting/tainteds.py
index 59aee4e..e9eb7da 100644
--- a/satella/debug/tainting/tainteds.py
+++ b/satella/debug/tainting/tainteds.py
@@ -31,6 +31,36 @@ def might_accept_tainted(taint_result: bool = False):
     return outer
 
 
+def _forward(op):
+    @might_accept_tainted(taint_result=True)
+    def inner(self, other):
+        return op(access_tainted(self), other)
+
+    return inner
+
+
+def _reflected(op):
+    @might_accept_tainted(taint_result=True)
+    def inner(self, other):
+        return op(other, access_tainted(self))
+
+    return inner
+
+
+def _inplace(op):
+    @might_accept_tainted()
+    def inner(self, other):
+        value = access_tainted(self)
+        result = op(value, other)
+        return self if result is value else taint(result)
+
+    return inner
+
+
+def _all_of(op, inplace_op):
+    return _forward(op), _reflected(op), _inplace(inplace_op)
+
+
 class TaintedObject(tp.Generic[T]):
     __slots__ = '__environment', '__v'
 
@@ -166,6 +196,27 @@ class TaintedObject(tp.Generic[T]):
     def __imul__(self, other) -> TaintedObject:
         return self.__after_inplace(operator.imul(self.__v, other))
 
+    __rsub__, __rmul__ = _reflected(operator.sub), _reflected(operator.mul)
+    __truediv__, __rtruediv__, __itruediv__ = _all_of(operator.truediv, operator.itruediv)
+    __floordiv__, __rfloordiv__, __ifloordiv__ = _all_of(operator.floordiv, operator.ifloordiv)
+    __mod__, __rmod__, __imod__ = _all_of(operator.mod, operator.imod)
+    __pow__, __rpow__, __ipow__ = _all_of(operator.pow, operator.ipow)
+    __matmul__, __rmatmul__, __imatmul__ = _all_of(operator.matmul, operator.imatmul)
+    __and__, __rand__, __iand__ = _all_of(operator.and_, operator.iand)
+    __or__, __ror__, __ior__ = _all_of(operator.or_, operator.ior)
+    __xor__, __rxor__, __ixor__ = _all_of(operator.xor, operator.ixor)
+    __lshift__, __rlshift__, __ilshift__ = _all_of(operator.lshift, operator.ilshift)
+    __rshift__, __rrshift__, __irshift__ = _all_of(operator.rshift, operator.irshift)
+
+    def __neg__(self) -> TaintedObject:
+        return taint(-self.__v)
+
+    def __pos__(self) -> TaintedObject:
+        return taint(+self.__v)
+
+    def __invert__(self) -> TaintedObject:
+        return taint(~self.__v)
+
     def __dir__(self) -> tp.Iterable[str]:
         return dir(self.__v)
 
-- 
2.43.0


From dc02118733c4cf6353b869f50551e83bac5dbf95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:11 +0000
Subject: [PATCH 203/221] fix: trace_function let tags set upon a span leak to
 other calls

---
 satella/opentracing/trace.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/satella/opentracing/trace.py b/satella/opentracing/trace.py
index 6596c07..1c5bf22 100644
--- a/satella/opentracing/trace.py
+++ b/satella/opentracing/trace.py
@@ -45,12 +45,10 @@ def trace_function(tracer, name: str, tags: tp.Optional[dict] = None,
     def outer(fun):
         @wraps(fun)
         def inner(*args, **kwargs):
-            nonlocal tags, tags_factory
-            my_tags = tags
+            my_tags = copy.copy(tags)  # as the span is free to add to these
             if tags_factory is not None:
-                if tags is None:
-                    tags = {}
-                my_tags = copy.copy(tags)
+                if my_tags is None:
+                    my_tags = {}
                 for key, value in tags_factory:
                     try:
                         v = value(*args, **kwargs)
-- 
2.43.0


From c61e2fff1d985f1449c563325cd385b15fdeb03c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:11 +0000
Subject: [PATCH 204/221] fix: trace_future did not attach the exception to the
 span

---
 satella/opentracing/trace.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/satella/opentracing/trace.py b/satella/opentracing/trace.py
index 1c5bf22..ec1818c 100644
--- a/satella/opentracing/trace.py
+++ b/satella/opentracing/trace.py
@@ -1,5 +1,4 @@
 import copy
-import sys
 import typing as tp
 import warnings
 from concurrent.futures import Future
@@ -84,8 +83,7 @@ def trace_future(future: tp.Union[ResponseFuture, Future], span: Span):
         exc = fut.exception()
         if exc is not None:
             # noinspection PyProtectedMember
-            exc_type, value, traceback = sys.exc_info()
-            Span._on_error(span, exc_type, value, traceback)
+            Span._on_error(span, type(exc), exc, exc.__traceback__)
         span.finish()
 
     future.add_done_callback(close_future)
-- 
2.43.0


From 504bfb974de149de219112f7a3313e116c9e117f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:11 +0000
Subject: [PATCH 205/221] fix: trace_future did not close the span if the
 future was cancelled

---
 satella/opentracing/trace.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/satella/opentracing/trace.py b/satella/opentracing/trace.py
index ec1818c..31df4fd 100644
--- a/satella/opentracing/trace.py
+++ b/satella/opentracing/trace.py
@@ -80,7 +80,7 @@ def trace_future(future: tp.Union[ResponseFuture, Future], span: Span):
         future = wrap_future(future)
 
     def close_future(fut):
-        exc = fut.exception()
+        exc = None if fut.cancelled() else fut.exception()
         if exc is not None:
             # noinspection PyProtectedMember
             Span._on_error(span, type(exc), exc, exc.__traceback__)
-- 
2.43.0


From bf5f161a7dd571b4f6b571b7ddf7fa2bf9dd9056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:11 +0000
Subject: [PATCH 206/221] fix: trace_exception logged a stack other than that
 of the exception, and failed if given no traceback

---
 satella/opentracing/exceptions.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/satella/opentracing/exceptions.py b/satella/opentracing/exceptions.py
index 89eed5c..0cf9caa 100644
--- a/satella/opentracing/exceptions.py
+++ b/satella/opentracing/exceptions.py
@@ -1,9 +1,10 @@
 import sys
+import traceback
 import types
 import typing as tp
 
 from satella.coding.typing import ExceptionClassType
-from satella.instrumentation import Traceback
+from satella.instrumentation import Traceback, frame_from_traceback
 from satella.opentracing.trace import Span
 
 max_traceback_length = 65536
@@ -44,7 +45,17 @@ def trace_exception(span: tp.Optional[Span], exc_type: tp.Optional[ExceptionClas
         if exc_type is None:
             return
 
-    tb = Traceback(exc_tb.tb_frame).pretty_format()
+    if exc_val is None:
+        exc_val = sys.exc_info()[1]
+    if exc_tb is None:
+        exc_tb = sys.exc_info()[2]
+
+    if exc_tb is None:
+        trace_back = Traceback()
+    else:
+        trace_back = Traceback(frame_from_traceback(exc_tb))
+    trace_back.formatted_traceback = ''.join(traceback.format_exception(exc_type, exc_val, exc_tb))
+    tb = trace_back.pretty_format()
     if len(tb) > max_tb_length:
         tb = tb[:max_tb_length]
 
-- 
2.43.0


From 8afdf13229ac7d328b0b21f48f248e763dfda598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:11 +0000
Subject: [PATCH 207/221] fix: transaction left the cursor and the connection
 open if committing or rolling back failed

---
 satella/db.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/satella/db.py b/satella/db.py
index d874a89..9c92f48 100644
--- a/satella/db.py
+++ b/satella/db.py
@@ -44,17 +44,19 @@ class transaction:
             return self._connection
 
     def __exit__(self, exc_type, exc_val, exc_tb):
-        if exc_val is None:
-            self.connection.commit()
-        else:
-            self.connection.rollback()
-
         if exc_val is not None and self.log_exception:
             logger.error('Exception occurred of type %s', exc_type, exc_info=exc_val)
 
-        self.cursor.close()
-
-        if self.close_the_connection_after:
-            self.connection.close()
+        try:
+            if exc_val is None:
+                self.connection.commit()
+            else:
+                self.connection.rollback()
+        finally:
+            try:
+                self.cursor.close()
+            finally:
+                if self.close_the_connection_after:
+                    self.connection.close()
 
         return False
-- 
2.43.0


From 0fde434bbd8798a6da565e30da2c6c1160eeef2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:11 +0000
Subject: [PATCH 208/221] fix: transaction did not accept getters other than
 plain functions

---
 satella/db.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/satella/db.py b/satella/db.py
index 9c92f48..58e9dfa 100644
--- a/satella/db.py
+++ b/satella/db.py
@@ -36,7 +36,9 @@ class transaction:
 
     @property
     def connection(self):
-        if inspect.isfunction(self._connection):
+        # connections can be callable as well, eg. those of sqlite3
+        if inspect.isclass(self._connection) or \
+                callable(self._connection) and not hasattr(self._connection, 'cursor'):
             conn = self._connection()
             self._connection = conn
             return conn
-- 
2.43.0


From 2b57ed40d39ee902e739d57a6ca1314041ef2941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:05 +0000
Subject: [PATCH 209/221] fix: transaction given a getter and used again used a
 connection that it had closed

---
 satella/db.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/satella/db.py b/satella/db.py
index 58e9dfa..f938876 100644
--- a/satella/db.py
+++ b/satella/db.py
@@ -25,6 +25,7 @@ class transaction:
 
     def __init__(self, connection_or_getter, close_the_connection_after: bool = False,
                  log_exception: bool = True):
+        self._connection_or_getter = connection_or_getter
         self._connection = connection_or_getter
         self.close_the_connection_after = close_the_connection_after
         self.cursor = None
@@ -59,6 +60,8 @@ class transaction:
                 self.cursor.close()
             finally:
                 if self.close_the_connection_after:
-                    self.connection.close()
+                    connection = self.connection
+                    self._connection = self._connection_or_getter   # that one can't be used anymore
+                    connection.close()
 
         return False
-- 
2.43.0


From 909fa9a84a55d23600f145ea286c04cc0c54bf1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:50 +0000
Subject: [PATCH 210/221] fix: SyncableDroppable lost entries added by one
 thread while another one was cleaning up

---
 satella/coding/structures/syncable_droppable.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/satella/coding/structures/syncable_droppable.py b/satella/coding/structures/syncable_droppable.py
index 2d6e95a..728189e 100644
--- a/satella/coding/structures/syncable_droppable.py
+++ b/satella/coding/structures/syncable_droppable.py
@@ -286,6 +286,7 @@ class SyncableDroppable(RMonitor, tp.Generic[K, V]):
                 return
             self.cleanup_keep_in_db()
 
+    @RMonitor.synchronized
     def on_new_data(self, key: K, value: V) -> None:
         """
         Called by the user when there's new data gathered.
-- 
2.43.0


From 8e78858c3438304d6d64d0c0ff0d48b0480113db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:15 +0000
Subject: [PATCH 211/221] fix: SyncableDroppable repeated or skipped entries
 read by one thread while another one was moving them to the DB

---
 .../coding/structures/syncable_droppable.py   | 34 ++++++++++++++++---
 1 file changed, 29 insertions(+), 5 deletions(-)

diff --git a/satella/coding/structures/syncable_droppable.py b/satella/coding/structures/syncable_droppable.py
index 728189e..515bd34 100644
--- a/satella/coding/structures/syncable_droppable.py
+++ b/satella/coding/structures/syncable_droppable.py
@@ -207,6 +207,7 @@ class SyncableDroppable(RMonitor, tp.Generic[K, V]):
         :param stop: stopping key (included)
         :return: a iterator of KVTuple
         """
+        last_key = None
         first_key = self.first_key_in_memory
         if first_key is None or start < first_key:
             it = self.db_storage.iterate(start)
@@ -217,16 +218,38 @@ class SyncableDroppable(RMonitor, tp.Generic[K, V]):
                     if key > stop:
                         return
                     yield key, value
+                    last_key = key
             finally:
                 try_close(it)
         # The rest is served from memory
+        with RMonitor.acquire(self):
+            entries = self._get_archive_rest(start, stop, last_key)
+        yield from entries
+
+    def _get_archive_rest(self, start: K, stop: K, last_key: tp.Optional[K]) -> tp.List[KVTuple]:
+        """
+        Return entries from an archive that follow given key, or all of them if it's None. Some of these
+        could have been moved onto the DB since the caller looked there.
+        """
+        entries = []
+        first_key = self.first_key_in_memory
+        from_key = start if last_key is None else last_key
+        if first_key is None or from_key < first_key:
+            it = self.db_storage.iterate(from_key)
+            try:
+                for key, value in it:
+                    if key > stop:
+                        break
+                    if key >= start and (last_key is None or key > last_key):
+                        entries.append((key, value))
+            finally:
+                try_close(it)
         for key, value in self.data_in_memory:
-            if key < start:
-                continue
-            if key > stop:
-                return
-            yield key, value
+            if start <= key <= stop and (last_key is None or key > last_key):
+                entries.append((key, value))
+        return entries
 
+    @RMonitor.synchronized
     def get_latest_value(self) -> KVTuple:
         """
         Get the piece of data that was added here last
@@ -324,6 +347,7 @@ class SyncableDroppable(RMonitor, tp.Generic[K, V]):
             if synced_up_to is None or key > synced_up_to:
                 yield key, value
 
+    @RMonitor.synchronized
     def on_sync_request(self, maximum_entries: tp.Optional[int] = math.inf) -> tp.Iterator[KVTuple]:
         """
         Return an iterator that will provide the source of the data for synchronization.
-- 
2.43.0


From d41d4931e5761890c39a32bb0bdeec34c721dad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:28 +0000
Subject: [PATCH 212/221] fix: ExclusiveWritebackCache wrote concurrent
 modifications of a key to the storage in a wrong order

---
 satella/coding/structures/dictionaries/writeback_cache.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/satella/coding/structures/dictionaries/writeback_cache.py b/satella/coding/structures/dictionaries/writeback_cache.py
index b559f3d..dc86d25 100644
--- a/satella/coding/structures/dictionaries/writeback_cache.py
+++ b/satella/coding/structures/dictionaries/writeback_cache.py
@@ -120,7 +120,8 @@ class ExclusiveWritebackCache(tp.Generic[K, V]):
                 self.in_cache.add(key)
             with silence_excs(KeyError):
                 del self.cache[key]
-        self.executor.submit(self.delete_method, key)
+            # under the lock, lest another thread's later modification be written earlier
+            self.executor.submit(self.delete_method, key)
         self._operate()
 
     def __setitem__(self, key: K, value: V) -> None:
@@ -128,5 +129,5 @@ class ExclusiveWritebackCache(tp.Generic[K, V]):
             self.modifications += 1
             self.cache[key] = value
             self.in_cache.add(key)
-        self.executor.submit(self.write_method, key, value)
+            self.executor.submit(self.write_method, key, value)
         self._operate()
-- 
2.43.0


From a8bde051e23217fd469bff49b2f8515fdadbfe1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:33 +0000
Subject: [PATCH 213/221] fix: sync_threadpool hung forever when the executor
 started less threads than it could

---
 satella/coding/concurrent/sync.py | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/satella/coding/concurrent/sync.py b/satella/coding/concurrent/sync.py
index e9fbbf3..cc14b88 100644
--- a/satella/coding/concurrent/sync.py
+++ b/satella/coding/concurrent/sync.py
@@ -9,14 +9,21 @@ from satella.exceptions import WouldWaitMore
 from satella.time.measure import measure
 
 
-def _while_sync_threadpool(tpe, max_wait, measurement, futures):
+def _while_sync_threadpool(tpe, max_wait, measurement, futures, held_workers):
     while tpe._work_queue.qsize() > 0:      # pylint: disable=protected-access
+        if held_workers() == len(tpe._threads):     # pylint: disable=protected-access
+            # the executor mistook a busy worker for an idle one and started less of them than it could. All
+            # of those it has are at our disposal, so everything scheduled before is done
+            for future in futures:
+                future.cancel()
+            return False
         if max_wait is not None:
             if measurement() > max_wait:
                 for future in futures:
                     future.cancel()
                 raise WouldWaitMore('timeout exceeded')
         time.sleep(0.5)
+    return True
 
 
 def _max_wait_atm_n(measurement, max_wait, atm_n):
@@ -60,12 +67,13 @@ def sync_threadpool(tpe: tp.Union[ExecutorWrapper, ThreadPoolExecutor],
 
         try:
             # wait for all currently scheduled jobs to be picked up
-            _while_sync_threadpool(tpe, max_wait, measurement, futures)
-
-            if max_wait is None:
-                atm_n.wait_until_equal(0)
-            else:
-                _max_wait_atm_n(measurement, max_wait, atm_n)
+            all_started = _while_sync_threadpool(tpe, max_wait, measurement, futures,
+                                                 lambda: workers - int(atm_n))
+            if all_started:
+                if max_wait is None:
+                    atm_n.wait_until_equal(0)
+                else:
+                    _max_wait_atm_n(measurement, max_wait, atm_n)
         finally:
             done.set()
         wait(futures)
-- 
2.43.0


From f3ad6b24283582383cceab691b4640c15f55add6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:53 +0000
Subject: [PATCH 214/221] fix: CacheDict and LRUCacheDict lost, refused or
 misplaced values used or refreshed by several threads

---
 .../structures/dictionaries/cache_dict.py     | 123 ++++++++++--------
 1 file changed, 71 insertions(+), 52 deletions(-)

diff --git a/satella/coding/structures/dictionaries/cache_dict.py b/satella/coding/structures/dictionaries/cache_dict.py
index ed28658..11b6201 100644
--- a/satella/coding/structures/dictionaries/cache_dict.py
+++ b/satella/coding/structures/dictionaries/cache_dict.py
@@ -3,6 +3,7 @@ import time
 import typing as tp
 from concurrent.futures import ThreadPoolExecutor, Executor, Future
 
+from satella.coding.concurrent.monitor import RMonitor
 from satella.coding.decorators.decorators import short_none
 from satella.coding.recast_exceptions import silence_excs
 from satella.coding.structures.lru import LRU
@@ -91,9 +92,10 @@ class CacheDict(tp.Mapping[K, V]):
         """
         Feed this data into the cache
         """
-        self.data[key] = value
-        self.timestamp_data[key] = self.time_getter() if timestamp is None else timestamp
-        self.cache_missed.discard(key)
+        with self.lock:
+            self.data[key] = value
+            self.timestamp_data[key] = self.time_getter() if timestamp is None else timestamp
+            self.cache_missed.discard(key)
 
     def has_info_about(self, key: K) -> bool:
         """
@@ -133,6 +135,7 @@ class CacheDict(tp.Mapping[K, V]):
         if value_getter_executor is None:
             value_getter_executor = ThreadPoolExecutor(max_workers=4)
         self.value_getter_executor = value_getter_executor
+        self.lock = RMonitor()  # what refreshes and users share: data, timestamp_data and cache_missed
         self.data = {}  # type: tp.Dict[K, V]
         self.timestamp_data = {}  # type: tp.Dict[K, float]
         self.cache_missed = set()  # type: tp.Set[K]
@@ -164,10 +167,11 @@ class CacheDict(tp.Mapping[K, V]):
 
         It is expected that invalidate(key) will be always called before
         """
-        self.invalidate(key)
-        if self.cache_failures:
-            self.cache_missed.add(key)
-            self.timestamp_data[key] = self.time_getter()
+        with self.lock:
+            self.invalidate(key)
+            if self.cache_failures:
+                self.cache_missed.add(key)
+                self.timestamp_data[key] = self.time_getter()
 
     def schedule_a_fetch(self, key: K) -> Future:
         """
@@ -201,56 +205,63 @@ class CacheDict(tp.Mapping[K, V]):
         >>> except KeyError:
         >>>   pass
         """
-        if key in self.cache_missed:
-            self.cache_missed.discard(key)
-            self.timestamp_data.pop(key, None)
-        del self[key]
+        with self.lock:
+            if key in self.cache_missed:
+                self.cache_missed.discard(key)
+                self.timestamp_data.pop(key, None)
+            del self[key]
 
     def _on_cache_hit_empty(self, key: K, timestamp: float, now: float) -> V:
-        if key in self.cache_missed:
-            if now - timestamp > self.cache_failures_interval:
-                return self.get_value_block(key)
-            else:
-                if self.default_value_factory:
-                    return self.default_value_factory()
-                else:
-                    raise KeyError('Cached a miss')
+        if now - timestamp > self.cache_failures_interval:
+            return self.get_value_block(key)
+        elif self.default_value_factory:
+            return self.default_value_factory()
+        else:
+            raise KeyError('Cached a miss')
 
     def __getitem__(self, key: K) -> V:
-        if key not in self.data and key not in self.cache_missed:
+        with self.lock:
+            missed = key in self.cache_missed
+            known = missed or key in self.data
+            if known:
+                timestamp = self.timestamp_data[key]
+                value = self.data.get(key)
+
+        if not known:
             return self.get_value_block(key)
 
-        timestamp = self.timestamp_data[key]
         now = self.time_getter()
 
-        if key in self.cache_missed:
+        if missed:
             return self._on_cache_hit_empty(key, timestamp, now)
         else:
-            return self._on_cache_hit(key, timestamp, now)
+            return self._on_cache_hit(key, value, timestamp, now)
 
-    def _on_cache_hit(self, key: K, timestamp: float, now: float) -> V:
+    def _on_cache_hit(self, key: K, value: V, timestamp: float, now: float) -> V:
         if now - timestamp > self.expiration_interval:
             return self.get_value_block(key)
         elif now - timestamp > self.stale_interval:
             self.schedule_a_fetch(key)
-            return self.data[key]
+            return self.data.get(key, value)    # it might have been evicted by now
         else:
-            return self.data[key]
+            return value
 
     def __delitem__(self, key: K) -> None:
-        del self.data[key]
-        del self.timestamp_data[key]
-        with silence_excs(KeyError):
-            self.cache_missed.remove(key)
+        with self.lock:
+            del self.data[key]
+            del self.timestamp_data[key]
+            with silence_excs(KeyError):
+                self.cache_missed.remove(key)
 
     def __setitem__(self, key: K, value: V) -> None:
         """
         Store a value with current timestamp
         """
-        self.data[key] = value
-        self.timestamp_data[key] = self.time_getter()
-        with silence_excs(KeyError):
-            self.cache_missed.remove(key)
+        with self.lock:
+            self.data[key] = value
+            self.timestamp_data[key] = self.time_getter()
+            with silence_excs(KeyError):
+                self.cache_missed.remove(key)
 
 
 class LRUCacheDict(CacheDict[K, V]):
@@ -270,13 +281,15 @@ class LRUCacheDict(CacheDict[K, V]):
         """
         Assure that there's place for at least one element
         """
-        while len(self) > self.max_size - 1:
-            self.evict()
+        with self.lock:
+            while len(self) > self.max_size - 1:
+                self.evict()
 
     @silence_excs(KeyError)
     def evict(self):
-        key = self.lru.get_item_to_evict()
-        self.invalidate(key)
+        with self.lock:
+            key = self.lru.get_item_to_evict()
+            self.invalidate(key)
 
     @silence_excs(KeyError)
     def invalidate(self, key: K) -> None:
@@ -290,36 +303,42 @@ class LRUCacheDict(CacheDict[K, V]):
         >>> except KeyError:
         >>>   pass
         """
-        super().invalidate(key)
-        self.lru.remove(key)
+        with self.lock:
+            super().invalidate(key)
+            self.lru.remove(key)
 
     def __getitem__(self, key: K) -> V:
-        self.lru.mark_as_used(key)
+        with self.lock:
+            self.lru.mark_as_used(key)
         return super().__getitem__(key)
 
     def get_value_block(self, key: K) -> V:
         v = super().get_value_block(key)
-        self.lru.add(key)
+        with self.lock:
+            self.lru.add(key)
         return v
 
     def __delitem__(self, key: K) -> None:
-        super().__delitem__(key)
-        self.lru.remove(key)
+        with self.lock:
+            super().__delitem__(key)
+            self.lru.remove(key)
 
     def feed(self, key: K, value: V, timestamp: tp.Optional[float] = None):
         """
         Feed this data into the cache
         """
-        if key not in self.data:
-            self.make_room()
-        super().feed(key, value, timestamp)
-        self.lru.add(key)
+        with self.lock:
+            if key not in self.data:
+                self.make_room()
+            super().feed(key, value, timestamp)
+            self.lru.add(key)
 
     def __setitem__(self, key: K, value: V) -> None:
         """
         Store a value with current timestamp
         """
-        if key not in self.data:
-            self.make_room()
-        self.lru.mark_as_used(key)
-        super().__setitem__(key, value)
+        with self.lock:
+            if key not in self.data:
+                self.make_room()
+            self.lru.mark_as_used(key)
+            super().__setitem__(key, value)
-- 
2.43.0


From cc894adc432a004c7bc257762b240e81a37666bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:41 +0000
Subject: [PATCH 215/221] fix: iterating over ExpiringEntryDict or
 SelfCleaningDefaultDict acquired as documented hung forever

---
 satella/coding/structures/dictionaries/expiring.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/satella/coding/structures/dictionaries/expiring.py b/satella/coding/structures/dictionaries/expiring.py
index 1015866..c7880bf 100644
--- a/satella/coding/structures/dictionaries/expiring.py
+++ b/satella/coding/structures/dictionaries/expiring.py
@@ -4,7 +4,7 @@ import typing as tp
 import weakref
 from abc import ABCMeta, abstractmethod
 
-from satella.coding.concurrent.monitor import Monitor
+from satella.coding.concurrent.monitor import Monitor, RMonitor
 from satella.coding.recast_exceptions import rethrow_as, silence_excs
 from satella.coding.structures.heaps import TimeBasedSetHeap
 from satella.coding.structures.singleton import Singleton
@@ -58,7 +58,7 @@ class ExpiringEntryDictThread(threading.Thread, Monitor):
         self.start()
 
 
-class SelfCleaningDefaultDict(Monitor, tp.MutableMapping[K, V], Cleanupable):
+class SelfCleaningDefaultDict(RMonitor, tp.MutableMapping[K, V], Cleanupable):
     """
     A defaultdict with the property that if it detects that a value is equal to it's default value,
     it will automatically remove it from the dict.
@@ -136,7 +136,7 @@ class SelfCleaningDefaultDict(Monitor, tp.MutableMapping[K, V], Cleanupable):
                 del self.data[key]
 
 
-class ExpiringEntryDict(Monitor, tp.MutableMapping[K, V], Cleanupable):
+class ExpiringEntryDict(RMonitor, tp.MutableMapping[K, V], Cleanupable):
     """
     A dictionary whose entries expire automatically after a predefined period of time.
 
-- 
2.43.0


From aef3a958eeba27ef53df8235c23ccfc42de5f2a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:30 +0000
Subject: [PATCH 216/221] fix: ExpiringEntryDict and SelfCleaningDefaultDict
 failed upon, or hid, entries that another thread was altering or cleaning up

---
 satella/coding/structures/dictionaries/expiring.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/satella/coding/structures/dictionaries/expiring.py b/satella/coding/structures/dictionaries/expiring.py
index c7880bf..ea66d86 100644
--- a/satella/coding/structures/dictionaries/expiring.py
+++ b/satella/coding/structures/dictionaries/expiring.py
@@ -101,6 +101,7 @@ class SelfCleaningDefaultDict(RMonitor, tp.MutableMapping[K, V], Cleanupable):
         self.cleanup()
         return iter(self.data)
 
+    @Monitor.synchronized
     def __delitem__(self, key: K) -> None:
         if key in self.data:
             del self.data[key]
@@ -176,6 +177,7 @@ class ExpiringEntryDict(RMonitor, tp.MutableMapping[K, V], Cleanupable):
         for key, value in dct.items():
             self[key] = value
 
+    @Monitor.synchronized
     def __contains__(self, item) -> bool:
         try:
             ts = self.key_to_expiration_time.item_to_timestamp[item]
@@ -188,6 +190,7 @@ class ExpiringEntryDict(RMonitor, tp.MutableMapping[K, V], Cleanupable):
 
         return True
 
+    @Monitor.synchronized
     def get_timestamp(self, key: K) -> float:
         """
         Return the timestamp at which given key was inserted in the dict
@@ -212,6 +215,7 @@ class ExpiringEntryDict(RMonitor, tp.MutableMapping[K, V], Cleanupable):
         self.data[key] = value
 
     @rethrow_as(ValueError, KeyError)
+    @Monitor.synchronized
     def __getitem__(self, item: K) -> V:
         ts = self.key_to_expiration_time.get_timestamp(item)
         if ts < self.time_getter():
-- 
2.43.0


From aa2529a524365015b0e99c1a713cbb5501193a5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:54 +0000
Subject: [PATCH 217/221] fix: ExclusiveWritebackCache remembered a value read
 while its modification was being scheduled

---
 satella/coding/structures/dictionaries/writeback_cache.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/satella/coding/structures/dictionaries/writeback_cache.py b/satella/coding/structures/dictionaries/writeback_cache.py
index dc86d25..879e0fb 100644
--- a/satella/coding/structures/dictionaries/writeback_cache.py
+++ b/satella/coding/structures/dictionaries/writeback_cache.py
@@ -115,19 +115,19 @@ class ExclusiveWritebackCache(tp.Generic[K, V]):
         if self.delete_method is None:
             raise TypeError('Cannot delete from this writeback cache!')
         with self.cache_lock:
-            self.modifications += 1
             if self.store_key_errors:
                 self.in_cache.add(key)
             with silence_excs(KeyError):
                 del self.cache[key]
             # under the lock, lest another thread's later modification be written earlier
             self.executor.submit(self.delete_method, key)
+            self.modifications += 1     # reads that it invalidates have started before this point
         self._operate()
 
     def __setitem__(self, key: K, value: V) -> None:
         with self.cache_lock:
-            self.modifications += 1
             self.cache[key] = value
             self.in_cache.add(key)
             self.executor.submit(self.write_method, key, value)
+            self.modifications += 1
         self._operate()
-- 
2.43.0


From fe77ddffcc183f05d69c9f83d7368243a992b71a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:41 +0000
Subject: [PATCH 218/221] fix: Subqueue failed to look through its queues while
 another thread was adding one

---
 satella/coding/structures/queues.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/satella/coding/structures/queues.py b/satella/coding/structures/queues.py
index 0fd9018..58b793a 100644
--- a/satella/coding/structures/queues.py
+++ b/satella/coding/structures/queues.py
@@ -40,7 +40,7 @@ class Subqueue(tp.Generic[T]):
 
     def qsize(self) -> int:
         """Calculate the total of entries"""
-        return sum(que.qsize() for que in self.subqueues.values())
+        return sum(que.qsize() for que in list(self.subqueues.values()))
 
     def get_any(self) -> tp.Tuple[str, T]:
         """
@@ -51,7 +51,7 @@ class Subqueue(tp.Generic[T]):
         :return: a tuple of (queue_name, object)
         :raises: queue.Empty()
         """
-        for queue_name, q in self.subqueues.items():
+        for queue_name, q in list(self.subqueues.items()):     # others may add queues meanwhile
             with silence_excs(queue.Empty):
                 return queue_name, q.get(block=False)
         else:
-- 
2.43.0


From ca930dc6400730027030a9cff6c112c376144f4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:45 +0000
Subject: [PATCH 219/221] fix: ExclusiveWritebackCache raised KeyError for a
 key that another thread was just reading

---
 satella/coding/structures/dictionaries/writeback_cache.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/satella/coding/structures/dictionaries/writeback_cache.py b/satella/coding/structures/dictionaries/writeback_cache.py
index 879e0fb..c8eb513 100644
--- a/satella/coding/structures/dictionaries/writeback_cache.py
+++ b/satella/coding/structures/dictionaries/writeback_cache.py
@@ -97,8 +97,8 @@ class ExclusiveWritebackCache(tp.Generic[K, V]):
                 with self.cache_lock:
                     # what was read might be outdated if the cache was altered in the meantime
                     if self.modifications == modifications:
-                        self.in_cache.add(item)
                         self.cache[item] = value
+                        self.in_cache.add(item)
                 return value
             except KeyError:
                 if self.store_key_errors:
-- 
2.43.0


From e6da8ddf2f83ed0c9bc1c8ffe5c21f0060950914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:52 +0000
Subject: [PATCH 220/221] fix: CPU occupancy counted the time of virtual
 machines' guests twice

---
 satella/instrumentation/cpu_time/collector.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/satella/instrumentation/cpu_time/collector.py b/satella/instrumentation/cpu_time/collector.py
index 9f0145a..a6365b4 100644
--- a/satella/instrumentation/cpu_time/collector.py
+++ b/satella/instrumentation/cpu_time/collector.py
@@ -194,7 +194,8 @@ def _calculate_occupancy_factor() -> float:
     try:
         try:
             try:
-                used = c.user + c.nice + c.system + c.irq + c.softirq + c.steal + c.guest + c.guest_nice
+                # guest and guest_nice are already accounted for in user and nice
+                used = c.user + c.nice + c.system + c.irq + c.softirq + c.steal
             except AttributeError:
                 # Linux?
                 used = c.user + c.nice + c.system + c.irq + c.softirq
-- 
2.43.0


From a8a8e2dfb52ad44558297d0a1d37f445b168c419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:27 +0000
Subject: [PATCH 221/221] fix: TimeBasedHeap.put() took None for an item not
 given, breaking None as a key of ExpiringEntryDict

---
 satella/coding/structures/heaps/time.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/satella/coding/structures/heaps/time.py b/satella/coding/structures/heaps/time.py
index f2628d3..0f942a6 100644
--- a/satella/coding/structures/heaps/time.py
+++ b/satella/coding/structures/heaps/time.py
@@ -7,6 +7,8 @@ from satella.coding.recast_exceptions import rethrow_as
 from satella.coding.structures.heaps.base import Heap
 from satella.coding.typing import T, Number, NoArgCallable
 
+_NOT_GIVEN = object()   # as None is a legitimate item
+
 
 class _Entry(tuple):
     """A (timestamp, item) tuple ordered by timestamp alone, as items might not be comparable"""
@@ -104,13 +106,13 @@ class TimeBasedHeap(_TimestampedHeap):
         raise ValueError('Element not found!')
 
     def put(self, timestamp_or_value: tp.Union[T, Number],
-            value: tp.Optional[T] = None) -> None:
+            value: T = _NOT_GIVEN) -> None:
         """
         Put an item on heap.
 
         Pass timestamp, item or just an item for default time
         """
-        if value is None:
+        if value is _NOT_GIVEN:
             timestamp, item = self.default_clock_source(), timestamp_or_value
         else:
             timestamp, item = timestamp_or_value, value
@@ -261,13 +263,13 @@ class TimeBasedSetHeap(_TimestampedHeap):
         return item
 
     def put(self, timestamp_or_value: tp.Union[T, Number],
-            value: tp.Optional[T] = None) -> None:
+            value: T = _NOT_GIVEN) -> None:
         """
         Put an item on heap.
 
         Pass timestamp, item or just an item for default time
         """
-        if value is None:
+        if value is _NOT_GIVEN:
             timestamp, item = self.default_clock_source(), timestamp_or_value
         else:
             timestamp, item = timestamp_or_value, value
-- 
2.43.0

