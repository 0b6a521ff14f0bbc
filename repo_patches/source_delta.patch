From 36a14935df010440403c4b9ccbf8ba7d3829cf1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:03 +0000
Subject: [PATCH 01/26] fix: subscription intersection of '*' with event type
 without further subtypes

---
 src_py/hat/event/common/subscription/common.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src_py/hat/event/common/subscription/common.py b/src_py/hat/event/common/subscription/common.py
index ef26946..d3a13de 100644
--- a/src_py/hat/event/common/subscription/common.py
+++ b/src_py/hat/event/common/subscription/common.py
@@ -83,9 +83,12 @@ def intersection(first: Node, second: Node) -> Node:
     is_leaf = first.is_leaf and second.is_leaf
 
     if '*' in first.children:
+        # '*' matches zero or more subtypes
+        is_leaf = second.is_leaf
         children = second.children
 
     elif '*' in second.children:
+        is_leaf = first.is_leaf
         children = first.children
 
     else:
-- 
2.43.0


From 7d3270ecc69767af08e63befa0efed2411472b24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:44 +0000
Subject: [PATCH 02/26] fix: isdisjoint of empty subscription intersection
 result

---
 src_py/hat/event/common/subscription/common.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src_py/hat/event/common/subscription/common.py b/src_py/hat/event/common/subscription/common.py
index d3a13de..d25786b 100644
--- a/src_py/hat/event/common/subscription/common.py
+++ b/src_py/hat/event/common/subscription/common.py
@@ -115,6 +115,8 @@ def intersection(first: Node, second: Node) -> Node:
             for other_name, other_child in candidates.items():
                 result_name = name if name != '?' else other_name
                 result_children = intersection(child, other_child)
+                if not result_children.is_leaf and not result_children.children:
+                    continue
                 prev_result_children = children.get(result_name)
                 children[result_name] = (
                     union(prev_result_children, result_children)
-- 
2.43.0


From 0e36a10b0aad65b73c9098491ec664a096eab0d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:44 +0000
Subject: [PATCH 03/26] fix: adding of overlapping subscriptions to
 PyTreeEventTypeCollection

---
 src_py/hat/event/common/collection/pytree.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src_py/hat/event/common/collection/pytree.py b/src_py/hat/event/common/collection/pytree.py
index cb37721..c57839d 100644
--- a/src_py/hat/event/common/collection/pytree.py
+++ b/src_py/hat/event/common/collection/pytree.py
@@ -26,7 +26,7 @@ class PyTreeEventTypeCollection(common.EventTypeCollection):
                 node = node.children[head]
 
             if value in node.values:
-                return
+                continue
 
             node.values.add(value)
             self._value_nodes[value].append(node)
-- 
2.43.0


From cb40c263597f46608f371fc4b3d90f05e248f7dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:39 +0000
Subject: [PATCH 04/26] fix: conversion of negative datetimes to timestamp

---
 src_py/hat/event/common/encoder.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src_py/hat/event/common/encoder.py b/src_py/hat/event/common/encoder.py
index 6ead782..7f3ee07 100644
--- a/src_py/hat/event/common/encoder.py
+++ b/src_py/hat/event/common/encoder.py
@@ -107,12 +107,10 @@ def timestamp_from_datetime(dt: datetime.datetime) -> Timestamp:
     if not dt.tzinfo:
         dt = dt.replace(tzinfo=datetime.timezone.utc)
 
-    s = int(dt.timestamp())
+    delta = dt - datetime.datetime(1970, 1, 1, tzinfo=datetime.timezone.utc)
 
-    if dt.timestamp() < 0:
-        s = s - 1
-
-    return Timestamp(s=s, us=dt.microsecond)
+    return Timestamp(s=delta.days * 24 * 60 * 60 + delta.seconds,
+                     us=delta.microseconds)
 
 
 def timestamp_to_sbs(t: Timestamp) -> sbs.Data:
-- 
2.43.0


From 665622548e4e49f515d61d3627f93de045548971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:39 +0000
Subject: [PATCH 05/26] fix: conversion of large negative float to timestamp

---
 src_py/hat/event/common/encoder.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src_py/hat/event/common/encoder.py b/src_py/hat/event/common/encoder.py
index 7f3ee07..d0bac97 100644
--- a/src_py/hat/event/common/encoder.py
+++ b/src_py/hat/event/common/encoder.py
@@ -1,4 +1,5 @@
 import datetime
+import math
 import struct
 
 from hat import json
@@ -57,10 +58,7 @@ def timestamp_from_float(ts: float) -> Timestamp:
     For precise serialization see `timestamp_to_bytes`/`timestamp_from_bytes`.
 
     """
-    s = int(ts)
-    if ts < 0:
-        s = s - 1
-
+    s = math.floor(ts)
     us = round((ts - s) * 1E6)
 
     if us == 1_000_000:
-- 
2.43.0


From 85f539f0386db34605d822aa135299f23ae02b85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:59 +0000
Subject: [PATCH 06/26] fix: waiting for events acks of other connections when
 connection is closed

---
 src_py/hat/event/eventer/server.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src_py/hat/event/eventer/server.py b/src_py/hat/event/eventer/server.py
index 2b989dd..dd2da05 100644
--- a/src_py/hat/event/eventer/server.py
+++ b/src_py/hat/event/eventer/server.py
@@ -202,8 +202,8 @@ class Server(aio.Resource):
             conn.close()
             self._conn_infos.pop(conn, None)
 
-            for future in self._conn_conv_futures.values():
-                if not future.done():
+            for (future_conn, _), future in self._conn_conv_futures.items():
+                if future_conn is conn and not future.done():
                     future.set_exception(ConnectionError())
 
             if self._disconnected_cb and info:
-- 
2.43.0


From cefa08fb8278f6cb7e4bb695d498449af5e06e21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:25 +0000
Subject: [PATCH 07/26] fix: adminer client closing connection on response to
 cancelled request

---
 src_py/hat/event/adminer/client.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src_py/hat/event/adminer/client.py b/src_py/hat/event/adminer/client.py
index 1077b7e..b27225e 100644
--- a/src_py/hat/event/adminer/client.py
+++ b/src_py/hat/event/adminer/client.py
@@ -99,7 +99,7 @@ class Client(aio.Resource):
                 res_msg_type, future = self._conv_msg_type_futures.get(
                     msg.conv, (None, None))
                 if not future or future.done():
-                    return
+                    continue
 
                 if res_msg_type != msg_type:
                     raise Exception('invalid response message type')
-- 
2.43.0


From 7957febffaf631328cd481ce4d7f5f194a5e0584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:58 +0000
Subject: [PATCH 08/26] fix: registration of STOPPED event when engine is
 closed because of an error

---
 src_py/hat/event/server/engine.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src_py/hat/event/server/engine.py b/src_py/hat/event/server/engine.py
index f7d779c..baee6b3 100644
--- a/src_py/hat/event/server/engine.py
+++ b/src_py/hat/event/server/engine.py
@@ -150,7 +150,9 @@ class Engine(common.Engine):
             timestamp = self._create_session()
             status_reg_event = self._create_status_reg_event('STOPPED')
             events = [self._create_event(timestamp, status_reg_event)]
-            await self._backend.register(events)
+
+            # closing of engine cancels this task
+            await aio.uncancellable(self._backend.register(events))
 
     async def _process_sessions(self, source, register_events):
         timestamp = self._create_session()
-- 
2.43.0


From 2700dede323c8f68770a413e5c63049fcf1fc676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:58 +0000
Subject: [PATCH 09/26] fix: hanging of register requests when engine creation
 fails

---
 src_py/hat/event/server/engine.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src_py/hat/event/server/engine.py b/src_py/hat/event/server/engine.py
index baee6b3..93b8794 100644
--- a/src_py/hat/event/server/engine.py
+++ b/src_py/hat/event/server/engine.py
@@ -60,6 +60,14 @@ async def create_engine(backend: common.Backend,
         engine.async_group.spawn(engine._register_loop)
 
     except BaseException:
+        engine.close()
+        engine._register_queue.close()
+
+        while not engine._register_queue.empty():
+            future, _, __ = engine._register_queue.get_nowait()
+            if not future.done():
+                future.set_exception(Exception('engine closed'))
+
         await aio.uncancellable(engine.async_close())
         raise
 
-- 
2.43.0


From 8cc7ccaaa47cf59db77170ecb9179b2a5828388d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:17 +0000
Subject: [PATCH 10/26] fix: timeseries queries with unordered or concurrently
 flushed pending changes

---
 .../hat/event/backends/lmdb/timeseriesdb.py   | 141 ++++++------------
 1 file changed, 48 insertions(+), 93 deletions(-)

diff --git a/src_py/hat/event/backends/lmdb/timeseriesdb.py b/src_py/hat/event/backends/lmdb/timeseriesdb.py
index 0d2210c..f0bec98 100644
--- a/src_py/hat/event/backends/lmdb/timeseriesdb.py
+++ b/src_py/hat/event/backends/lmdb/timeseriesdb.py
@@ -1,6 +1,7 @@
 from collections.abc import Iterable
 import collections
 import functools
+import heapq
 import itertools
 import typing
 
@@ -149,8 +150,8 @@ class TimeseriesDb:
 
     async def _query_partition(self, partition_id, params, subscription,
                                max_results):
-        events = collections.deque()
-        changes = self._changes
+        # copy because changes can be flushed prior to query execution
+        changes = list(self._changes.get(partition_id, []))
 
         filter = _Filter(subscription=subscription,
                          t_from=params.t_from,
@@ -160,26 +161,9 @@ class TimeseriesDb:
                          max_results=max_results + 1,
                          last_event_id=params.last_event_id)
 
-        if params.order == common.Order.DESCENDING:
-            events.extend(_query_partition_changes(
-                changes[partition_id], params, filter))
-
-            if not filter.done:
-                events.extend(await self._env.execute(
-                    _ext_query_partition_events, self._env, self._conditions,
-                    partition_id, params, filter))
-
-        elif params.order == common.Order.ASCENDING:
-            events.extend(await self._env.execute(
-                _ext_query_partition_events, self._env, self._conditions,
-                partition_id, params, filter))
-
-            if not filter.done:
-                events.extend(_query_partition_changes(
-                    changes[partition_id], params, filter))
-
-        else:
-            raise ValueError('unsupported order')
+        events = await self._env.execute(
+            _ext_query_partition_events, self._env, self._conditions,
+            partition_id, changes, params, filter)
 
         more_follows = len(events) > max_results
         while len(events) > max_results:
@@ -226,21 +210,24 @@ def _ext_init_partitions(env, txn, partitions):
         yield partition_id, partition
 
 
-def _ext_query_partition_events(env, conditions, partition_id, params,
-                                filter):
+def _ext_query_partition_events(env, conditions, partition_id, changes,
+                                params, filter):
     if params.order_by == common.OrderBy.TIMESTAMP:
-        events = _ext_query_partition_events_range(
-            env, partition_id, params.t_from, params.t_to, params.order)
+        t_from, t_to = params.t_from, params.t_to
 
     elif params.order_by == common.OrderBy.SOURCE_TIMESTAMP:
-        events = _ext_query_partition_events_range(
-            env, partition_id, params.source_t_from, params.source_t_to,
-            params.order)
+        t_from, t_to = params.source_t_from, params.source_t_to
 
     else:
         raise ValueError('unsupported order by')
 
-    events = (event for event in events if conditions.matches(event))
+    entries = _merge_entries(
+        _ext_query_partition_events_range(
+            env, partition_id, t_from, t_to, params.order),
+        _query_partition_changes(changes, t_from, t_to, params.order),
+        params.order)
+
+    events = (event for _, event in entries if conditions.matches(event))
     events = filter.process(events)
     return collections.deque(events)
 
@@ -274,7 +261,8 @@ def _ext_query_partition_events_range(env, partition_id, t_from, t_to, order):
                     more = cursor.last()
 
                 while more and encoded_stop_key <= bytes(cursor.key()):
-                    yield db_def.decode_value(cursor.value())
+                    yield (db_def.decode_key(cursor.key())[1],
+                           db_def.decode_value(cursor.value()))
                     more = cursor.prev()
 
             elif order == common.Order.ASCENDING:
@@ -284,7 +272,8 @@ def _ext_query_partition_events_range(env, partition_id, t_from, t_to, order):
                 more = cursor.set_range(encoded_start_key)
 
                 while more and bytes(cursor.key()) <= encoded_stop_key:
-                    yield db_def.decode_value(cursor.value())
+                    yield (db_def.decode_key(cursor.key())[1],
+                           db_def.decode_value(cursor.value()))
                     more = cursor.next()
 
             else:
@@ -393,65 +382,35 @@ def _ext_cleanup_partition(env, txn, now, partition_id, limit, max_results):
                                  entries_count - result_count)
 
 
-def _query_partition_changes(changes, params, filter):
-    if params.order == common.Order.DESCENDING:
-        events = (event for _, event in reversed(changes))
-
-        if (params.order_by == common.OrderBy.TIMESTAMP and
-                params.t_to is not None):
-            events = itertools.dropwhile(
-                lambda i: params.t_to < i.timestamp,
-                events)
-
-        elif (params.order_by == common.OrderBy.SOURCE_TIMESTAMP and
-                params.source_t_to is not None):
-            events = itertools.dropwhile(
-                lambda i: params.source_t_to < i.source_timestamp,
-                events)
-
-        if (params.order_by == common.OrderBy.TIMESTAMP and
-                params.t_from is not None):
-            events = itertools.takewhile(
-                lambda i: params.t_from <= i.timestamp,
-                events)
-
-        elif (params.order_by == common.OrderBy.SOURCE_TIMESTAMP and
-                params.source_t_from is not None):
-            events = itertools.takewhile(
-                lambda i: params.source_t_from <= i.source_timestamp,
-                events)
-
-    elif params.order == common.Order.ASCENDING:
-        events = (event for _, event in changes)
-
-        if (params.order_by == common.OrderBy.TIMESTAMP and
-                params.t_from is not None):
-            events = itertools.dropwhile(
-                lambda i: i.timestamp < params.t_from,
-                events)
-
-        elif (params.order_by == common.OrderBy.SOURCE_TIMESTAMP and
-                params.source_t_from is not None):
-            events = itertools.dropwhile(
-                lambda i: i.source_timestamp < params.source_t_from,
-                events)
-
-        if (params.order_by == common.OrderBy.TIMESTAMP and
-                params.t_to is not None):
-            events = itertools.takewhile(
-                lambda i: i.timestamp <= params.t_to,
-                events)
-
-        elif (params.order_by == common.OrderBy.SOURCE_TIMESTAMP and
-                params.source_t_to is not None):
-            events = itertools.takewhile(
-                lambda i: i.source_timestamp <= params.source_t_to,
-                events)
+def _query_partition_changes(changes, t_from, t_to, order):
+    # order of registration is not order of (source) timestamps
+    entries = ((timestamp, event) for timestamp, event in changes
+               if ((t_from is None or t_from <= timestamp) and
+                   (t_to is None or timestamp <= t_to)))
+
+    return sorted(entries, key=_get_entry_key,
+                  reverse=order == common.Order.DESCENDING)
 
-    else:
-        raise ValueError('unsupported order')
 
-    return filter.process(events)
+def _merge_entries(db_entries, changes_entries, order):
+    entries = heapq.merge(db_entries, changes_entries, key=_get_entry_key,
+                          reverse=order == common.Order.DESCENDING)
+    last_key = None
+
+    for entry in entries:
+        key = _get_entry_key(entry)
+
+        # already flushed change
+        if key == last_key:
+            continue
+
+        last_key = key
+        yield entry
+
+
+def _get_entry_key(entry):
+    timestamp, event = entry
+    return timestamp, event.id
 
 
 class _Filter:
@@ -472,10 +431,6 @@ class _Filter:
         self._max_results = max_results
         self._last_event_id = last_event_id
 
-    @property
-    def done(self):
-        return self._max_results < 1
-
     def process(self, events: Iterable[common.Event]):
         for event in events:
             if self._max_results < 1:
-- 
2.43.0


From c41336cfc2ac13ec8adc72dacdf6e4df85fb0360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:13:52 +0000
Subject: [PATCH 11/26] fix: reuse of event ids of events which are not stored
 by LMDB backend

---
 src_py/hat/event/backends/lmdb/backend.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src_py/hat/event/backends/lmdb/backend.py b/src_py/hat/event/backends/lmdb/backend.py
index edad17f..4fcbede 100644
--- a/src_py/hat/event/backends/lmdb/backend.py
+++ b/src_py/hat/event/backends/lmdb/backend.py
@@ -157,6 +157,10 @@ class LmdbBackend(common.Backend):
                 mlog.warning("event registration skipped: invalid timestamp")
                 continue
 
+            # event id can't be reused even if event is not stored
+            self._dbs.system.set_last_event_id(event.id)
+            self._dbs.system.set_last_timestamp(server_id, event.timestamp)
+
             if not self._conditions.matches(event):
                 mlog.warning(
                     "event %s registration skipped: invalid conditions",
@@ -179,8 +183,6 @@ class LmdbBackend(common.Backend):
                 continue
 
             self._dbs.ref.add(event, refs)
-            self._dbs.system.set_last_event_id(event.id)
-            self._dbs.system.set_last_timestamp(server_id, event.timestamp)
 
         self._registered_queue.append(events)
         self._registered_count += len(events)
-- 
2.43.0


From 4b337a0224936b0cc7d6729b462385de266264de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:50 +0000
Subject: [PATCH 12/26] fix: last event id, timeseries and server queries of
 memory backend

---
 src_py/hat/event/backends/memory.py | 31 +++++++++++++++++------------
 1 file changed, 18 insertions(+), 13 deletions(-)

diff --git a/src_py/hat/event/backends/memory.py b/src_py/hat/event/backends/memory.py
index 464ccbe..c057850 100644
--- a/src_py/hat/event/backends/memory.py
+++ b/src_py/hat/event/backends/memory.py
@@ -24,8 +24,8 @@ class MemoryBackend(common.Backend):
         return self._async_group
 
     async def get_last_event_id(self, server_id):
-        event_ids = (e.event_id for e in self._events
-                     if e.server == server_id)
+        event_ids = (e.id for e in self._events
+                     if e.id.server == server_id)
         default = common.EventId(server=server_id, session=0, instance=0)
         return max(event_ids, default=default)
 
@@ -89,9 +89,11 @@ class MemoryBackend(common.Backend):
             events = _filter_source_t_to(events, params.source_t_to)
 
         if params.order_by == common.OrderBy.TIMESTAMP:
-            sort_key = lambda event: event.timestamp, event  # NOQA
+            sort_key = lambda event: event.timestamp  # NOQA
         elif params.order_by == common.OrderBy.SOURCE_TIMESTAMP:
-            sort_key = lambda event: event.source_timestamp, event  # NOQA
+            events = (event for event in events
+                      if event.source_timestamp is not None)
+            sort_key = lambda event: event.source_timestamp  # NOQA
         else:
             raise ValueError('invalid order by')
 
@@ -102,7 +104,10 @@ class MemoryBackend(common.Backend):
         else:
             raise ValueError('invalid order by')
 
-        events = sorted(events, key=sort_key, reverse=sort_reverse)
+        # stable sort - secondary order is order of registration
+        events = sorted(events, key=sort_key)
+        if sort_reverse:
+            events.reverse()
 
         if params.last_event_id and events:
             for i, event in enumerate(events):
@@ -122,11 +127,9 @@ class MemoryBackend(common.Backend):
     def _query_server(self, params):
         events = sorted(_filter_server_id(self._events, params.server_id))
 
-        if params.last_event_id and events:
-            for i, event in enumerate(events):
-                if event.id > params.last_event_id:
-                    break
-            events = events[i:]
+        if params.last_event_id:
+            events = [event for event in events
+                      if event.id > params.last_event_id]
 
         if params.max_results is not None and len(events) > params.max_results:
             more_follows = True
@@ -162,17 +165,19 @@ def _filter_t_to(events, t_to):
 
 def _filter_source_t_from(events, source_t_from):
     for event in events:
-        if event.source_timestamp >= source_t_from:
+        if (event.source_timestamp is not None and
+                event.source_timestamp >= source_t_from):
             yield event
 
 
 def _filter_source_t_to(events, source_t_to):
     for event in events:
-        if event.source_timestamp <= source_t_to:
+        if (event.source_timestamp is not None and
+                event.source_timestamp <= source_t_to):
             yield event
 
 
 def _filter_server_id(events, server_id):
     for event in events:
-        if event.event_id.server == server_id:
+        if event.id.server == server_id:
             yield event
-- 
2.43.0


From e084399d828363812805a2e8113fbc914af72f75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:27 +0000
Subject: [PATCH 13/26] fix: opening of LMDB database after interrupted
 creation

---
 src_py/hat/event/backends/lmdb/common.py      |  5 +++--
 src_py/hat/event/backends/lmdb/environment.py | 17 +++++++++++------
 2 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/src_py/hat/event/backends/lmdb/common.py b/src_py/hat/event/backends/lmdb/common.py
index 1e9aa78..eff866e 100644
--- a/src_py/hat/event/backends/lmdb/common.py
+++ b/src_py/hat/event/backends/lmdb/common.py
@@ -156,9 +156,10 @@ def ext_create_env(path: Path,
 
 def ext_open_db(env: lmdb.Environment,
                 db_type: DbType,
-                create: bool = True
+                create: bool = True,
+                txn: lmdb.Transaction | None = None
                 ) -> lmdb._Database:
-    return env.open_db(db_type.name.encode('utf-8'), create=create)
+    return env.open_db(db_type.name.encode('utf-8'), txn=txn, create=create)
 
 
 def _encode_uint(value):
diff --git a/src_py/hat/event/backends/lmdb/environment.py b/src_py/hat/event/backends/lmdb/environment.py
index a17c1b1..45026f0 100644
--- a/src_py/hat/event/backends/lmdb/environment.py
+++ b/src_py/hat/event/backends/lmdb/environment.py
@@ -90,11 +90,16 @@ class Environment(aio.Resource):
         await self._executor.async_close()
 
     def _ext_init(self, db_path, max_size):
-        create = not db_path.exists()
-
         self._env = common.ext_create_env(path=db_path,
                                           max_size=max_size)
-        self._dbs = {db_type: common.ext_open_db(env=self._env,
-                                                 db_type=db_type,
-                                                 create=create)
-                     for db_type in common.DbType}
+
+        # databases are created in single transaction - environment file can
+        # exist without databases if previous creation was interrupted
+        create = not self._env.stat()['entries']
+
+        with self._env.begin(write=True) as txn:
+            self._dbs = {db_type: common.ext_open_db(env=self._env,
+                                                     db_type=db_type,
+                                                     create=create,
+                                                     txn=txn)
+                         for db_type in common.DbType}
-- 
2.43.0


From e62ca7f7af7175e392bee62c3ba9c03c04dc0a29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:27 +0000
Subject: [PATCH 14/26] fix: persisting of later changes after failed flush of
 LMDB backend

---
 src_py/hat/event/backends/lmdb/backend.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src_py/hat/event/backends/lmdb/backend.py b/src_py/hat/event/backends/lmdb/backend.py
index 4fcbede..2fc14d4 100644
--- a/src_py/hat/event/backends/lmdb/backend.py
+++ b/src_py/hat/event/backends/lmdb/backend.py
@@ -307,7 +307,13 @@ class LmdbBackend(common.Backend):
         #      (timeseries and ref must write changes before new queries are
         #      allowed)
 
-        await self._env.execute(_ext_flush, self._env, self._dbs, changes)
+        try:
+            await self._env.execute(_ext_flush, self._env, self._dbs, changes)
+
+        except Exception:
+            # later changes must not be written without these changes
+            self._env.close()
+            raise
 
         if not self._flushed_events_cb:
             return
-- 
2.43.0


From ee3e5c82a8e2aa81548f11f4f83a4c5a8ad47e58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:12 +0000
Subject: [PATCH 15/26] fix: boolean and number values of JSON condition of
 LMDB backend

---
 src_py/hat/event/backends/lmdb/conditions.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src_py/hat/event/backends/lmdb/conditions.py b/src_py/hat/event/backends/lmdb/conditions.py
index f1e3b77..feba490 100644
--- a/src_py/hat/event/backends/lmdb/conditions.py
+++ b/src_py/hat/event/backends/lmdb/conditions.py
@@ -93,7 +93,10 @@ class _JsonCondition:
                     return False
 
         if 'data_value' in self._conf:
-            if self._conf['data_value'] != data:
+            data_value = self._conf['data_value']
+
+            # python equality doesn't distinguish boolean and number values
+            if data_value != data or not json.equals(data_value, data):
                 return False
 
         return True
-- 
2.43.0


From e41aa18f9f2e992edb1472cf52da4b5425b5bb63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:00 +0000
Subject: [PATCH 16/26] fix: server query events of obsolete latest references
 of LMDB backend

---
 src_py/hat/event/backends/lmdb/refdb.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src_py/hat/event/backends/lmdb/refdb.py b/src_py/hat/event/backends/lmdb/refdb.py
index 3441c45..822a8d8 100644
--- a/src_py/hat/event/backends/lmdb/refdb.py
+++ b/src_py/hat/event/backends/lmdb/refdb.py
@@ -194,14 +194,16 @@ def _ext_query_events(env, server_id, max_results, last_event_id):
             while (available and
                     len(events) < max_results and
                     bytes(cursor.key()) < encoded_stop_key):
+                event_id = db_def.decode_key(cursor.key())
                 value = db_def.decode_value(cursor.value())
-                ref = util.first(value)
-                if not ref:
-                    continue
 
-                event = _ext_get_event(env, txn, ref)
+                # latest event reference can be obsolete - event is replaced
+                # without removal of reference if it doesn't match conditions
+                # or latest subscription of changed configuration
+                event = util.first((_ext_get_event(env, txn, ref)
+                                    for ref in value),
+                                   lambda i: i and i.id == event_id)
                 if event:
-                    # TODO decode key and check event_id == event.id
                     events.append(event)
 
                 available = cursor.next()
-- 
2.43.0


From 5ea44611dc1dc82c783699682faccffb7d330b50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:43 +0000
Subject: [PATCH 17/26] fix: ref and latest queries of LMDB manager

---
 src_py/hat/event/backends/lmdb/manager/query.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src_py/hat/event/backends/lmdb/manager/query.py b/src_py/hat/event/backends/lmdb/manager/query.py
index f2e7764..a13cd8f 100644
--- a/src_py/hat/event/backends/lmdb/manager/query.py
+++ b/src_py/hat/event/backends/lmdb/manager/query.py
@@ -57,13 +57,13 @@ def query(args):
                     _print_result(result)
 
             elif args.subaction == 'ref':
-                for result in _query_ref(dbs, txn):
+                for result in _query_ref(dbs, txn, args.server_id):
                     _print_result(result)
 
             elif args.subaction == 'latest':
                 event_types = ([tuple(i.split('/')) for i in args.event_types]
                                if args.event_types is not None else None)
-                for result in _query_ref(dbs, txn, event_types):
+                for result in _query_latest(dbs, txn, event_types):
                     _print_result(result)
 
             elif args.subaction == 'partition':
@@ -144,7 +144,7 @@ def _query_ref(dbs, txn, server_id):
 
         for event_ref in event_refs:
             if isinstance(event_ref, common.LatestEventRef):
-                latest_type_key = latest_type_db_def.encoded_key(event_ref.key)
+                latest_type_key = latest_type_db_def.encode_key(event_ref.key)
                 latest_type_value = txn.get(latest_type_key, db=latest_type_db)
 
                 event_type = latest_type_db_def.decode_value(latest_type_value)
@@ -173,7 +173,7 @@ def _query_latest(dbs, txn, event_types):
         if not subscription.matches(event.type):
             continue
 
-        yield common.event_to_json(value)
+        yield common.event_to_json(event)
 
 
 def _query_partition(dbs, txn, partition_id):
-- 
2.43.0


From cb2e67404ebe3b7d64b7a38b24a1b15faef1eb79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:56 +0000
Subject: [PATCH 18/26] fix: registration and timeseries/server queries of
 manager

---
 src_py/hat/event/manager/main.py | 28 ++++++++++------------------
 1 file changed, 10 insertions(+), 18 deletions(-)

diff --git a/src_py/hat/event/manager/main.py b/src_py/hat/event/manager/main.py
index 9be0e81..7ccf3d1 100644
--- a/src_py/hat/event/manager/main.py
+++ b/src_py/hat/event/manager/main.py
@@ -84,13 +84,12 @@ def create_argument_parser() -> argparse.ArgumentParser:
         default=None,
         help="to source timestamp")
     query_timeseries_parser.add_argument(
-        '--order', type=_parse_order, choices=[i.name for i in common.Order],
-        default=common.Order.DESCENDING,
+        '--order', choices=[i.name for i in common.Order],
+        default=common.Order.DESCENDING.name,
         help="order (default 'DESCENDING')")
     query_timeseries_parser.add_argument(
-        '--order-by', type=_parse_order_by,
-        choices=[i.name for i in common.OrderBy],
-        default=common.OrderBy.TIMESTAMP,
+        '--order-by', choices=[i.name for i in common.OrderBy],
+        default=common.OrderBy.TIMESTAMP.name,
         help="order (default 'TIMESTAMP')")
     query_timeseries_parser.add_argument(
         '--max-results', metavar='N', type=int, default=None,
@@ -174,13 +173,13 @@ def main():
                 t_to=args.t_to,
                 source_t_from=args.source_t_from,
                 source_t_to=args.source_t_to,
-                order=args.order,
-                order_by=args.order_by,
+                order=common.Order[args.order],
+                order_by=common.OrderBy[args.order_by],
                 max_results=args.max_results,
                 last_event_id=args.last_event_id)
 
         elif args.query_type == 'server':
-            params = common.QueryTimeseriesParams(
+            params = common.QueryServerParams(
                 server_id=args.server_id,
                 persisted=args.persisted,
                 max_results=args.max_results,
@@ -231,7 +230,8 @@ async def register(addr: tcp.Address,
                                    client_token=client_token)
 
     try:
-        result = await client.register([register_event])
+        result = await client.register([register_event],
+                                       with_response=True)
 
         if result is None:
             return 1
@@ -305,15 +305,7 @@ def _parse_event_type(event_type):
 
 
 def _parse_event_id(event_id):
-    return common.EventId(event_id.split(','))
-
-
-def _parse_order(order):
-    return common.Order[order]
-
-
-def _parse_order_by(order_by):
-    return common.OrderBy[order_by]
+    return common.EventId(*(int(i) for i in event_id.split(',')))
 
 
 def _read_payload(payload_type, binary_type, path):
-- 
2.43.0


From cdc64fcb2de818f616fc37ddbddd2237b4828c82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:06 +0000
Subject: [PATCH 19/26] fix: skip notified events obtained with query after
 synchronization

---
 src_py/hat/event/server/eventer_client.py | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/src_py/hat/event/server/eventer_client.py b/src_py/hat/event/server/eventer_client.py
index a65c6ea..d774108 100644
--- a/src_py/hat/event/server/eventer_client.py
+++ b/src_py/hat/event/server/eventer_client.py
@@ -49,6 +49,7 @@ async def create_eventer_client(addr: tcp.Address,
     client._synced_cb = synced_cb
     client._synced = None
     client._events_queue = collections.deque()
+    client._last_event_id = None
 
     client._client = await eventer.connect(addr=addr,
                                            client_name=client_name,
@@ -118,7 +119,7 @@ class EventerClient(aio.Resource):
             self._events_queue.append(events)
             return
 
-        await self._backend.register(events)
+        await self._register_notified(events)
 
     async def _synchronize(self):
         mlog.debug("starting synchronization")
@@ -163,14 +164,11 @@ class EventerClient(aio.Resource):
             if events:
                 await self._backend.register(events)
 
+            self._last_event_id = last_event_id
+
             mlog.debug("processing cached notify events")
             while self._events_queue:
-                events = [event for event in self._events_queue.popleft()
-                          if event.id > last_event_id]
-                if not events:
-                    continue
-
-                await self._backend.register(events)
+                await self._register_notified(self._events_queue.popleft())
 
             self._events_queue = None
 
@@ -185,6 +183,15 @@ class EventerClient(aio.Resource):
             mlog.error("synchronization error: %s", e, exc_info=e)
             self.close()
 
+    async def _register_notified(self, events):
+        # events obtained with query can be notified after synchronization
+        events = [event for event in events
+                  if event.id > self._last_event_id]
+        if not events:
+            return
+
+        await self._backend.register(events)
+
     async def _set_synced(self, state, count):
         self._synced = state
 
-- 
2.43.0


From e7df048577c367e3c86cd66760bc6c0a1c46ecb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:31 +0000
Subject: [PATCH 20/26] fix: close module created while engine is closing

---
 src_py/hat/event/server/engine.py | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/src_py/hat/event/server/engine.py b/src_py/hat/event/server/engine.py
index 93b8794..b8d8b40 100644
--- a/src_py/hat/event/server/engine.py
+++ b/src_py/hat/event/server/engine.py
@@ -49,13 +49,8 @@ async def create_engine(backend: common.Backend,
             source = common.Source(type=common.SourceType.MODULE,
                                    id=source_id)
 
-            module = await engine.async_group.spawn(
-                aio.call, info.create, module_conf, engine, source)
-            engine.async_group.spawn(aio.call_on_cancel, module.async_close)
-            engine.async_group.spawn(aio.call_on_done, module.wait_closing(),
-                                     engine.close)
-
-            engine._source_modules.append((source, module))
+            await engine.async_group.spawn(engine._create_module, info,
+                                           module_conf, source)
 
         engine.async_group.spawn(engine._register_loop)
 
@@ -116,6 +111,20 @@ class Engine(common.Engine):
     def reset_monitor_ready(self):
         self._reset_monitor_ready_cb()
 
+    async def _create_module(self, info, module_conf, source):
+        module = await aio.call(info.create, module_conf, self, source)
+
+        try:
+            self.async_group.spawn(aio.call_on_cancel, module.async_close)
+            self.async_group.spawn(aio.call_on_done, module.wait_closing(),
+                                   self.close)
+
+        except BaseException:
+            await aio.uncancellable(module.async_close())
+            raise
+
+        self._source_modules.append((source, module))
+
     async def _register_loop(self):
         future = None
         mlog.debug("starting register loop")
-- 
2.43.0


From 86a43cff9d79b1fe488b3f5442d172e449f00097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:31 +0000
Subject: [PATCH 21/26] fix: reconnect component if connection is lost while
 creating runner

---
 src_py/hat/event/component.py | 61 +++++++++++++++++++++++++----------
 1 file changed, 44 insertions(+), 17 deletions(-)

diff --git a/src_py/hat/event/component.py b/src_py/hat/event/component.py
index 7526480..b76c55a 100644
--- a/src_py/hat/event/component.py
+++ b/src_py/hat/event/component.py
@@ -248,27 +248,30 @@ class Component(aio.Resource):
 
                 try:
                     mlog.debug("connected to server")
-                    runner = await client.async_group.spawn(
-                        aio.call, self._runner_cb, self, server_data, client)
+                    runner = await self._create_runner(server_data, client)
 
-                    try:
-                        async with async_group.create_subgroup() as subgroup:
-                            client_closing_task = subgroup.spawn(
-                                client.wait_closing)
-                            runner_closing_task = subgroup.spawn(
-                                runner.wait_closing)
+                    if runner is None:
+                        mlog.debug("connection closed while creating runner")
 
-                            await asyncio.wait(
-                                [client_closing_task, runner_closing_task],
-                                return_when=asyncio.FIRST_COMPLETED)
+                    else:
+                        try:
+                            async with async_group.create_subgroup() as subgroup:  # NOQA
+                                client_closing_task = subgroup.spawn(
+                                    client.wait_closing)
+                                runner_closing_task = subgroup.spawn(
+                                    runner.wait_closing)
 
-                            if (runner_closing_task.done() and
-                                    not client_closing_task.done()):
-                                self.close()
-                                return
+                                await asyncio.wait(
+                                    [client_closing_task, runner_closing_task],
+                                    return_when=asyncio.FIRST_COMPLETED)
 
-                    finally:
-                        await aio.uncancellable(runner.async_close())
+                                if (runner_closing_task.done() and
+                                        not client_closing_task.done()):
+                                    self.close()
+                                    return
+
+                        finally:
+                            await aio.uncancellable(runner.async_close())
 
                 finally:
                     await aio.uncancellable(client.async_close())
@@ -282,3 +285,27 @@ class Component(aio.Resource):
 
         finally:
             async_group.close()
+
+    async def _create_runner(self, server_data, client):
+        # creation is canceled by closing of client's connection
+        task = client.async_group.spawn(aio.call, self._runner_cb, self,
+                                        server_data, client)
+
+        try:
+            await asyncio.wait([task])
+
+        except asyncio.CancelledError:
+            await aio.uncancellable(client.async_close())
+
+            if not task.cancelled() and not task.exception():
+                await aio.uncancellable(task.result().async_close())
+
+            raise
+
+        if task.cancelled():
+            return
+
+        if isinstance(task.exception(), ConnectionError) and not client.is_open:
+            return
+
+        return task.result()
-- 
2.43.0


From 4b5fc07da5f592866a66cdd554abbf8c7da81792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:41 +0000
Subject: [PATCH 22/26] fix: close LMDB environment if its creation is
 cancelled

---
 src_py/hat/event/backends/lmdb/environment.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src_py/hat/event/backends/lmdb/environment.py b/src_py/hat/event/backends/lmdb/environment.py
index 45026f0..29de00d 100644
--- a/src_py/hat/event/backends/lmdb/environment.py
+++ b/src_py/hat/event/backends/lmdb/environment.py
@@ -84,11 +84,15 @@ class Environment(aio.Resource):
                 cursor.put(encoded_key, encoded_value)
 
     async def _on_close(self):
-        if self._env:
-            await self._executor.spawn(self._env.close)
+        # previous executor tasks (including initialization) can be running
+        await self._executor.spawn(self._ext_close)
 
         await self._executor.async_close()
 
+    def _ext_close(self):
+        if self._env:
+            self._env.close()
+
     def _ext_init(self, db_path, max_size):
         self._env = common.ext_create_env(path=db_path,
                                           max_size=max_size)
-- 
2.43.0


From c1d89b37a863d5a0867236693f8914f948300f7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:11:52 +0000
Subject: [PATCH 23/26] fix: conversion removing source database used as
 temporary path

---
 src_py/hat/event/backends/lmdb/convert/main.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src_py/hat/event/backends/lmdb/convert/main.py b/src_py/hat/event/backends/lmdb/convert/main.py
index 533ddf8..f5f8d54 100644
--- a/src_py/hat/event/backends/lmdb/convert/main.py
+++ b/src_py/hat/event/backends/lmdb/convert/main.py
@@ -72,6 +72,9 @@ def convert(src_path: Path,
                 f"{dst_path.suffix}.{conversion.dst_version.name}")
 
         if tmp_dst_path.exists():
+            if tmp_dst_path.samefile(src_path):
+                raise Exception(f"{src_path} is used as temporary path")
+
             tmp_dst_path.unlink()
 
         conversion.convert(tmp_src_path, tmp_dst_path)
-- 
2.43.0


From 28f26d734ed7e5a68fd254d8246d55dcdbb97494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:21 +0000
Subject: [PATCH 24/26] fix: C subscription of event type not disjoint with
 longer event types

---
 src_c/py/subscription/_csubscription.c | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src_c/py/subscription/_csubscription.c b/src_c/py/subscription/_csubscription.c
index d9605e8..31b967e 100644
--- a/src_c/py/subscription/_csubscription.c
+++ b/src_c/py/subscription/_csubscription.c
@@ -214,11 +214,8 @@ static bool isdisjoint(node_t *first, node_t *second) {
     if (second->has_star)
         return !first->is_leaf && !first->children;
 
-    if (!first->children)
-        return !first->is_leaf || !second->children;
-
-    if (!second->children)
-        return !second->is_leaf || !first->children;
+    if (!first->children || !second->children)
+        return true;
 
     node_t *first_child;
     node_t *second_child;
-- 
2.43.0


From 415a34db9a742f4e25d3450af32846a7ef8dc15b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:21 +0000
Subject: [PATCH 25/26] fix: C subscription subtype with asterisk followed by
 zero byte

---
 src_c/py/subscription/_csubscription.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src_c/py/subscription/_csubscription.c b/src_c/py/subscription/_csubscription.c
index 31b967e..f4a300c 100644
--- a/src_c/py/subscription/_csubscription.c
+++ b/src_c/py/subscription/_csubscription.c
@@ -51,7 +51,7 @@ static int add_query_type(node_t *node, PyObject *query_type_iter) {
         return 1;
     }
 
-    if (strcmp(key, "*") == 0) {
+    if (key_size == 1 && key[0] == '*') {
         PyObject *next = PyIter_Next(query_type_iter);
         if (next) {
             Py_DECREF(next);
-- 
2.43.0


From b0396fa4d04749328cfa0aae1b0c5f9c092f6611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:06:35 +0000
Subject: [PATCH 26/26] fix: eventer and adminer requests blocked on full send
 queue fail with ConnectionError

---
 src_py/hat/event/eventer/common.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src_py/hat/event/eventer/common.py b/src_py/hat/event/eventer/common.py
index b6f170a..423400f 100644
--- a/src_py/hat/event/eventer/common.py
+++ b/src_py/hat/event/eventer/common.py
@@ -2,6 +2,7 @@ from hat.event.common import *  # NOQA
 
 import typing
 
+from hat import aio
 from hat import sbs
 from hat.drivers import chatter
 
@@ -17,7 +18,12 @@ async def send_msg(conn: chatter.Connection,
                    **kwargs
                    ) -> chatter.Conversation:
     msg = sbs_repo.encode(msg_type, msg_data)
-    return await conn.send(chatter.Data(msg_type, msg), **kwargs)
+
+    try:
+        return await conn.send(chatter.Data(msg_type, msg), **kwargs)
+
+    except aio.QueueClosedError:
+        raise ConnectionError()
 
 
 async def receive_msg(conn: chatter.Connection
-- 
2.43.0

