From c81141b5ae92910edf0fadb58ffc321d5cdb3623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:28 +0000
Subject: [PATCH 01/44] fix: fail requests in flight when their connection is
 closed or lost

Connection.abort() used Future.set_exc_info(), which tornado 5 removed, and a
StreamClosedError or a local close() left the futures of outstanding requests
unresolved forever, hanging every caller.
---
 kiel/connection.py | 42 +++++++++++++++++++++++++++---------------
 1 file changed, 27 insertions(+), 15 deletions(-)

diff --git a/kiel/connection.py b/kiel/connection.py
index b0ec3d1..77dcdc0 100644
--- a/kiel/connection.py
+++ b/kiel/connection.py
@@ -77,22 +77,27 @@ class Connection(object):
         """
         Sets the ``closing`` attribute to ``True`` and calls ``close()`` on the
         underlying stream.
+
+        Any requests still waiting on a response will never get one, so their
+        futures are failed with a ``StreamClosedError``.
         """
         self.closing = True
         self.stream.close()
+        self.fail_pending(iostream.StreamClosedError())
 
     @contextlib.contextmanager
     def socket_error_handling(self, failure_message):
         """
         helper contextmanager for handling errors during IOStream operations.
 
-        Handles the StreamClosedError case by setting the ``closing`` flag,
-        logs any unexpected exceptions with a failure message.
+        Handles the StreamClosedError case by aborting the connection with a
+        ``BrokerConnectionError``, logs any unexpected exceptions with a
+        failure message.
         """
         try:
             yield
         except iostream.StreamClosedError:
-            self.closing = True
+            self.abort(BrokerConnectionError(self.host, self.port))
         except Exception:
             if not self.closing:
                 log.exception(failure_message)
@@ -150,30 +155,37 @@ class Connection(object):
                 message = yield self.read_message()
                 self.pending.pop(message.correlation_id).set_result(message)
 
-    def abort(self):
+    def abort(self, error=None):
         """
         Aborts a connection and puts all pending futures into an error state.
 
-        If ``sys.exc_info()`` is set (i.e. this is being called in an exception
-        handler) then pending futures will have that exc info set.  Otherwise
-        a ``BrokerConnectionError`` is used.
+        The pending futures are failed with the given ``error``.  If there is
+        none and ``sys.exc_info()`` is set (i.e. this is being called in an
+        exception handler) then that exception is used, otherwise a
+        ``BrokerConnectionError``.
         """
         if self.closing:
             return
 
         log.warn("Aborting connection to %s:%s", self.host, self.port)
 
-        self.close()
+        error = error or sys.exc_info()[1]
+        if error is None:
+            error = BrokerConnectionError(self.host, self.port)
+
+        self.closing = True
+        self.stream.close()
+        self.fail_pending(error)
+
+    def fail_pending(self, error):
+        """
+        Fails the futures of every request that has not been responded to.
+        """
         self.api_correlation.clear()
         while self.pending:
             _, pending = self.pending.popitem()
-            exc_info = sys.exc_info()
-            if any(exc_info):
-                pending.set_exc_info(sys.exc_info())
-            else:
-                pending.set_exception(
-                    BrokerConnectionError(self.host, self.port)
-                )
+            if not pending.done():
+                pending.set_exception(error)
 
     @gen.coroutine
     def read_message(self):
-- 
2.43.0


From fb3fe491bad00618d160d9890cf6a220f3c41ff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:38 +0000
Subject: [PATCH 02/44] fix: render a message whose CRC is exactly 2^31

The CRC was left unsigned in that case and could not be packed.
---
 kiel/protocol/messages.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kiel/protocol/messages.py b/kiel/protocol/messages.py
index 9becef2..f13162b 100644
--- a/kiel/protocol/messages.py
+++ b/kiel/protocol/messages.py
@@ -174,7 +174,7 @@ class Message(Part):
         payload = struct.pack("!" + fmt, *data)
 
         crc = zlib.crc32(payload)
-        if crc > (2**31):
+        if crc >= (2**31):
             crc -= 2**32
 
         fmt = "i%ds" % len(payload)
-- 
2.43.0


From 4a7cb4197f52cc8c056006e4046bdae162479e87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:38 +0000
Subject: [PATCH 03/44] fix: keep correlation ids encodable however many
 requests are made

Ids now wrap within the range of a signed 32-bit integer.
---
 kiel/protocol/request.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/kiel/protocol/request.py b/kiel/protocol/request.py
index 7980488..4c61e7e 100644
--- a/kiel/protocol/request.py
+++ b/kiel/protocol/request.py
@@ -25,11 +25,12 @@ def generate_correlation_id():
     Creates a new ``correlation_id`` for requests.
 
     Increments the ``last_id`` value so each generated ID is unique for
-    this machine and process.
+    this machine and process.  Wraps around in order to always fit into the
+    signed 32-bit integer used on the wire.
     """
     global last_id
 
-    last_id += 1
+    last_id = (last_id + 1) & 0x7fffffff
 
     return last_id
 
-- 
2.43.0


From df34edb6aa857dce20e9ffebb7142aa009478aa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:40 +0000
Subject: [PATCH 04/44] fix: don't let a cut off message set disturb what
 follows it

A message cut off at the end of a set was completed with the bytes of the
next partition in the response, and parsing went on from the wrong offset.
---
 kiel/protocol/messages.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/kiel/protocol/messages.py b/kiel/protocol/messages.py
index f13162b..90bd74f 100644
--- a/kiel/protocol/messages.py
+++ b/kiel/protocol/messages.py
@@ -124,9 +124,11 @@ class MessageSet(object):
             size, offset = Int32.parse(buff, offset)
 
         end = offset + size
+        # never read past this set, whatever follows it isn't ours to parse
+        buff = buff[:end]
 
         messages = []
-        while not offset == end:
+        while offset < end:
             try:
                 message_offset, offset = Int64.parse(buff, offset)
                 _, offset = Int32.parse(buff, offset)  # message size
@@ -142,7 +144,7 @@ class MessageSet(object):
             else:
                 messages.append((message_offset, message))
 
-        return cls(messages), offset
+        return cls(messages), end
 
 
 class Message(Part):
-- 
2.43.0


From a1853553e2d66b598371007eda5aaa4d59937b52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:40 +0000
Subject: [PATCH 05/44] fix: decompress every snappy block

Trailing blocks shorter than the header were silently dropped.
---
 kiel/compression/snappy.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/kiel/compression/snappy.py b/kiel/compression/snappy.py
index e3c3ef0..553e1df 100644
--- a/kiel/compression/snappy.py
+++ b/kiel/compression/snappy.py
@@ -65,11 +65,11 @@ def decompress(data):
         raise RuntimeError("Snappy compression unavailable.")
 
     buff_offset = len(raw_header)  # skip the header
-    length = len(data) - len(raw_header)
+    length = len(data)
 
     output = BytesIO()
 
-    while buff_offset <= length:
+    while buff_offset < length:
         block_size = struct.unpack_from("!i", data, buff_offset)[0]
         buff_offset += struct.calcsize("!i")
 
-- 
2.43.0


From 00ff6af50a152ced8f6029bfc5917b9d0fcf1232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:07 +0000
Subject: [PATCH 06/44] fix: try the next bootstrap host if one doesn't answer

Losing the connection to a bootstrap host before it had sent its metadata
failed the whole startup, and left the connection open.
---
 kiel/cluster.py | 35 +++++++++++++++++++++++------------
 1 file changed, 23 insertions(+), 12 deletions(-)

diff --git a/kiel/cluster.py b/kiel/cluster.py
index e399be3..b49c47c 100644
--- a/kiel/cluster.py
+++ b/kiel/cluster.py
@@ -78,19 +78,31 @@ class Cluster(object):
         request.  Once a metadata request is successful the `heal()` method
         is called.
         """
-        response = None
+        response = yield self.get_bootstrap_metadata()
+
+        if not response:
+            raise NoBrokersError
 
+        log.info("Metadata gathered, setting up connections.")
+        yield self.heal(response)
+
+    @gen.coroutine
+    def get_bootstrap_metadata(self):
+        """
+        Retrieves metadata from the first bootstrap host to respond.
+
+        Results in ``None`` if there is no such host.
+        """
         for host in self.bootstrap_hosts:
             if ":" in host:
                 host, port = host.split(":")
             else:
                 port = DEFAULT_KAFKA_PORT
 
-            conn = Connection(host, int(port))
-
             log.info("Using bootstrap host '%s'", host)
 
             try:
+                conn = Connection(host, int(port))
                 yield conn.connect()
             except (iostream.StreamClosedError, BrokerConnectionError):
                 log.warn("Could not connect to bootstrap %s:%s", host, port)
@@ -99,16 +111,15 @@ class Cluster(object):
                 log.exception("Error connecting to bootstrap host '%s'", host)
                 continue
 
-            response = yield conn.send(metadata.MetadataRequest(topics=[]))
-
-            conn.close()
-            break
-
-        if not response:
-            raise NoBrokersError
+            try:
+                response = yield conn.send(metadata.MetadataRequest(topics=[]))
+            except Exception:
+                log.exception("No metadata from bootstrap host '%s'", host)
+                continue
+            finally:
+                conn.close()
 
-        log.info("Metadata gathered, setting up connections.")
-        yield self.heal(response)
+            raise gen.Return(response)
 
     @gen.coroutine
     def heal(self, response=None):
-- 
2.43.0


From cdf58e58f235320679a85ba63b9acf74dd94aa8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:09 +0000
Subject: [PATCH 07/44] fix: fall back on the bootstrap hosts once every
 connection is lost

A client that lost all of its connections could never recover.  Also keeps
on trying connections when one fails with an undecodable response and when
the connections change meanwhile.
---
 kiel/cluster.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/kiel/cluster.py b/kiel/cluster.py
index b49c47c..11e73e2 100644
--- a/kiel/cluster.py
+++ b/kiel/cluster.py
@@ -161,14 +161,15 @@ class Cluster(object):
         to a set of topics.
 
         Each connection in the cluster is tried until one works.  If no
-        connection in the cluster responds, a ``NoBrokersError`` is raised.
+        connection in the cluster responds the bootstrap hosts are tried,
+        failing those a ``NoBrokersError`` is raised.
         """
         log.debug("Gathering metadata (topics=%s)", topics)
         if topics is None:
             topics = []
 
         response = None
-        for conn in self.conns.values():
+        for conn in list(self.conns.values()):
             try:
                 response = yield conn.send(
                     metadata.MetadataRequest(topics=topics)
@@ -176,6 +177,14 @@ class Cluster(object):
                 break
             except (iostream.StreamClosedError, BrokerConnectionError):
                 continue
+            except Exception:
+                log.exception(
+                    "Error getting metadata from %s:%s", conn.host, conn.port
+                )
+                continue
+
+        if not response:
+            response = yield self.get_bootstrap_metadata()
 
         if not response:
             raise NoBrokersError
-- 
2.43.0


From 9fbb78c9fb956deb3471358771b7889d5c8e92a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:12 +0000
Subject: [PATCH 08/44] fix: don't forget known topics when some are missing
 data

Only the missing topics' metadata was asked for on subsequent attempts,
yet the result replaced that of every topic.  Topics whose leaders are yet
to be elected now count as missing too.
---
 kiel/cluster.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/kiel/cluster.py b/kiel/cluster.py
index 11e73e2..bde3531 100644
--- a/kiel/cluster.py
+++ b/kiel/cluster.py
@@ -150,7 +150,7 @@ class Cluster(object):
         missing_topics = self.process_topics(response.topics)
 
         while missing_conns or missing_topics:
-            response = yield self.get_metadata(topics=list(missing_topics))
+            response = yield self.get_metadata()
             missing_conns = yield self.process_brokers(response.brokers)
             missing_topics = self.process_topics(response.topics)
 
@@ -254,7 +254,9 @@ class Cluster(object):
             if topic.error_code == errors.unknown_topic_or_partition:
                 log.error("Unknown topic %s", topic.name)
                 continue
-            if topic.error_code == errors.replica_not_available:
+            if topic.error_code in (
+                    errors.leader_not_available, errors.replica_not_available
+            ):
                 missing.add(topic.name)
                 continue
 
-- 
2.43.0


From 60fe2ab4ad2c035effbca0e7bf1332525de47d5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:45 +0000
Subject: [PATCH 09/44] fix: replace connections to brokers that are gone or
 have moved

A broker known under a new address kept its old connection, and aborted
connections were still taken for working ones.
---
 kiel/cluster.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/kiel/cluster.py b/kiel/cluster.py
index bde3531..d39dc46 100644
--- a/kiel/cluster.py
+++ b/kiel/cluster.py
@@ -198,16 +198,20 @@ class Cluster(object):
         metadata, returning a set of broker IDs that were in the metadata but
         had failing connections.
 
-        Known connections that are not present in the given metadata will have
-        ``abort()`` called on them.
+        Known connections that are not present in the given metadata, or that
+        are to a different address, will have ``abort()`` called on them.
         """
         to_drop = set(self.conns.keys()) - set([b.broker_id for b in brokers])
 
         missing = set()
 
         for broker in brokers:
-            if broker.broker_id in self.conns:
-                continue
+            known = self.conns.get(broker.broker_id)
+            if known and not known.closing:
+                if (known.host, known.port) == (broker.host, broker.port):
+                    continue
+                known.abort()
+            self.conns.pop(broker.broker_id, None)
 
             try:
                 conn = Connection(broker.host, broker.port)
@@ -230,6 +234,7 @@ class Cluster(object):
 
         for broker_id in to_drop:
             self.conns[broker_id].abort()
+            self.conns.pop(broker_id, None)
 
         raise gen.Return(missing)
 
-- 
2.43.0


From 52bb622411d1f9a301dd6a948563d09528f3cce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:47 +0000
Subject: [PATCH 10/44] fix: don't let heals of a cluster overlap

Two heals could each open a connection to the same broker, one of which
was then never closed, or trip over each other's removals.
---
 kiel/cluster.py | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/kiel/cluster.py b/kiel/cluster.py
index d39dc46..571d3f9 100644
--- a/kiel/cluster.py
+++ b/kiel/cluster.py
@@ -1,7 +1,7 @@
 import collections
 import logging
 
-from tornado import gen, iostream
+from tornado import concurrent, gen, iostream
 
 from kiel.protocol import metadata, errors
 from kiel.constants import DEFAULT_KAFKA_PORT
@@ -30,6 +30,9 @@ class Cluster(object):
         self.topics = collections.defaultdict(list)
         self.leaders = collections.defaultdict(dict)
 
+        # done whenever there isn't a heal in progress
+        self.healed = None
+
     def __getitem__(self, broker_id):
         """
         Proxies to the ``__getitem__`` of the underlying conns dictionary.
@@ -133,6 +136,22 @@ class Cluster(object):
         cluster.  This is followed by repeated calls to `process_brokers()` and
         `process_topics()` until both signal that there are no missing brokers
         or topics.
+
+        Only a single heal is in progress at any one time, others wait for it.
+        """
+        while self.healed and not self.healed.done():
+            yield self.healed
+
+        self.healed = concurrent.Future()
+        try:
+            yield self.sync(response)
+        finally:
+            self.healed.set_result(None)
+
+    @gen.coroutine
+    def sync(self, response=None):
+        """
+        Does the actual work of `heal()`.
         """
         if not response:
             response = yield self.get_metadata()
-- 
2.43.0


From 35c7401ac59aa0984fdae9c226521148262e4302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:17 +0000
Subject: [PATCH 11/44] fix: leave no connections behind when stopping during a
 heal

Connections being established when the cluster was stopped stayed open,
and the heal went on to open more.
---
 kiel/cluster.py | 40 +++++++++++++++++++++++++++++++++++-----
 1 file changed, 35 insertions(+), 5 deletions(-)

diff --git a/kiel/cluster.py b/kiel/cluster.py
index 571d3f9..f5910b0 100644
--- a/kiel/cluster.py
+++ b/kiel/cluster.py
@@ -33,6 +33,10 @@ class Cluster(object):
         # done whenever there isn't a heal in progress
         self.healed = None
 
+        self.stopped = False
+        # connections that aren't part of ``self.conns`` (yet)
+        self.opened = set()
+
     def __getitem__(self, broker_id):
         """
         Proxies to the ``__getitem__`` of the underlying conns dictionary.
@@ -89,6 +93,27 @@ class Cluster(object):
         log.info("Metadata gathered, setting up connections.")
         yield self.heal(response)
 
+    @gen.coroutine
+    def open_connection(self, host, port):
+        """
+        Results in a newly established ``Connection``, kept in ``self.opened``.
+
+        Raises ``NoBrokersError`` if the cluster was stopped, as there are to
+        be no more connections from then on.
+        """
+        if self.stopped:
+            raise NoBrokersError
+
+        conn = Connection(host, port)
+        self.opened.add(conn)
+        try:
+            yield conn.connect()
+        except Exception:
+            self.opened.discard(conn)
+            raise
+
+        raise gen.Return(conn)
+
     @gen.coroutine
     def get_bootstrap_metadata(self):
         """
@@ -105,8 +130,7 @@ class Cluster(object):
             log.info("Using bootstrap host '%s'", host)
 
             try:
-                conn = Connection(host, int(port))
-                yield conn.connect()
+                conn = yield self.open_connection(host, int(port))
             except (iostream.StreamClosedError, BrokerConnectionError):
                 log.warn("Could not connect to bootstrap %s:%s", host, port)
                 continue
@@ -120,6 +144,7 @@ class Cluster(object):
                 log.exception("No metadata from bootstrap host '%s'", host)
                 continue
             finally:
+                self.opened.discard(conn)
                 conn.close()
 
             raise gen.Return(response)
@@ -233,9 +258,9 @@ class Cluster(object):
             self.conns.pop(broker.broker_id, None)
 
             try:
-                conn = Connection(broker.host, broker.port)
-                yield conn.connect()
+                conn = yield self.open_connection(broker.host, broker.port)
                 self.conns[broker.broker_id] = conn
+                self.opened.discard(conn)
             except iostream.StreamClosedError:
                 log.warn(
                     "Could not add broker %s (%s:%s)",
@@ -311,6 +336,11 @@ class Cluster(object):
     def stop(self):
         """
         Simple method that calls ``close()`` on each connection.
+
+        Also marks the cluster as stopped, so that any heal in progress ends
+        rather than establishing new ones.
         """
-        for conn in self.conns.values():
+        self.stopped = True
+
+        for conn in list(self.conns.values()) + list(self.opened):
             conn.close()
-- 
2.43.0


From 640ddf1dd1f06bbfee5591107fe95634a28ac328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:35 +0000
Subject: [PATCH 12/44] fix: close connections even if winding down a client
 fails

---
 kiel/clients/client.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/kiel/clients/client.py b/kiel/clients/client.py
index aeff3c1..00722ca 100644
--- a/kiel/clients/client.py
+++ b/kiel/clients/client.py
@@ -40,9 +40,10 @@ class Client(object):
         """
         self.closing = True
 
-        yield self.wind_down()
-
-        self.cluster.stop()
+        try:
+            yield self.wind_down()
+        finally:
+            self.cluster.stop()
 
     @gen.coroutine
     def wind_down(self):
-- 
2.43.0


From 8d359e5ae50673dbc265a19cfe2a4b1c2b057ad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:37 +0000
Subject: [PATCH 13/44] fix: don't lose track of the need to heal the cluster

The flag was lowered after a heal even if something else went wrong in the
meantime, and a heal that failed when called for directly left no trace.
---
 kiel/clients/client.py   | 18 ++++++++++++++++--
 kiel/clients/consumer.py |  2 +-
 kiel/clients/producer.py |  2 +-
 3 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/kiel/clients/client.py b/kiel/clients/client.py
index 00722ca..79cd777 100644
--- a/kiel/clients/client.py
+++ b/kiel/clients/client.py
@@ -45,6 +45,21 @@ class Client(object):
         finally:
             self.cluster.stop()
 
+    @gen.coroutine
+    def heal(self):
+        """
+        Heals the cluster, the ``heal_cluster`` flag stays set if that fails.
+
+        The flag is lowered beforehand as it might well be raised again, by
+        another operation, while the heal is in progress.
+        """
+        self.heal_cluster = False
+        try:
+            yield self.cluster.heal()
+        except Exception:
+            self.heal_cluster = True
+            raise
+
     @gen.coroutine
     def wind_down(self):
         """
@@ -103,7 +118,6 @@ class Client(object):
             results[int(iterator.current_index)] = result
 
         if self.heal_cluster:
-            yield self.cluster.heal()
-            self.heal_cluster = False
+            yield self.heal()
 
         raise gen.Return(results)
diff --git a/kiel/clients/consumer.py b/kiel/clients/consumer.py
index 98863ba..11c5802 100644
--- a/kiel/clients/consumer.py
+++ b/kiel/clients/consumer.py
@@ -97,7 +97,7 @@ class BaseConsumer(Client):
 
         if topic not in self.allocation or not self.allocation[topic]:
             log.debug("Consuming unknown topic %s, reloading metadata", topic)
-            yield self.cluster.heal()
+            yield self.heal()
 
         if topic not in self.allocation or not self.allocation[topic]:
             log.error("Consuming unknown topic %s and not auto-created", topic)
diff --git a/kiel/clients/producer.py b/kiel/clients/producer.py
index a70a4b3..1b45a82 100644
--- a/kiel/clients/producer.py
+++ b/kiel/clients/producer.py
@@ -96,7 +96,7 @@ class Producer(Client):
 
         if topic not in self.cluster.topics:
             log.debug("Producing to unknown topic %s, loading metadata", topic)
-            yield self.cluster.heal()
+            yield self.heal()
 
         if topic not in self.cluster.topics:
             log.error("Unknown topic %s and not auto-created", topic)
-- 
2.43.0


From cf0950ac62ef0f89889a7f49b03c05cbc276b6b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:39 +0000
Subject: [PATCH 14/44] fix: heal the cluster rather than fail on requests to
 unknown brokers

---
 kiel/clients/client.py | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/kiel/clients/client.py b/kiel/clients/client.py
index 79cd777..803e21b 100644
--- a/kiel/clients/client.py
+++ b/kiel/clients/client.py
@@ -82,17 +82,23 @@ class Client(object):
         a ``handle_<response.api>_response`` method available to handle an
         incoming response object.
 
-        If an error occurs in a response, the ``heal_cluster`` flag is set
-        and the ``heal()`` method on the cluster is called after processing
-        each response.
+        If an error occurs in a response, or if a broker is not a part of the
+        cluster any more, the ``heal_cluster`` flag is set and the ``heal()``
+        method on the cluster is called after processing each response.
 
         Responses are handled in the order they come in, but this method does
         not yield a value until all responses are handled.
         """
-        iterator = gen.WaitIterator(**{
-            str(broker_id): self.cluster[broker_id].send(request)
-            for broker_id, request in six.iteritems(request_by_broker)
-        })
+        pending = {}
+        for broker_id, request in six.iteritems(request_by_broker):
+            if broker_id not in self.cluster:
+                log.info("No connection to broker %s", broker_id)
+                self.heal_cluster = True
+                continue
+
+            pending[str(broker_id)] = self.cluster[broker_id].send(request)
+
+        iterator = gen.WaitIterator(**pending)
 
         results = {}
         while not iterator.done():
-- 
2.43.0


From 98951ae01f06a98cc70e0f394907a7335b17494e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:54 +0000
Subject: [PATCH 15/44] fix: return the results there are even if the cluster
 can't be healed

Fetched messages were dropped, their offsets already advanced, when brokers
could not be reached right afterwards.
---
 kiel/clients/client.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/kiel/clients/client.py b/kiel/clients/client.py
index 803e21b..598913e 100644
--- a/kiel/clients/client.py
+++ b/kiel/clients/client.py
@@ -3,7 +3,9 @@ import logging
 import six
 from tornado import gen, iostream
 
-from kiel.exc import BrokerConnectionError, UnhandledResponseError
+from kiel.exc import (
+    BrokerConnectionError, NoBrokersError, UnhandledResponseError
+)
 from kiel.cluster import Cluster
 
 
@@ -84,7 +86,9 @@ class Client(object):
 
         If an error occurs in a response, or if a broker is not a part of the
         cluster any more, the ``heal_cluster`` flag is set and the ``heal()``
-        method on the cluster is called after processing each response.
+        method on the cluster is called after processing each response.  If
+        that fails the results there are are returned regardless, and healing
+        is attempted again with the next request.
 
         Responses are handled in the order they come in, but this method does
         not yield a value until all responses are handled.
@@ -124,6 +128,11 @@ class Client(object):
             results[int(iterator.current_index)] = result
 
         if self.heal_cluster:
-            yield self.heal()
+            try:
+                yield self.heal()
+            except NoBrokersError:
+                if not results:
+                    raise
+                log.warning("Unable to heal the cluster for now.")
 
         raise gen.Return(results)
-- 
2.43.0


From a608951929f1c85f5739496c539037a1e0736a57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:12 +0000
Subject: [PATCH 16/44] fix: cope with error codes that aren't listed in
 ERROR_CODES

Looking up the name to log of such a code raised a KeyError, leaving the
rest of the response unprocessed.
---
 kiel/clients/consumer.py |  3 ++-
 kiel/clients/grouped.py  | 12 +++++++++---
 kiel/clients/producer.py |  3 ++-
 kiel/clients/single.py   |  3 ++-
 4 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/kiel/clients/consumer.py b/kiel/clients/consumer.py
index 11c5802..59e4932 100644
--- a/kiel/clients/consumer.py
+++ b/kiel/clients/consumer.py
@@ -169,7 +169,8 @@ class BaseConsumer(Client):
             else:
                 log.error(
                     "Got error %s for topic %s partition %s",
-                    ERROR_CODES[code], topic, partition.partition_id
+                    ERROR_CODES.get(code, code),
+                    topic, partition.partition_id
                 )
 
         return messages
diff --git a/kiel/clients/grouped.py b/kiel/clients/grouped.py
index d996804..30a01ea 100644
--- a/kiel/clients/grouped.py
+++ b/kiel/clients/grouped.py
@@ -134,7 +134,12 @@ class GroupedConsumer(BaseConsumer):
             self.heal_cluster = True
             determined = False
         else:
-            log.error("Got error %s when determining coordinator")
+            log.error(
+                "Got error %s when determining coordinator",
+                constants.ERROR_CODES.get(
+                    response.error_code, response.error_code
+                )
+            )
             determined = True
 
         return determined
@@ -203,7 +208,8 @@ class GroupedConsumer(BaseConsumer):
             else:
                 log.error(
                     "Got error %s for topic %s partition %s",
-                    constants.ERROR_CODES[code], topic, partition.partition_id
+                    constants.ERROR_CODES.get(code, code),
+                    topic, partition.partition_id
                 )
                 raise exc.NoOffsetsError
 
@@ -276,7 +282,7 @@ class GroupedConsumer(BaseConsumer):
                 else:
                     log.error(
                         "Got error %s for topic %s partition %s",
-                        constants.ERROR_CODES[code],
+                        constants.ERROR_CODES.get(code, code),
                         topic, partition.partition_id
                     )
 
diff --git a/kiel/clients/producer.py b/kiel/clients/producer.py
index 1b45a82..6f13e6d 100644
--- a/kiel/clients/producer.py
+++ b/kiel/clients/producer.py
@@ -217,7 +217,8 @@ class Producer(Client):
                 else:
                     log.error(
                         "Got error %s for topic %s partition %s",
-                        ERROR_CODES[code], topic.name, partition.partition_id
+                        ERROR_CODES.get(code, code),
+                        topic.name, partition.partition_id
                     )
 
         self.sent.pop(response.correlation_id)
diff --git a/kiel/clients/single.py b/kiel/clients/single.py
index 3f749e6..d73db78 100644
--- a/kiel/clients/single.py
+++ b/kiel/clients/single.py
@@ -115,7 +115,8 @@ class SingleConsumer(BaseConsumer):
             else:
                 log.error(
                     "Got error %s for topic %s partition %s",
-                    ERROR_CODES[code], topic, partition.partition_id
+                    ERROR_CODES.get(code, code),
+                    topic, partition.partition_id
                 )
                 raise NoOffsetsError
 
-- 
2.43.0


From 2b6f52d9e95880c556303459445aa8655b839d19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:14 +0000
Subject: [PATCH 17/44] fix: retry messages ahead of those produced later

---
 kiel/clients/producer.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/kiel/clients/producer.py b/kiel/clients/producer.py
index 6f13e6d..bb7bd1c 100644
--- a/kiel/clients/producer.py
+++ b/kiel/clients/producer.py
@@ -116,12 +116,13 @@ class Producer(Client):
 
     def queue_retries(self, topic, msgs):
         """
-        Re-inserts the given messages into the ``unsent`` structure.
+        Re-inserts the given messages into the ``unsent`` structure, ahead of
+        any messages that were produced later.
 
         This also sets the flag to denote that a cluster "heal" is necessary.
         """
         log.debug("Queueing %d messages for retry", len(msgs))
-        self.unsent[topic].extend(msgs)
+        self.unsent[topic][:0] = msgs
         self.heal_cluster = True
 
     @gen.coroutine
-- 
2.43.0


From 3f0d01f68c21de0150e6a3d38606277fe097d4fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:17 +0000
Subject: [PATCH 18/44] fix: don't accept messages once the producer is closing

Closing could start while a call waited for the metadata of its topic.
---
 kiel/clients/producer.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/kiel/clients/producer.py b/kiel/clients/producer.py
index bb7bd1c..7fa4c84 100644
--- a/kiel/clients/producer.py
+++ b/kiel/clients/producer.py
@@ -98,6 +98,10 @@ class Producer(Client):
             log.debug("Producing to unknown topic %s, loading metadata", topic)
             yield self.heal()
 
+            if self.closing:
+                log.warn("Producing to %s topic while closing.", topic)
+                return
+
         if topic not in self.cluster.topics:
             log.error("Unknown topic %s and not auto-created", topic)
             return
-- 
2.43.0


From 248a7a0e56fa5b409c86e07cb01b39eefbeee14e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:46 +0000
Subject: [PATCH 19/44] fix: keep messages whose topic's leaders are unknown
 for the moment

The partitioner was called without any partitions to choose from, its error
then lost every message that was about to be sent.
---
 kiel/clients/producer.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/kiel/clients/producer.py b/kiel/clients/producer.py
index 7fa4c84..cdd92bf 100644
--- a/kiel/clients/producer.py
+++ b/kiel/clients/producer.py
@@ -136,8 +136,9 @@ class Producer(Client):
 
         The first order of business is to order the pending messages in
         ``unsent`` based on partition leader.  If a message's partition leader
-        is not a know broker, the message is queued up to be retried and the
-        flag denoting that a cluster ``heal()`` call is needed is set.
+        is not a know broker, or none of the topic's partitions have a leader,
+        the message is queued up to be retried and the flag denoting that a
+        cluster ``heal()`` call is needed is set.
 
         Once the legitimate messages are ordered, instances of ProduceRequest
         are created for each broker and sent.
@@ -155,10 +156,13 @@ class Producer(Client):
         to_retry = collections.defaultdict(list)
 
         for topic, msgs in drain(self.unsent):
+            partitions = self.cluster.topics.get(topic)
+            if not partitions:
+                to_retry[topic].extend(msgs)
+                continue
+
             for msg in msgs:
-                partition = self.partitioner(
-                    msg.key, self.cluster.topics[topic]
-                )
+                partition = self.partitioner(msg.key, partitions)
                 leader = self.cluster.get_leader(topic, partition)
                 if leader not in self.cluster:
                     to_retry[topic].append(msg)
-- 
2.43.0


From 87d1ecd04cdb2a2cb9c7ef82ecb387d518da6db7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:48 +0000
Subject: [PATCH 20/44] fix: retry messages sent on connections that are lost

The messages of a request that never got its response were forgotten.
---
 kiel/clients/producer.py | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/kiel/clients/producer.py b/kiel/clients/producer.py
index cdd92bf..da6d1b5 100644
--- a/kiel/clients/producer.py
+++ b/kiel/clients/producer.py
@@ -141,7 +141,8 @@ class Producer(Client):
         cluster ``heal()`` call is needed is set.
 
         Once the legitimate messages are ordered, instances of ProduceRequest
-        are created for each broker and sent.
+        are created for each broker and sent.  Messages are queued up again if
+        their request isn't responded to.
         """
         if not self.unsent:
             return
@@ -196,7 +197,21 @@ class Producer(Client):
         for topic, msgs in six.iteritems(to_retry):
             self.queue_retries(topic, msgs)
 
-        yield self.send(requests)
+        try:
+            yield self.send(requests)
+        finally:
+            for request in six.itervalues(requests):
+                self.queue_unanswered(request.correlation_id)
+
+    def queue_unanswered(self, correlation_id):
+        """
+        Queues up the messages of a request that never got a response.
+        """
+        for topic, partitions in six.iteritems(
+                self.sent.pop(correlation_id, {})
+        ):
+            for msgs in six.itervalues(partitions):
+                self.unsent[topic][:0] = msgs
 
     def handle_produce_response(self, response):
         """
-- 
2.43.0


From 5ed4f528adf1a5cdad6bc50f31384993189f2686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:50 +0000
Subject: [PATCH 21/44] fix: send every message before a producer closes

Closing gave up on messages after a single attempt, and cut off those that
were just being sent.
---
 kiel/clients/producer.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/kiel/clients/producer.py b/kiel/clients/producer.py
index da6d1b5..08a3467 100644
--- a/kiel/clients/producer.py
+++ b/kiel/clients/producer.py
@@ -16,6 +16,10 @@ from .client import Client
 log = logging.getLogger(__name__)
 
 
+#: Seconds between attempts to send the last messages of a closing producer
+RETRY_INTERVAL = 0.1
+
+
 class Producer(Client):
     """
     Client class used to "produce" messages to Kafka topics.
@@ -251,5 +255,12 @@ class Producer(Client):
     def wind_down(self):
         """
         Flushes the unsent messages so that none are lost when closing down.
+
+        Retries those that could not be sent, and waits for those that are
+        being sent at the moment.
         """
         yield self.flush()
+
+        while self.unsent_count or self.sent:
+            yield gen.sleep(RETRY_INTERVAL)
+            yield self.flush()
-- 
2.43.0


From b467b92f7d2c20b896bcd72c0ef31fb7ed88619d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:26 +0000
Subject: [PATCH 22/44] fix: return messages with falsy values

Zeroes, empty strings, lists and such were taken for missing values.
---
 kiel/clients/consumer.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/kiel/clients/consumer.py b/kiel/clients/consumer.py
index 59e4932..fe8bb8e 100644
--- a/kiel/clients/consumer.py
+++ b/kiel/clients/consumer.py
@@ -131,8 +131,7 @@ class BaseConsumer(Client):
 #        log.debug(results)
         raise gen.Return([
             msg for messageset in results.values() for msg in messageset
-            if msg # Skip empty messages
-            # BUG: troubleshoot why there are None values
+            if msg is not None  # skip null messages
         ])
 
     def handle_fetch_response(self, response):
-- 
2.43.0


From ee25f44567bd01cce433e78762132ed396cd13e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:28 +0000
Subject: [PATCH 23/44] fix: don't fetch undeserializable messages over and
 over

A partition never got past a fetch ending in such messages.
---
 kiel/clients/consumer.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/kiel/clients/consumer.py b/kiel/clients/consumer.py
index fe8bb8e..3512d86 100644
--- a/kiel/clients/consumer.py
+++ b/kiel/clients/consumer.py
@@ -182,11 +182,16 @@ class BaseConsumer(Client):
         If an error is encountered when deserializing it is logged and the
         offending message is skipped.
 
-        After each successful deserialization the ``self.offsets`` entry for
-        the particular topic/partition pair is incremented.
+        With each message, deserializable or not, the ``self.offsets`` entry
+        for the particular topic/partition pair is incremented.
         """
         messages = []
         for offset, msg in partition.message_set.messages:
+#            log.debug("offset %d => ", self.offsets[topic_name][partition.partition_id])
+            if offset>=0: # FIX: offset may have special value (e.g., def. END(-1))
+                self.offsets[topic_name][partition.partition_id] = offset + 1
+#            log.debug("%d", self.offsets[topic_name][partition.partition_id])
+
             try:
                 value = self.deserializer(msg.value)
             except Exception:
@@ -197,9 +202,5 @@ class BaseConsumer(Client):
                 continue
 
             messages.append(value)
-#            log.debug("offset %d => ", self.offsets[topic_name][partition.partition_id])
-            if offset>=0: # FIX: offset may have special value (e.g., def. END(-1))
-                self.offsets[topic_name][partition.partition_id] = offset + 1
-#            log.debug("%d", self.offsets[topic_name][partition.partition_id])
 
         return messages
-- 
2.43.0


From d6403c7153f42194751766c165da87a8c8650579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:31 +0000
Subject: [PATCH 24/44] fix: make dates and ages usable as starting points

The offset api's time is an integer, floats could not be packed.
---
 kiel/clients/single.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/kiel/clients/single.py b/kiel/clients/single.py
index d73db78..ab3f9d4 100644
--- a/kiel/clients/single.py
+++ b/kiel/clients/single.py
@@ -136,10 +136,10 @@ def start_to_timestamp(start):
     or one of `SingleConsumer.BEGINNING` or `SingleConsumer.END`.
     """
     if isinstance(start, datetime.datetime):
-        offset_time = (start - EPOCH).total_seconds()
+        offset_time = int((start - EPOCH).total_seconds())
     elif isinstance(start, datetime.timedelta):
         now = calendar.timegm(time.gmtime())
-        offset_time = now - start.total_seconds()
+        offset_time = now - int(start.total_seconds())
     else:
         offset_time = start
 
-- 
2.43.0


From 55756431784bef93c2556a6a442ee2131822d987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:04 +0000
Subject: [PATCH 25/44] fix: determine the offsets of topics that aren't known
 at first

Their offsets were looked up before their metadata was, that is for none of
their partitions, which then started at zero whatever was asked for.
---
 kiel/clients/consumer.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/kiel/clients/consumer.py b/kiel/clients/consumer.py
index 3512d86..3048b67 100644
--- a/kiel/clients/consumer.py
+++ b/kiel/clients/consumer.py
@@ -74,11 +74,11 @@ class BaseConsumer(Client):
         """
         Fetches from a given topics returns a list of deserialized values.
 
-        If the given topic is not known to have synced offsets, a call to
-        `determine_offsets()` is made first.
-
         If a topic is unknown entirely the cluster's ``heal()`` method is
-        called and the check retried.
+        called first and the check retried.
+
+        If the given topic is not known to have synced offsets, a call to
+        `determine_offsets()` is made.
 
         Since error codes and deserialization are taken care of by
         `handle_fetch_response` this method merely yields to wait on the
@@ -87,14 +87,6 @@ class BaseConsumer(Client):
         if self.closing:
             return
 
-        if topic not in self.synced_offsets:
-            try:
-                yield self.determine_offsets(topic, start)
-            except NoOffsetsError:
-                log.error("Unable to determine offsets for topic %s", topic)
-                raise gen.Return([])
-            self.synced_offsets.add(topic)
-
         if topic not in self.allocation or not self.allocation[topic]:
             log.debug("Consuming unknown topic %s, reloading metadata", topic)
             yield self.heal()
@@ -103,6 +95,14 @@ class BaseConsumer(Client):
             log.error("Consuming unknown topic %s and not auto-created", topic)
             raise gen.Return([])
 
+        if topic not in self.synced_offsets:
+            try:
+                yield self.determine_offsets(topic, start)
+            except NoOffsetsError:
+                log.error("Unable to determine offsets for topic %s", topic)
+                raise gen.Return([])
+            self.synced_offsets.add(topic)
+
         ordered = collections.defaultdict(list)
         for partition_id in self.allocation[topic]:
             leader = self.cluster.get_leader(topic, partition_id)
-- 
2.43.0


From 906fa74219f7e0d4f6284502bd44cc5d080089a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:37 +0000
Subject: [PATCH 26/44] fix: determine the offset of each and every partition

Partitions whose offset lookup failed started at zero, and those without a
known leader made for a KeyError.  An offset out of range only affects the
partition in question.
---
 kiel/clients/consumer.py | 49 +++++++++++++++++++++++++++++++++-------
 kiel/clients/grouped.py  |  4 ++++
 kiel/clients/single.py   | 47 +++++++++++++++++++++++++++++---------
 3 files changed, 81 insertions(+), 19 deletions(-)

diff --git a/kiel/clients/consumer.py b/kiel/clients/consumer.py
index 3048b67..b96768d 100644
--- a/kiel/clients/consumer.py
+++ b/kiel/clients/consumer.py
@@ -69,6 +69,34 @@ class BaseConsumer(Client):
         """
         raise NotImplementedError
 
+    def get_partitions(self, topic):
+        """
+        Returns the (current) list of a topic's allocated partition IDs.
+        """
+        return list(self.allocation.get(topic, []))
+
+    def get_leader(self, topic, partition_id):
+        """
+        Returns the ID of the broker to ask for a partition's offsets and data.
+
+        If there is no known leader it's ``None``, sending a request to that
+        "broker" makes for a heal of the cluster.
+        """
+        try:
+            return self.cluster.get_leader(topic, partition_id)
+        except KeyError:
+            log.warning("No known leader for %s|%s", topic, partition_id)
+            return None
+
+    def missing_offsets(self, topic):
+        """
+        Returns the list of a topic's partitions that don't have an offset yet.
+        """
+        return [
+            partition_id for partition_id in self.get_partitions(topic)
+            if partition_id not in self.offsets[topic]
+        ]
+
     @gen.coroutine
     def consume(self, topic, start=None):
         """
@@ -80,6 +108,8 @@ class BaseConsumer(Client):
         If the given topic is not known to have synced offsets, a call to
         `determine_offsets()` is made.
 
+        Partitions that still don't have an offset are left to later calls.
+
         Since error codes and deserialization are taken care of by
         `handle_fetch_response` this method merely yields to wait on the
         deserialized results and returns a flattened list.
@@ -87,15 +117,15 @@ class BaseConsumer(Client):
         if self.closing:
             return
 
-        if topic not in self.allocation or not self.allocation[topic]:
+        if not self.get_partitions(topic):
             log.debug("Consuming unknown topic %s, reloading metadata", topic)
             yield self.heal()
 
-        if topic not in self.allocation or not self.allocation[topic]:
+        if not self.get_partitions(topic):
             log.error("Consuming unknown topic %s and not auto-created", topic)
             raise gen.Return([])
 
-        if topic not in self.synced_offsets:
+        if topic not in self.synced_offsets or self.missing_offsets(topic):
             try:
                 yield self.determine_offsets(topic, start)
             except NoOffsetsError:
@@ -104,8 +134,11 @@ class BaseConsumer(Client):
             self.synced_offsets.add(topic)
 
         ordered = collections.defaultdict(list)
-        for partition_id in self.allocation[topic]:
-            leader = self.cluster.get_leader(topic, partition_id)
+        for partition_id in self.get_partitions(topic):
+            if partition_id not in self.offsets[topic]:
+                continue
+
+            leader = self.get_leader(topic, partition_id)
             ordered[leader].append(partition_id)
 
         requests = {}
@@ -144,8 +177,8 @@ class BaseConsumer(Client):
         A retriable error code will cause the cluster "heal" flag to be set.
 
         An error indicating that the offset used for the partition was out
-        of range will cause the offending topic's offsets to be redetermined
-        on the next call to `consume()`.
+        of range will cause the offending partition's offset to be redetermined
+        on the next call to `consume()`, those of others remain as they are.
 
         .. note::
           This class and its subclasses assume that fetch requests are made
@@ -164,7 +197,7 @@ class BaseConsumer(Client):
                 self.heal_cluster = True
             elif code == errors.offset_out_of_range:
                 log.warn("Offset out of range for topic %s", topic)
-                self.synced_offsets.discard(topic)
+                self.offsets[topic].pop(partition.partition_id, None)
             else:
                 log.error(
                     "Got error %s for topic %s partition %s",
diff --git a/kiel/clients/grouped.py b/kiel/clients/grouped.py
index 30a01ea..0e75d43 100644
--- a/kiel/clients/grouped.py
+++ b/kiel/clients/grouped.py
@@ -172,6 +172,10 @@ class GroupedConsumer(BaseConsumer):
             result = yield self.send({self.coordinator_id: request})
             retry = result[self.coordinator_id]
 
+        # partitions that aren't mentioned in the response start out at zero
+        for partition_id in self.missing_offsets(topic):
+            self.offsets[topic][partition_id] = 0
+
     def handle_offset_fetch_response(self, response):
         """
         Handler for offset fetch api responses.
diff --git a/kiel/clients/single.py b/kiel/clients/single.py
index ab3f9d4..e942964 100644
--- a/kiel/clients/single.py
+++ b/kiel/clients/single.py
@@ -19,6 +19,10 @@ EPOCH = datetime.datetime(1970, 1, 1)
 log = logging.getLogger(__name__)
 
 
+#: Number of times offsets are requested before leaving it to a later call
+MAX_OFFSET_ATTEMPTS = 3
+
+
 class SingleConsumer(BaseConsumer):
     """
     Usable consumer class for isolated-consumer use cases.
@@ -34,6 +38,12 @@ class SingleConsumer(BaseConsumer):
     END = -1
     #: For api ref. see https://github.com/kafka-dev/kafka/blob/master/core/src/main/scala/kafka/api/OffsetRequest.scala
 
+    def __init__(self, *args, **kwargs):
+        super(SingleConsumer, self).__init__(*args, **kwargs)
+
+        # topic -> starting point asked for
+        self.starts = {}
+
     @property
     def allocation(self):
         """
@@ -52,15 +62,33 @@ class SingleConsumer(BaseConsumer):
         if need be and used for the "time" parameter for the offset requests.
 
         An offset request is sent to each of the leader brokers for the given
-        topic.
+        topic, covering those partitions with no offset as of yet.  Repeated a
+        number of times if need be.
+
+        The start point of a topic is kept for partitions, or positions, that
+        are yet to be determined later on.
         """
+        if start is None:
+            start = self.starts.get(topic, self.END)
+        self.starts[topic] = start
+
         log.info("Getting offsets for topic %s with start %s", topic, start)
 
-        if start is None:
-            start = self.END
+        for _ in range(MAX_OFFSET_ATTEMPTS):
+            yield self.request_offsets(
+                topic, self.missing_offsets(topic), start_to_timestamp(start)
+            )
+
+            if not self.missing_offsets(topic):
+                break
 
-        offset_time = start_to_timestamp(start)
+        raise gen.Return(True)
 
+    @gen.coroutine
+    def request_offsets(self, topic, partition_ids, offset_time):
+        """
+        Requests the offsets of a topic's partitions at a certain time.
+        """
         def request_factory():
             return offset.OffsetRequest(
                 replica_id=CONSUMER_REPLICA_ID,
@@ -71,8 +99,8 @@ class SingleConsumer(BaseConsumer):
 
         requests = collections.defaultdict(request_factory)
 
-        for partition_id in self.allocation[topic]:
-            leader = self.cluster.get_leader(topic, partition_id)
+        for partition_id in partition_ids:
+            leader = self.get_leader(topic, partition_id)
             requests[leader].topics[0].partitions.append(
                 offset.PartitionRequest(
                     partition_id=partition_id,
@@ -86,8 +114,6 @@ class SingleConsumer(BaseConsumer):
         )
         yield self.send(requests)
 
-        raise gen.Return(True)
-
     def handle_offset_response(self, response):
         """
         Handles responses from the offset api and sets ``self.offsets`` values.
@@ -96,8 +122,8 @@ class SingleConsumer(BaseConsumer):
         the ``self.offsets`` structure.
 
         A retriable error code response will cause the cluster's ``heal()``
-        method to be called at the end of processing and the offending topic's
-        offsets to be re-evaluated on the next `consume()` call.
+        method to be called at the end of processing, the offsets of the
+        offending partitions are still to be determined.
         """
         # we only fetch one topic so we can assume only one comes back
         topic = response.topics[0].name
@@ -111,7 +137,6 @@ class SingleConsumer(BaseConsumer):
 #                log.debug("%d", self.offsets[topic][partition.partition_id])
             elif code in errors.retriable:
                 self.heal_cluster = True
-                self.synced_offsets.discard(topic)
             else:
                 log.error(
                     "Got error %s for topic %s partition %s",
-- 
2.43.0


From a86ca4ba73aa5dbaf9fb83c0d14f03b72e3dc191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:39 +0000
Subject: [PATCH 27/44] fix: start at the beginning if there are no offsets for
 the time asked for

---
 kiel/clients/single.py | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/kiel/clients/single.py b/kiel/clients/single.py
index e942964..02613df 100644
--- a/kiel/clients/single.py
+++ b/kiel/clients/single.py
@@ -112,7 +112,14 @@ class SingleConsumer(BaseConsumer):
         log.debug(
             "Sending offset request to %d leaders.", len(requests.keys())
         )
-        yield self.send(requests)
+        results = yield self.send(requests)
+
+        before_beginning = [
+            partition_id for result in results.values()
+            for partition_id in result
+        ]
+        if before_beginning and offset_time != self.BEGINNING:
+            yield self.request_offsets(topic, before_beginning, self.BEGINNING)
 
     def handle_offset_response(self, response):
         """
@@ -124,12 +131,21 @@ class SingleConsumer(BaseConsumer):
         A retriable error code response will cause the cluster's ``heal()``
         method to be called at the end of processing, the offsets of the
         offending partitions are still to be determined.
+
+        Returns the list of partitions that have no offset at the given time,
+        as it's before that of any of the data.
         """
+        before_beginning = []
+
         # we only fetch one topic so we can assume only one comes back
         topic = response.topics[0].name
         for partition in response.topics[0].partitions:
             code = partition.error_code
             if code == errors.no_error:
+                if not partition.offsets:
+                    before_beginning.append(partition.partition_id)
+                    continue
+
                 offset = partition.offsets[0]
 #                log.debug("offset %d ==> ", self.offsets[topic][partition.partition_id])
                 if offset>=0:
@@ -145,6 +161,8 @@ class SingleConsumer(BaseConsumer):
                 )
                 raise NoOffsetsError
 
+        return before_beginning
+
     @gen.coroutine
     def wind_down(self):
         """
-- 
2.43.0


From 048ffb127d5e7552dd126381b975465ef87c2f89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:06 +0000
Subject: [PATCH 28/44] fix: store the partition set as bytes

Kazoo accepts nothing else, so that connecting a GroupedConsumer always
failed under python 3.
---
 kiel/zookeeper/shared_set.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/kiel/zookeeper/shared_set.py b/kiel/zookeeper/shared_set.py
index 23b4afe..6d7f5fd 100644
--- a/kiel/zookeeper/shared_set.py
+++ b/kiel/zookeeper/shared_set.py
@@ -83,12 +83,12 @@ class SharedSet(object):
 
     def serialize(self, data):
         """
-        Serializes the set data as a list in a JSON string.
+        Serializes the set data as a list in a JSON string, as bytes.
         """
-        return json.dumps(list(data))
+        return json.dumps(list(data)).encode("utf-8")
 
     def deserialize(self, data):
         """
         Parses a given JSON string as a list, converts to a python set.
         """
-        return set(json.loads(data or "[]"))
+        return set(json.loads((data or b"[]").decode("utf-8")))
-- 
2.43.0


From 27ab6128c1a4085bc31791906454714171bbda00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:06 +0000
Subject: [PATCH 29/44] fix: cope with members that aren't part of the mapping

Not every member gets partitions, and there's no mapping at first.
---
 kiel/zookeeper/allocator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kiel/zookeeper/allocator.py b/kiel/zookeeper/allocator.py
index 1caf62c..4c2f5e9 100644
--- a/kiel/zookeeper/allocator.py
+++ b/kiel/zookeeper/allocator.py
@@ -67,7 +67,7 @@ class PartitionAllocator(object):
         """
         Property representing the topics allocated for a specific consumer.
         """
-        return self.mapping[self.consumer_name]
+        return self.mapping.get(self.consumer_name, {})
 
     @property
     def members_path(self):
-- 
2.43.0


From e8e8f03793626ee93cf76e9451e14097924fcda2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:06 +0000
Subject: [PATCH 30/44] fix: remove partitions from the shared set

---
 kiel/zookeeper/allocator.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/kiel/zookeeper/allocator.py b/kiel/zookeeper/allocator.py
index 4c2f5e9..940371e 100644
--- a/kiel/zookeeper/allocator.py
+++ b/kiel/zookeeper/allocator.py
@@ -239,8 +239,9 @@ class PartitionAllocator(object):
         wait_on_event(self.connected)
 
         self.shared_set.remove_items(set([
-            ":".join([topic, partition_id])
-            for topic, partition_id in six.iteritems(old_partitions)
+            ":".join([topic, str(partition_id)])
+            for topic, partition_ids in six.iteritems(old_partitions)
+            for partition_id in partition_ids
         ]))
 
     def rebalance(self):
-- 
2.43.0


From 245f9224ddcf5ef3d39f7ec2ed50687f75fe5189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:06 +0000
Subject: [PATCH 31/44] fix: serialize the partitions when creating their node
 anew

---
 kiel/zookeeper/allocator.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/kiel/zookeeper/allocator.py b/kiel/zookeeper/allocator.py
index 940371e..75b3dad 100644
--- a/kiel/zookeeper/allocator.py
+++ b/kiel/zookeeper/allocator.py
@@ -193,7 +193,10 @@ class PartitionAllocator(object):
         Sets the `partitions_collected` threading event when done.
         """
         if new_partitions is None:
-            self.conn.create(self.partition_path, value=self.partitions)
+            self.conn.create(
+                self.partition_path,
+                value=self.shared_set.serialize(self.partitions)
+            )
             return
 
         if new_partitions != self.partitions:
-- 
2.43.0


From fac0c65a52cb12b04515e1e3b5dde574edf5a287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:06 +0000
Subject: [PATCH 32/44] fix: don't lose updates of the shared set if its lock
 is lost

---
 kiel/zookeeper/shared_set.py | 41 +++++++++++++++++++++---------------
 1 file changed, 24 insertions(+), 17 deletions(-)

diff --git a/kiel/zookeeper/shared_set.py b/kiel/zookeeper/shared_set.py
index 6d7f5fd..0d9d86c 100644
--- a/kiel/zookeeper/shared_set.py
+++ b/kiel/zookeeper/shared_set.py
@@ -1,6 +1,8 @@
 import json
 import logging
 
+from kazoo import exceptions
+
 
 log = logging.getLogger(__name__)
 
@@ -49,18 +51,7 @@ class SharedSet(object):
         among sharers of the set.
         """
         with self.client.Lock(self.lock_path):
-            existing_items = self.deserialize(self.client.get(self.path)[0])
-            if not existing_items:
-                existing_items = set()
-
-            if new_items.issubset(existing_items):
-                return
-
-            existing_items.update(new_items)
-
-            self.client.set(
-                self.path, self.serialize(existing_items)
-            )
+            self.update(lambda items: items.union(new_items))
 
     def remove_items(self, old_items):
         """
@@ -72,14 +63,30 @@ class SharedSet(object):
         among sharers of the set.
         """
         with self.client.Lock(self.lock_path):
-            existing_items = self.deserialize(self.client.get(self.path)[0])
+            self.update(lambda items: items.difference(old_items))
 
-            if old_items.isdisjoint(existing_items):
-                return
+    def update(self, change):
+        """
+        Replaces the shared set's data with what ``change`` makes of it.
 
-            existing_items.difference_update(old_items)
+        The lock is lost along with the session, without the holder noticing
+        right away, hence the data is only replaced if it's still the same.
+        """
+        while True:
+            data, stat = self.client.get(self.path)
+            existing_items = self.deserialize(data)
+            items = change(existing_items)
 
-            self.client.set(self.path, self.serialize(existing_items))
+            if items == existing_items:
+                return
+
+            try:
+                self.client.set(
+                    self.path, self.serialize(items), version=stat.version
+                )
+                return
+            except exceptions.BadVersionError:
+                log.info("%s was changed meanwhile, retrying.", self.path)
 
     def serialize(self, data):
         """
-- 
2.43.0


From 8c12573907542f22a30c2c85a9e53ea538ddd6e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:06 +0000
Subject: [PATCH 33/44] fix: don't let rebalances overlap

Changes of members and of partitions are noticed in different threads, an
outdated mapping might replace a newer one.
---
 kiel/zookeeper/allocator.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/kiel/zookeeper/allocator.py b/kiel/zookeeper/allocator.py
index 75b3dad..9cfca93 100644
--- a/kiel/zookeeper/allocator.py
+++ b/kiel/zookeeper/allocator.py
@@ -61,6 +61,8 @@ class PartitionAllocator(object):
         )
 
         self.mapping = {}
+        # callbacks are called in more than one thread
+        self.lock = threading.RLock()
 
     @property
     def allocation(self):
@@ -174,9 +176,10 @@ class PartitionAllocator(object):
         log.info("Consumer group '%s' members changed.", self.group_name)
 
         new_members = set(new_members)
-        if new_members != self.members:
-            self.members = new_members
-            self.rebalance()
+        with self.lock:
+            if new_members != self.members:
+                self.members = new_members
+                self.rebalance()
 
         self.members_collected.set()
 
@@ -199,9 +202,10 @@ class PartitionAllocator(object):
             )
             return
 
-        if new_partitions != self.partitions:
-            self.partitions = new_partitions
-            self.rebalance()
+        with self.lock:
+            if new_partitions != self.partitions:
+                self.partitions = new_partitions
+                self.rebalance()
 
         self.partitions_collected.set()
 
-- 
2.43.0


From 96e77d140d183699af1f1ae2bdc1b765e667fa12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:06 +0000
Subject: [PATCH 34/44] fix: close the zookeeper connection even if leaving the
 party fails

---
 kiel/zookeeper/allocator.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/kiel/zookeeper/allocator.py b/kiel/zookeeper/allocator.py
index 9cfca93..f2fb928 100644
--- a/kiel/zookeeper/allocator.py
+++ b/kiel/zookeeper/allocator.py
@@ -131,7 +131,12 @@ class PartitionAllocator(object):
 
         attempt = create_attempter(f)
 
-        attempt(self.party.leave)
+        try:
+            self.party.leave()
+        except Exception:
+            # the end of the session makes for a leave just as well
+            log.exception("Error leaving group '%s'", self.group_name)
+
         attempt(self.conn.stop)
         attempt(self.conn.close)
 
-- 
2.43.0


From 910a15cd3ac6f22e4b8c345b33862c7f0c531359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:06 +0000
Subject: [PATCH 35/44] fix: join the party again after the session was lost

---
 kiel/zookeeper/allocator.py | 28 +++++++++++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/kiel/zookeeper/allocator.py b/kiel/zookeeper/allocator.py
index f2fb928..b2cb636 100644
--- a/kiel/zookeeper/allocator.py
+++ b/kiel/zookeeper/allocator.py
@@ -3,7 +3,7 @@ import threading
 
 import six
 from tornado import concurrent
-from kazoo import client
+from kazoo import client, exceptions
 
 from kiel.zookeeper import Party, SharedSet
 from kiel.events import wait_on_event
@@ -11,6 +11,9 @@ from kiel.events import wait_on_event
 
 log = logging.getLogger(__name__)
 
+#: Number of seconds in between attempts at joining a party again
+REJOIN_INTERVAL = 1
+
 
 class PartitionAllocator(object):
     """
@@ -46,6 +49,8 @@ class PartitionAllocator(object):
         self.conn = client.KazooClient(hosts=",".join(self.zk_hosts))
         self.connected = threading.Event()
 
+        self.joined = False
+
         self.members = set()
         self.members_collected = threading.Event()
         self.party = Party(
@@ -106,6 +111,7 @@ class PartitionAllocator(object):
 
         attempt(self.party.start)
         attempt(self.shared_set.start)
+        self.joined = True
         attempt(self.party.join)
         attempt(self.add_partitions, seed_partitions)
 
@@ -131,6 +137,7 @@ class PartitionAllocator(object):
 
         attempt = create_attempter(f)
 
+        self.joined = False
         try:
             self.party.leave()
         except Exception:
@@ -176,6 +183,9 @@ class PartitionAllocator(object):
         Sets the ``self.members`` attribute if membership actually
         changed, calling `rebalance()` if so.
 
+        If this member isn't among them, having joined, it was lost along with
+        its session and joins again, in a separate thread.
+
         Sets the ``members_collected`` threading event when done.
         """
         log.info("Consumer group '%s' members changed.", self.group_name)
@@ -186,8 +196,24 @@ class PartitionAllocator(object):
                 self.members = new_members
                 self.rebalance()
 
+        if self.joined and self.consumer_name not in new_members:
+            self.conn.handler.spawn(self.rejoin)
+
         self.members_collected.set()
 
+    def rejoin(self):
+        """
+        Joins the ``Party`` once more, after having been dropped from it.
+        """
+        while self.joined:
+            wait_on_event(self.connected, timeout=REJOIN_INTERVAL)
+            try:
+                self.party.join()
+                return
+            except exceptions.KazooException:
+                log.exception("Error rejoining group '%s'", self.group_name)
+                self.conn.handler.sleep_func(REJOIN_INTERVAL)
+
     def on_partition_change(self, new_partitions):
         """
         Callback for when data in the ``SharedSet`` changes.
-- 
2.43.0


From ef877b39b77db78507b38a17ac337c74b18bf87f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:30 +0000
Subject: [PATCH 36/44] fix: follow the group's coordinator when it moves or
 can't be reached

---
 kiel/clients/grouped.py | 46 ++++++++++++++++++++++++++++++++++++-----
 1 file changed, 41 insertions(+), 5 deletions(-)

diff --git a/kiel/clients/grouped.py b/kiel/clients/grouped.py
index 0e75d43..61605e7 100644
--- a/kiel/clients/grouped.py
+++ b/kiel/clients/grouped.py
@@ -107,12 +107,14 @@ class GroupedConsumer(BaseConsumer):
         request = coordinator.GroupCoordinatorRequest(group=self.group_name)
         determined = False
         while not determined:
+            if not list(self.cluster):
+                yield self.heal()
             broker_ids = list(self.cluster)
             if not broker_ids:
                 raise exc.NoBrokersError
             for broker_id in broker_ids:
                 results = yield self.send({broker_id: request})
-                determined = results[broker_id]
+                determined = results.get(broker_id, False)
                 if determined:
                     break
 
@@ -144,6 +146,37 @@ class GroupedConsumer(BaseConsumer):
 
         return determined
 
+    def forget_coordinator(self, code):
+        """
+        Has the coordinator determined anew if an error code calls for it.
+        """
+        if code in (errors.coordinator_not_available, errors.not_coordinator):
+            self.coordinator_id = None
+
+    @gen.coroutine
+    def send_to_coordinator(self, request):
+        """
+        Sends a request to the coordinator, determining which that is if need
+        be, and gives the result of the response's handler.
+
+        Results in ``None`` if there was no response, if so the coordinator is
+        determined anew next time.
+
+        Raises a ``NoOffsetsError`` if there's no way to tell the coordinator.
+        """
+        if self.coordinator_id is None:
+            yield self.determine_coordinator()
+            if self.coordinator_id is None:
+                raise exc.NoOffsetsError
+
+        coordinator_id = self.coordinator_id
+        results = yield self.send({coordinator_id: request})
+
+        if coordinator_id not in results:
+            self.coordinator_id = None
+
+        raise gen.Return(results.get(coordinator_id))
+
     @gen.coroutine
     def determine_offsets(self, topic, start=None):
         """
@@ -169,8 +202,9 @@ class GroupedConsumer(BaseConsumer):
 
         retry = True
         while retry:
-            result = yield self.send({self.coordinator_id: request})
-            retry = result[self.coordinator_id]
+            retry = yield self.send_to_coordinator(request)
+            if retry is None:
+                retry = True
 
         # partitions that aren't mentioned in the response start out at zero
         for partition_id in self.missing_offsets(topic):
@@ -207,6 +241,7 @@ class GroupedConsumer(BaseConsumer):
                 )
                 retry = True
             elif code in errors.retriable:
+                self.forget_coordinator(code)
                 self.heal_cluster = True
                 retry = True
             else:
@@ -250,8 +285,8 @@ class GroupedConsumer(BaseConsumer):
             ]
         )
 
-        results = yield self.send({self.coordinator_id: request})
-        retry, adjust_metadata = results[self.coordinator_id]
+        result = yield self.send_to_coordinator(request)
+        retry, adjust_metadata = result or (True, False)
 
         if adjust_metadata:
             log.warn("Offset commit metadata '%s' was too long.", metadata)
@@ -279,6 +314,7 @@ class GroupedConsumer(BaseConsumer):
                     self.topics_to_commit.discard(topic.name)
                 elif code in errors.retriable:
                     retry = True
+                    self.forget_coordinator(code)
                     self.heal_cluster = True
                 elif code == errors.offset_metadata_too_large:
                     retry = True
-- 
2.43.0


From 1501968a480ccd0300f613b847868bd46895ffd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:30 +0000
Subject: [PATCH 37/44] fix: return messages even if committing their offsets
 fails

---
 kiel/clients/grouped.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/kiel/clients/grouped.py b/kiel/clients/grouped.py
index 61605e7..2cf62d8 100644
--- a/kiel/clients/grouped.py
+++ b/kiel/clients/grouped.py
@@ -91,7 +91,11 @@ class GroupedConsumer(BaseConsumer):
         self.topics_to_commit.add(topic)
 
         if self.autocommit:
-            yield self.commit_offsets()
+            try:
+                yield self.commit_offsets()
+            except exc.KielError:
+                # left to be committed later on, the messages are here though
+                log.exception("Unable to commit offsets for now.")
 
         raise gen.Return(result)
 
-- 
2.43.0


From 8c5ec71b6cc104de04d16b17aabf37130cc6179b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:30 +0000
Subject: [PATCH 38/44] fix: commit a topic's offsets until each of its
 partitions succeeded

---
 kiel/clients/grouped.py | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/kiel/clients/grouped.py b/kiel/clients/grouped.py
index 2cf62d8..97c7967 100644
--- a/kiel/clients/grouped.py
+++ b/kiel/clients/grouped.py
@@ -270,6 +270,10 @@ class GroupedConsumer(BaseConsumer):
             metadata = "committed by %s" % self.name
 
         log.debug("Committing offsets for consumer group %s", self.group_name)
+        topics = self.topics_to_commit.intersection(self.allocation)
+        if not topics:
+            return
+
         request = offset_commit.OffsetCommitV0Request(
             group=self.group_name,
             topics=[
@@ -285,11 +289,18 @@ class GroupedConsumer(BaseConsumer):
                     ]
                 )
                 for topic, partition_ids in six.iteritems(self.allocation)
-                if topic in self.topics_to_commit
+                if topic in topics
             ]
         )
 
-        result = yield self.send_to_coordinator(request)
+        # added anew if consumed meanwhile, or in case something goes wrong
+        self.topics_to_commit.difference_update(topics)
+        result = None
+        try:
+            result = yield self.send_to_coordinator(request)
+        finally:
+            if result is None:
+                self.topics_to_commit.update(topics)
         retry, adjust_metadata = result or (True, False)
 
         if adjust_metadata:
@@ -302,8 +313,8 @@ class GroupedConsumer(BaseConsumer):
         """
         Handles responses from the "offset commit" api.
 
-        For successful responses the affected topics are dropped from the set
-        of topics that need commits.
+        Topics with unsuccessful responses are added (back) to the set of those
+        that need commits.
 
         In the special case of an ``offset_metadata_too_large`` error code
         the commit is retried with a blank metadata string.
@@ -315,8 +326,10 @@ class GroupedConsumer(BaseConsumer):
             for partition in topic.partitions:
                 code = partition.error_code
                 if code == errors.no_error:
-                    self.topics_to_commit.discard(topic.name)
-                elif code in errors.retriable:
+                    continue
+
+                self.topics_to_commit.add(topic.name)
+                if code in errors.retriable:
                     retry = True
                     self.forget_coordinator(code)
                     self.heal_cluster = True
-- 
2.43.0


From d1d3213fd4024d9bdbff2a31bfa1b990e1050ced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:06 +0000
Subject: [PATCH 39/44] fix: don't use, or commit, offsets from before the last
 rebalance

A rebalance while offsets are determined, by another thread, went
unnoticed, and partitions that were gained had outdated offsets committed.
---
 kiel/clients/consumer.py | 10 ++++++--
 kiel/clients/grouped.py  | 51 ++++++++++++++++++++++++++++++++--------
 2 files changed, 49 insertions(+), 12 deletions(-)

diff --git a/kiel/clients/consumer.py b/kiel/clients/consumer.py
index b96768d..0af3a0e 100644
--- a/kiel/clients/consumer.py
+++ b/kiel/clients/consumer.py
@@ -88,13 +88,19 @@ class BaseConsumer(Client):
             log.warning("No known leader for %s|%s", topic, partition_id)
             return None
 
+    def has_offset(self, topic, partition_id):
+        """
+        Returns whether or not the offset for a partition is determined.
+        """
+        return partition_id in self.offsets[topic]
+
     def missing_offsets(self, topic):
         """
         Returns the list of a topic's partitions that don't have an offset yet.
         """
         return [
             partition_id for partition_id in self.get_partitions(topic)
-            if partition_id not in self.offsets[topic]
+            if not self.has_offset(topic, partition_id)
         ]
 
     @gen.coroutine
@@ -135,7 +141,7 @@ class BaseConsumer(Client):
 
         ordered = collections.defaultdict(list)
         for partition_id in self.get_partitions(topic):
-            if partition_id not in self.offsets[topic]:
+            if not self.has_offset(topic, partition_id):
                 continue
 
             leader = self.get_leader(topic, partition_id)
diff --git a/kiel/clients/grouped.py b/kiel/clients/grouped.py
index 97c7967..39851cd 100644
--- a/kiel/clients/grouped.py
+++ b/kiel/clients/grouped.py
@@ -47,10 +47,14 @@ class GroupedConsumer(BaseConsumer):
 
         self.coordinator_id = None
 
+        # topic/partition pairs that have their committed offset looked up,
+        # there are none right after a rebalance
+        self.resumed = set()
+
         self.allocator = PartitionAllocator(
             zk_hosts, self.group_name, self.name,
             allocator_fn=partition_allocator or naive_allocator,
-            on_rebalance=self.synced_offsets.clear
+            on_rebalance=self.resumed.clear
         )
 
         self.topics_to_commit = set()
@@ -63,6 +67,14 @@ class GroupedConsumer(BaseConsumer):
         """
         return self.allocator.allocation
 
+    def has_offset(self, topic, partition_id):
+        """
+        Offsets from before the last rebalance don't count.
+        """
+        return (topic, partition_id) in self.resumed and (
+            super(GroupedConsumer, self).has_offset(topic, partition_id)
+        )
+
     @gen.coroutine
     def connect(self):
         """
@@ -187,32 +199,44 @@ class GroupedConsumer(BaseConsumer):
         Fetches offsets for a given topic via the "offset fetch" api.
 
         Simple matter of sending an OffsetFetchRequest to the coordinator
-        broker.
+        broker, for those partitions that haven't been resumed yet.
 
         .. note::
 
           The ``start`` argument is actually ignored, it exists so that the
           signature remains consistent with the other consumer classes.
         """
+        partition_ids = self.missing_offsets(topic)
+        pairs = set((topic, partition_id) for partition_id in partition_ids)
+
+        # noted in advance, so as not to miss a rebalance happening meanwhile
+        self.resumed.update(pairs)
+        for partition_id in partition_ids:
+            self.offsets[topic].pop(partition_id, None)
+
         log.info("Fetching offsets for consumer group '%s'", self.group_name)
         request = offset_fetch.OffsetFetchRequest(
             group_name=self.group_name,
             topics=[
                 offset_fetch.TopicRequest(
-                    name=topic, partitions=list(self.allocation[topic])
+                    name=topic, partitions=partition_ids
                 )
             ]
         )
 
         retry = True
-        while retry:
-            retry = yield self.send_to_coordinator(request)
-            if retry is None:
-                retry = True
+        try:
+            while retry:
+                retry = yield self.send_to_coordinator(request)
+                if retry is None:
+                    retry = True
+        except Exception:
+            self.resumed.difference_update(pairs)
+            raise
 
         # partitions that aren't mentioned in the response start out at zero
-        for partition_id in self.missing_offsets(topic):
-            self.offsets[topic][partition_id] = 0
+        for partition_id in partition_ids:
+            self.offsets[topic].setdefault(partition_id, 0)
 
     def handle_offset_fetch_response(self, response):
         """
@@ -270,7 +294,13 @@ class GroupedConsumer(BaseConsumer):
             metadata = "committed by %s" % self.name
 
         log.debug("Committing offsets for consumer group %s", self.group_name)
-        topics = self.topics_to_commit.intersection(self.allocation)
+        topics = set(
+            topic for topic, partition_ids in six.iteritems(self.allocation)
+            if topic in self.topics_to_commit and any(
+                self.has_offset(topic, partition_id)
+                for partition_id in partition_ids
+            )
+        )
         if not topics:
             return
 
@@ -286,6 +316,7 @@ class GroupedConsumer(BaseConsumer):
                             metadata=metadata
                         )
                         for partition_id in partition_ids
+                        if self.has_offset(topic, partition_id)
                     ]
                 )
                 for topic, partition_ids in six.iteritems(self.allocation)
-- 
2.43.0


From 82bdc37f10acbae7b85b142b8d951902fa382ac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:30 +0000
Subject: [PATCH 40/44] fix: start at the beginning if a group has no valid
 committed offset

Offset fetches for new groups were retried forever, as were committed
offsets that are out of range.
---
 kiel/clients/grouped.py | 42 ++++++++++++++++++++++++++++++++++++-----
 1 file changed, 37 insertions(+), 5 deletions(-)

diff --git a/kiel/clients/grouped.py b/kiel/clients/grouped.py
index 39851cd..1f2b2be 100644
--- a/kiel/clients/grouped.py
+++ b/kiel/clients/grouped.py
@@ -9,13 +9,13 @@ from kiel import constants, exc
 from kiel.protocol import coordinator, offset_fetch, offset_commit, errors
 from kiel.zookeeper.allocator import PartitionAllocator
 
-from .consumer import BaseConsumer
+from .single import SingleConsumer, MAX_OFFSET_ATTEMPTS
 
 
 log = logging.getLogger(__name__)
 
 
-class GroupedConsumer(BaseConsumer):
+class GroupedConsumer(SingleConsumer):
     """
     Consumer class with coordinated resource allocation among like members.
 
@@ -69,10 +69,11 @@ class GroupedConsumer(BaseConsumer):
 
     def has_offset(self, topic, partition_id):
         """
-        Offsets from before the last rebalance don't count.
+        Offsets from before the last rebalance don't count, neither do negative
+        ones as they signify that there is no committed offset.
         """
         return (topic, partition_id) in self.resumed and (
-            super(GroupedConsumer, self).has_offset(topic, partition_id)
+            self.offsets[topic].get(partition_id, -1) >= 0
         )
 
     @gen.coroutine
@@ -201,12 +202,37 @@ class GroupedConsumer(BaseConsumer):
         Simple matter of sending an OffsetFetchRequest to the coordinator
         broker, for those partitions that haven't been resumed yet.
 
+        Partitions without a committed offset, or with one that turned out to
+        be out of range, start at the beginning.
+
         .. note::
 
           The ``start`` argument is actually ignored, it exists so that the
           signature remains consistent with the other consumer classes.
         """
-        partition_ids = self.missing_offsets(topic)
+        yield self.resume(topic)
+
+        for _ in range(MAX_OFFSET_ATTEMPTS):
+            partition_ids = [
+                partition_id for partition_id in self.missing_offsets(topic)
+                if (topic, partition_id) in self.resumed
+            ]
+            if not partition_ids:
+                break
+            yield self.request_offsets(topic, partition_ids, self.BEGINNING)
+
+    @gen.coroutine
+    def resume(self, topic):
+        """
+        Fetches the committed offsets of partitions not resumed as of yet.
+        """
+        partition_ids = [
+            partition_id for partition_id in self.get_partitions(topic)
+            if (topic, partition_id) not in self.resumed
+        ]
+        if not partition_ids:
+            return
+
         pairs = set((topic, partition_id) for partition_id in partition_ids)
 
         # noted in advance, so as not to miss a rebalance happening meanwhile
@@ -262,6 +288,12 @@ class GroupedConsumer(BaseConsumer):
                     partition.partition_id
                 )
                 self.offsets[topic][partition.partition_id] = partition.offset
+            elif code == errors.unknown_topic_or_partition:
+                log.info(
+                    "Nothing committed for group %s topic %s partition %d",
+                    self.group_name, topic, partition.partition_id
+                )
+                self.offsets[topic][partition.partition_id] = -1
             elif code == errors.offsets_load_in_progress:
                 log.info(
                     "Offsets load in progress for topic %s partition %s" +
-- 
2.43.0


From 8d66690c507183d446577fa34b00d2c8cc241b31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:06 +0000
Subject: [PATCH 41/44] fix: keep the starting point of topics that are unknown
 at first

---
 kiel/clients/single.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/kiel/clients/single.py b/kiel/clients/single.py
index 02613df..e34e71e 100644
--- a/kiel/clients/single.py
+++ b/kiel/clients/single.py
@@ -51,6 +51,18 @@ class SingleConsumer(BaseConsumer):
         """
         return self.cluster.topics
 
+    def consume(self, topic, start=None):
+        """
+        Overriding ``consume()`` to keep the start point asked for.
+
+        The topic might well be unknown for now, in which case its offsets are
+        determined by a later call.
+        """
+        if start is not None:
+            self.starts[topic] = start
+
+        return super(SingleConsumer, self).consume(topic, start)
+
     @gen.coroutine
     def determine_offsets(self, topic, start=None):
         """
-- 
2.43.0


From 000500fe91f888f16c2d9d0551a2dde1e644bbea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:22 +0000
Subject: [PATCH 42/44] fix: retry joining a party when the member node changes
 meanwhile

---
 kiel/zookeeper/party.py | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/kiel/zookeeper/party.py b/kiel/zookeeper/party.py
index f92cf6b..0915adf 100644
--- a/kiel/zookeeper/party.py
+++ b/kiel/zookeeper/party.py
@@ -17,6 +17,9 @@ class Party(object):
     This is used in the Zookeeper-based ``GroupedConsumer`` in order to
     determine who and how many hosts to divvy up partitions to.
     """
+    #: What a node created or removed by somebody else in the meantime causes.
+    conflicts = (exceptions.NoNodeError, exceptions.NodeExistsError)
+
     def __init__(self, client, member_name, path, on_change):
         self.client = client
 
@@ -54,17 +57,35 @@ class Party(object):
 
         path = "/".join([self.path, self.member_name])
 
+        while not self.try_join(path):
+            log.debug("ZNode at %s changed while joining, retrying.", path)
+
+    def try_join(self, path):
+        """
+        Makes a single attempt at owning the member's node.
+
+        Returns ``False`` if the node was created or removed by somebody else
+        (e.g. another call to `join()`, or the end of an earlier session)
+        between looking at it and acting on it.
+        """
         znode = self.client.exists(path)
 
         if not znode:
             log.debug("ZNode at %s does not exist, creating new one.", path)
-            self.client.create(path, ephemeral=True, makepath=True)
+            try:
+                self.client.create(path, ephemeral=True, makepath=True)
+            except exceptions.NodeExistsError:
+                return False
         elif znode.owner_session_id != self.client.client_id[0]:
             log.debug("ZNode at %s not owned by us, recreating.", path)
             txn = self.client.transaction()
             txn.delete(path)
             txn.create(path, ephemeral=True)
-            txn.commit()
+            results = txn.commit()
+            if isinstance(results, list):
+                return not any(isinstance(r, self.conflicts) for r in results)
+
+        return True
 
     def leave(self):
         """
-- 
2.43.0


From f56ad4acac7a7e8597aba498ab56668a6303dae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:36 +0000
Subject: [PATCH 43/44] fix: don't commit positions of messages that weren't
 returned yet

With a commit in parallel to a consume() call the positions of messages
already read, but still waiting on another broker's response, were committed,
so that the messages were lost for good if the member died before returning
them.
---
 kiel/clients/grouped.py | 28 ++++++++++++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/kiel/clients/grouped.py b/kiel/clients/grouped.py
index 1f2b2be..74bc750 100644
--- a/kiel/clients/grouped.py
+++ b/kiel/clients/grouped.py
@@ -60,6 +60,10 @@ class GroupedConsumer(SingleConsumer):
         self.topics_to_commit = set()
         self.autocommit = autocommit
 
+        # positions ahead of messages not handed out yet, as their `consume()`
+        # is still in progress, keyed on topic/partition pairs
+        self.undelivered = {}
+
     @property
     def allocation(self):
         """
@@ -96,7 +100,11 @@ class GroupedConsumer(SingleConsumer):
         This is where the ``autocommit`` flag comes into play.  If the flag
         is set we call `commit_offsets()` here right off the bat.
         """
-        result = yield super(GroupedConsumer, self).consume(topic)
+        try:
+            result = yield super(GroupedConsumer, self).consume(topic)
+        finally:
+            for pair in [p for p in self.undelivered if p[0] == topic]:
+                self.undelivered.pop(pair)
 
         if topic not in self.synced_offsets:
             raise gen.Return([])
@@ -112,6 +120,19 @@ class GroupedConsumer(SingleConsumer):
 
         raise gen.Return(result)
 
+    def deserialize_messages(self, topic_name, partition):
+        """
+        Overriding ``deserialize_messages()`` to note the position up to which
+        messages were handed out, what's beyond isn't to be committed as yet.
+        """
+        self.undelivered.setdefault(
+            (topic_name, partition.partition_id),
+            self.offsets[topic_name][partition.partition_id]
+        )
+        return super(GroupedConsumer, self).deserialize_messages(
+            topic_name, partition
+        )
+
     @gen.coroutine
     def determine_coordinator(self):
         """
@@ -344,7 +365,10 @@ class GroupedConsumer(SingleConsumer):
                     partitions=[
                         offset_commit.PartitionRequest(
                             partition_id=partition_id,
-                            offset=self.offsets[topic][partition_id],
+                            offset=self.undelivered.get(
+                                (topic, partition_id),
+                                self.offsets[topic][partition_id]
+                            ),
                             metadata=metadata
                         )
                         for partition_id in partition_ids
-- 
2.43.0


From 5e2b176a8f397a9af0c5d165d2410b86f1ace503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:42 +0000
Subject: [PATCH 44/44] fix: ask the known brokers for metadata once no
 bootstrap host is left

---
 kiel/cluster.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/kiel/cluster.py b/kiel/cluster.py
index f5910b0..29cecc2 100644
--- a/kiel/cluster.py
+++ b/kiel/cluster.py
@@ -33,6 +33,9 @@ class Cluster(object):
         # done whenever there isn't a heal in progress
         self.healed = None
 
+        # of the brokers in the latest metadata
+        self.addresses = []
+
         self.stopped = False
         # connections that aren't part of ``self.conns`` (yet)
         self.opened = set()
@@ -119,11 +122,16 @@ class Cluster(object):
         """
         Retrieves metadata from the first bootstrap host to respond.
 
-        Results in ``None`` if there is no such host.
+        Failing those the brokers known so far are asked, by way of a new
+        connection.  Results in ``None`` if there is no such host or broker.
         """
-        for host in self.bootstrap_hosts:
+        hosts = list(self.bootstrap_hosts) + [
+            address for address in self.addresses
+            if address not in self.bootstrap_hosts
+        ]
+        for host in hosts:
             if ":" in host:
-                host, port = host.split(":")
+                host, port = host.rsplit(":", 1)
             else:
                 port = DEFAULT_KAFKA_PORT
 
@@ -245,6 +253,8 @@ class Cluster(object):
         Known connections that are not present in the given metadata, or that
         are to a different address, will have ``abort()`` called on them.
         """
+        self.addresses = ["%s:%s" % (b.host, b.port) for b in brokers]
+
         to_drop = set(self.conns.keys()) - set([b.broker_id for b in brokers])
 
         missing = set()
-- 
2.43.0

