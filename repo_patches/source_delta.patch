From d05706b77b0935ef1bb2adc33148c3e9c907966d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:28 +0000
Subject: [PATCH 001/139] fix: advertise and request topics per link so that
 routes, prices and demand converge

The switch told every link the global minimum, never replaced the price of an
id that was advertised again, kept the demand of removed links, did not move
demand to a remaining provider and raised a KeyError (ending the link) when a
requested topic was provided again.
---
 streamtasks/net/__init__.py | 131 +++++++++++++++++-------------------
 1 file changed, 63 insertions(+), 68 deletions(-)

diff --git a/streamtasks/net/__init__.py b/streamtasks/net/__init__.py
index 3c5ee23..5f47d5e 100644
--- a/streamtasks/net/__init__.py
+++ b/streamtasks/net/__init__.py
@@ -1,4 +1,4 @@
-from typing import Any, Callable, Union
+from typing import Any, Callable, Iterable, Union
 from streamtasks.env import DEBUG_SER
 from streamtasks.net.helpers import PricedIdTracker
 from streamtasks.net.serialization import RawData
@@ -35,6 +35,8 @@ class Link(ABC):
     self.recv_topics: set[int] = set()
     self.out_topics: dict[int, int] = dict()
     self.addresses: dict[int, int] = dict()
+    self.advertised_out_topics: dict[int, int] = dict()
+    self.advertised_addresses: dict[int, int] = dict()
     self.on_closed: list[Callable[[], Any]] = []
 
     self._closed = False
@@ -118,7 +120,7 @@ class Link(ABC):
       otc_message: OutTopicsChangedMessage = message
       message = OutTopicsChangedRecvMessage(
         set(PricedId(pt.id, pt.cost + self._cost) for pt in otc_message.add),
-        set(PricedId(t, self.out_topics[t]) for t in otc_message.remove if t in self.out_topics))
+        set(PricedId(t, self.out_topics[t]) for t in otc_message.remove.union(pt.id for pt in otc_message.add) if t in self.out_topics))
       for address in otc_message.remove: self.out_topics.pop(address, None)
       for pt in message.add: self.out_topics[pt.id] = pt.cost
 
@@ -126,7 +128,7 @@ class Link(ABC):
       ac_message: AddressesChangedMessage = message
       message = AddressesChangedRecvMessage(
         set(PricedId(pa.id, pa.cost + self._cost) for pa in ac_message.add),
-        set(PricedId(a, self.addresses[a]) for a in ac_message.remove if a in self.addresses))
+        set(PricedId(a, self.addresses[a]) for a in ac_message.remove.union(pa.id for pa in ac_message.add) if a in self.addresses))
       for address in ac_message.remove: self.addresses.pop(address, None)
       for pa in message.add: self.addresses[pa.id] = pa.cost
 
@@ -216,66 +218,67 @@ class Switch:
     await self.add_link(a)
     return b
   async def add_link(self, link: Link):
-    switch_out_topics = set(self.out_topics.items())
-    if len(switch_out_topics) > 0: await link.send(OutTopicsChangedMessage(switch_out_topics, set()))
-
-    switch_addresses = set(self.addresses.items())
-    if len(switch_addresses) > 0: await link.send(AddressesChangedMessage(switch_addresses, set()))
-
-    added_out_topics = self.out_topics.add_many(link.get_priced_out_topics())
-    if len(added_out_topics) > 0: await self.broadcast(OutTopicsChangedMessage(added_out_topics, set()))
-
-    added_addresses = self.addresses.add_many(link.get_priced_addresses())
-    if len(added_addresses) > 0: await self.broadcast(AddressesChangedMessage(added_addresses, set()))
-
-    added_in_topics = self.in_topics.add_many(link.in_topics)
-    if len(added_in_topics) > 0: await self.request_in_topics_change(added_in_topics, set())
-
     self.link_manager.accept_link(link, asyncio.create_task(self._run_link_receiving(link)))
+    self.out_topics.add_many(link.get_priced_out_topics())
+    self.addresses.add_many(link.get_priced_addresses())
+    self.in_topics.add_many(link.in_topics)
+    await self.advertise_out_topics([ id.id for id in self.out_topics.items() ])
+    await self.advertise_addresses([ id.id for id in self.addresses.items() ])
+    await self.update_topic_requests([ *link.out_topics, *link.in_topics ])
 
   async def remove_link(self, link: Link):
+    if not self.link_manager.has_link(link): return
     self.link_manager.remove_link(link)
-
-    recv_topics = link.recv_topics
-    removed_topics, updated_topics = self.out_topics.remove_many(link.get_priced_out_topics())
-    updated_in_topics = recv_topics - removed_topics
-
-    if len(updated_in_topics) > 0:
-      await self.request_in_topics_change(set(updated_in_topics), set())
-
-    if len(removed_topics) > 0 or len(updated_topics) > 0:
-      await self.broadcast(OutTopicsChangedMessage(updated_topics, removed_topics))
-
-    removed_addresses, updated_addresses = self.addresses.remove_many(link.get_priced_addresses())
-    if len(removed_addresses) > 0 or len(updated_addresses) > 0:
-      await self.broadcast(AddressesChangedMessage(updated_addresses, removed_addresses))
+    self.out_topics.remove_many(link.get_priced_out_topics())
+    self.addresses.remove_many(link.get_priced_addresses())
+    self.in_topics.remove_many(link.in_topics)
+    await self.advertise_out_topics(link.out_topics)
+    await self.advertise_addresses(link.addresses)
+    await self.update_topic_requests([ *link.recv_topics, *link.in_topics ])
 
   def stop_receiving(self): self.link_manager.cancel_all()
   async def send_to(self, message: Message, links: list[Link]):
     for link in links: await link.send(message)
   async def broadcast(self, message: Message): await self.send_to(message, self.link_manager.links)
 
-  async def send_remove_in_topic(self, topic: int):
-    await self.send_to(InTopicsChangedMessage(set(), set([topic])), [ conn for conn in self.link_manager.links if topic in conn.recv_topics ])
-
-  async def request_in_topics_change(self, add_topics: set[int], remove_topics: set[int]):
-    remove_topics_set = set(remove_topics)
-    change_map: dict[Link, InTopicsChangedMessage] = {}
-
-    for topic in add_topics:
-      best_link = min(self.link_manager.links, key=lambda link: link.out_topics.get(topic, float('inf')))
-      if topic not in best_link.out_topics: continue
-      if best_link not in change_map: change_map[best_link] = InTopicsChangedMessage(set(), set())
-      change_map[best_link].add.add(topic)
-
-    if len(remove_topics_set) > 0:
-      for conn in self.link_manager.links:
-        remove_sub = conn.recv_topics.intersection(remove_topics_set)
-        if len(remove_sub) > 0:
-          if conn not in change_map: change_map[conn] = InTopicsChangedMessage(set(), set())
-          for topic in remove_sub: change_map[conn].remove.add(topic)
-
-    for conn, message in change_map.items(): await conn.send(message)
+  async def advertise_out_topics(self, topics: Iterable[int]):
+    topics = list(topics)
+    for link in list(self.link_manager.links):
+      add, remove = self._change_advertised(topics, link.advertised_out_topics, [ other.out_topics for other in self.link_manager.links if other is not link ])
+      if len(add) > 0 or len(remove) > 0: await self.send_to(OutTopicsChangedMessage(add, remove), [ link ])
+
+  async def advertise_addresses(self, addresses: Iterable[int]):
+    addresses = list(addresses)
+    for link in list(self.link_manager.links):
+      add, remove = self._change_advertised(addresses, link.advertised_addresses, [ other.addresses for other in self.link_manager.links if other is not link ])
+      if len(add) > 0 or len(remove) > 0: await self.send_to(AddressesChangedMessage(add, remove), [ link ])
+
+  def _change_advertised(self, ids: Iterable[int], advertised: dict[int, int], provided: list[dict[int, int]]):
+    # a link is only told about what is provided behind the other links, otherwise routes would point back and never expire
+    add, remove = set(), set()
+    for id in ids:
+      cost = min((costs[id] for costs in provided if id in costs), default=None)
+      if cost is None:
+        if advertised.pop(id, None) is not None: remove.add(id)
+      elif advertised.get(id, None) != cost:
+        advertised[id] = cost
+        add.add(PricedId(id, cost))
+    return add, remove
+
+  async def update_topic_requests(self, topics: Iterable[int]):
+    topics = set(topics)
+    for link in list(self.link_manager.links):
+      message = InTopicsChangedMessage(set(), set())
+      for topic in topics:
+        requested = link is self._get_best_provider(topic)
+        if requested and topic not in link.recv_topics: message.add.add(topic)
+        if not requested and topic in link.recv_topics: message.remove.add(topic)
+      if len(message.add) > 0 or len(message.remove) > 0: await self.send_to(message, [ link ])
+
+  def _get_best_provider(self, topic: int) -> Link | None:
+    if topic not in self.in_topics: return None
+    providers = [ link for link in self.link_manager.links if topic in link.out_topics ]
+    return min(providers, key=lambda link: (link.out_topics[topic], topic not in link.recv_topics), default=None) # prefer the current provider
 
   async def on_in_topics_changed(self, message: InTopicsChangedMessage, origin: Link):
     # todo: control stream
@@ -285,7 +288,7 @@ class Switch:
     for control_message in [ self.stream_controls[topic].to_message(topic) for topic in message.add if topic in self.stream_controls ]:
       await origin.send(control_message)
 
-    await self.request_in_topics_change(final_add, final_remove)
+    await self.update_topic_requests([ *final_add, *final_remove ])
 
   async def on_addressed_message(self, message: AddressedMessage, origin: Link):
     if message.address not in self.addresses: return
@@ -297,22 +300,14 @@ class Switch:
     await self.send_to(message, [ link for link in self.link_manager.links if link != origin and message.topic in link.in_topics])
 
   async def on_out_topics_changed(self, message: OutTopicsChangedRecvMessage, origin: Link):
-    out_topics_added, out_topics_removed = self.out_topics.change_many(message.add, message.remove)
-    if len(out_topics_added) > 0 or len(out_topics_removed) > 0:
-      await self.send_to(OutTopicsChangedMessage(out_topics_added, out_topics_removed), [ conn for conn in self.link_manager.links if conn != origin ])
-
-    resub_topics = set()
-    for pt in message.add:
-      if pt.id in self.in_topics:
-        topic_provider = next((conn for conn in self.link_manager.links if pt.id in conn.recv_topics), None)
-        if topic_provider is None or topic_provider.out_topics[pt.id] > pt.cost:
-          resub_topics.add(pt.id)
-    await self.request_in_topics_change(resub_topics, resub_topics) # resub to the better providers
+    self.out_topics.change_many(message.add, message.remove)
+    topics = set(pt.id for pt in message.add).union(pt.id for pt in message.remove)
+    await self.advertise_out_topics(topics)
+    await self.update_topic_requests(topics)
 
   async def on_addresses_changed(self, message: AddressesChangedRecvMessage, origin: Link):
-    addresses_added, addresses_removed = self.addresses.change_many(message.add, message.remove)
-    if len(addresses_added) > 0 or len(addresses_removed) > 0:
-      await self.send_to(AddressesChangedMessage(addresses_added, addresses_removed), [ conn for conn in self.link_manager.links if conn != origin ])
+    self.addresses.change_many(message.add, message.remove)
+    await self.advertise_addresses(set(pa.id for pa in message.add).union(pa.id for pa in message.remove))
 
   async def handle_message(self, message: Message, origin: Link):
     if isinstance(message, TopicMessage):
-- 
2.43.0


From 88863549e8a4f0d7d61f9c9dc489cfa2a8662bf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:07 +0000
Subject: [PATCH 002/139] fix: a failing link neither disturbs other links nor
 stays attached

Sending to a closed link raised in the receive loop of the sending link and
ended it, a broken link was removed but never closed (on_closed did not fire),
and the removal cancelled itself, so that the withdrawal of its routes was cut
short on links whose send suspends.
---
 streamtasks/net/__init__.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/streamtasks/net/__init__.py b/streamtasks/net/__init__.py
index 5f47d5e..a360006 100644
--- a/streamtasks/net/__init__.py
+++ b/streamtasks/net/__init__.py
@@ -198,7 +198,9 @@ class LinkManager:
   def has_link(self, link: Link): return link in self._link_recv_tasks
   def accept_link(self, link: Link, receiver_task: asyncio.Task): self._link_recv_tasks[link] = receiver_task
   def remove_link(self, link: Link):
-    if link in self._link_recv_tasks: self._link_recv_tasks.pop(link).cancel()
+    if link not in self._link_recv_tasks: return
+    task = self._link_recv_tasks.pop(link)
+    if task is not asyncio.current_task(): task.cancel()
   def cancel_all(self):
     for task in self._link_recv_tasks.values(): task.cancel()
     self._link_recv_tasks.clear()
@@ -234,12 +236,14 @@ class Switch:
     self.in_topics.remove_many(link.in_topics)
     await self.advertise_out_topics(link.out_topics)
     await self.advertise_addresses(link.addresses)
-    await self.update_topic_requests([ *link.recv_topics, *link.in_topics ])
+    await self.update_topic_requests([ *link.out_topics, *link.recv_topics, *link.in_topics ])
 
   def stop_receiving(self): self.link_manager.cancel_all()
   async def send_to(self, message: Message, links: list[Link]):
-    for link in links: await link.send(message)
-  async def broadcast(self, message: Message): await self.send_to(message, self.link_manager.links)
+    for link in links:
+      try: await link.send(message)
+      except ConnectionClosedError: link.close() # only the receiver is gone, its receive loop removes the link
+  async def broadcast(self, message: Message): await self.send_to(message, list(self.link_manager.links))
 
   async def advertise_out_topics(self, topics: Iterable[int]):
     topics = list(topics)
@@ -286,7 +290,7 @@ class Switch:
     final_remove = self.in_topics.remove_many(message.remove)
 
     for control_message in [ self.stream_controls[topic].to_message(topic) for topic in message.add if topic in self.stream_controls ]:
-      await origin.send(control_message)
+      await self.send_to(control_message, [ origin ])
 
     await self.update_topic_requests([ *final_add, *final_remove ])
 
@@ -294,7 +298,7 @@ class Switch:
     if message.address not in self.addresses: return
     address_cost = self.addresses.get(message.address)
     found_conn = next(( conn for conn in self.link_manager.links if conn.addresses.get(message.address, -1) == address_cost ), None)
-    if found_conn is not None: await found_conn.send(message)
+    if found_conn is not None: await self.send_to(message, [ found_conn ])
 
   async def on_stream_message(self, message: TopicMessage, origin: Link):
     await self.send_to(message, [ link for link in self.link_manager.links if link != origin and message.topic in link.in_topics])
@@ -336,4 +340,5 @@ class Switch:
       logging.error(f"Error receiving from link: {e}")
       raise e
     finally:
+      link.close()
       await self.remove_link(link)
-- 
2.43.0


From 6347f07d34dd2a7657ef37daa765fc30cc21a7e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:03 +0000
Subject: [PATCH 003/139] fix: payloads with non-string keys can be
 deserialized

---
 streamtasks/net/serialization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/streamtasks/net/serialization.py b/streamtasks/net/serialization.py
index 0587e4a..0d80f0e 100644
--- a/streamtasks/net/serialization.py
+++ b/streamtasks/net/serialization.py
@@ -36,7 +36,7 @@ class RawData:
     if self._raw is None: self._raw = memoryview(msgpack.packb(self._data, strict_types=False)) # NOTE: do we want strict types?
     return self._raw
   def deserialize(self) -> Any:
-    if self._data is None: self._data = msgpack.unpackb(self._raw)
+    if self._data is None: self._data = msgpack.unpackb(self._raw, strict_map_key=False) # anything that can be packed can be unpacked
     return self._data
   def update(self):
     self.deserialize()
-- 
2.43.0


From 93044d47f5c19501f0c58fc312456a86edc49b01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:41 +0000
Subject: [PATCH 004/139] fix: a cancelled receive neither loses a message nor
 breaks the connection

---
 streamtasks/connection.py   |  8 +++++++-
 streamtasks/net/__init__.py | 20 +++++++++++---------
 2 files changed, 18 insertions(+), 10 deletions(-)

diff --git a/streamtasks/connection.py b/streamtasks/connection.py
index 8b979fa..7c7b6b2 100644
--- a/streamtasks/connection.py
+++ b/streamtasks/connection.py
@@ -86,6 +86,7 @@ class RawConnection(ABC):
     super().__init__()
     self._send_lock = asyncio.Lock()
     self._recv_lock = asyncio.Lock()
+    self._recv_task: asyncio.Task[bytes] | None = None
 
   async def init_client(self, extra_data: dict):
     try:
@@ -120,7 +121,12 @@ class RawConnection(ABC):
       await asyncio.shield(self._send(data))
   async def recv(self):
     async with self._recv_lock:
-      return await asyncio.shield(self._recv())
+      if self._recv_task is None:
+        self._recv_task = asyncio.create_task(self._recv())
+        self._recv_task.add_done_callback(lambda t: t.cancelled() or t.exception()) # may never be read, when closed
+      await asyncio.wait([self._recv_task]) # when cancelled, the next call continues with the pending read
+      task, self._recv_task = self._recv_task, None
+      return task.result()
 
   @abstractmethod
   async def _send(self, data: bytes): pass
diff --git a/streamtasks/net/__init__.py b/streamtasks/net/__init__.py
index a360006..b2ac2ac 100644
--- a/streamtasks/net/__init__.py
+++ b/streamtasks/net/__init__.py
@@ -90,15 +90,17 @@ class Link(ABC):
     if self._closed: raise ConnectionClosedError()
     message = None
     while message is None:
-      self._receiver = asyncio.create_task(self._recv())
-      try:
-        message = await self._receiver
-        message = _transform_message(message)
-        message = self._process_recv_message(message)
-      except asyncio.CancelledError as e:
-        if len(e.args) > 0 and isinstance(e.args[0], ConnectionClosedError): raise e.args[0]
-        else: raise e
-      finally: self._receiver = None
+      if self._receiver is None: self._receiver = asyncio.create_task(self._recv())
+      receiver = self._receiver
+      try: await asyncio.wait([receiver])
+      except asyncio.CancelledError:
+        if not receiver.done(): # otherwise the next call gets the message
+          receiver.cancel()
+          self._receiver = None
+        raise
+      self._receiver = None
+      if receiver.cancelled(): raise ConnectionClosedError()
+      message = self._process_recv_message(_transform_message(receiver.result()))
     return message
 
   @abstractmethod
-- 
2.43.0


From 1e6316947d8985827ac1d87ffe34474003faa2c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:41 +0000
Subject: [PATCH 005/139] fix: find the sync word after a partial one

---
 streamtasks/connection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/streamtasks/connection.py b/streamtasks/connection.py
index 7c7b6b2..cd91d08 100644
--- a/streamtasks/connection.py
+++ b/streamtasks/connection.py
@@ -164,7 +164,7 @@ class RawStreamConnection(RawConnection):
     while sync_index < len(RawStreamConnection.SYNC_WORD):
       next_byte = await self._reader.readexactly(1)
       if RawStreamConnection.SYNC_WORD[sync_index] == next_byte[0]: sync_index += 1
-      else: sync_index = 0
+      else: sync_index = int(RawStreamConnection.SYNC_WORD[0] == next_byte[0])
     data_len, = struct.unpack("<L", await self._reader.readexactly(4))
     return await self._reader.readexactly(data_len)
 
-- 
2.43.0


From aced2e02648066a7d196f55525af6f7f9efb38f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:41 +0000
Subject: [PATCH 006/139] fix: websocket connections accept messages of any
 size

---
 streamtasks/connection.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/streamtasks/connection.py b/streamtasks/connection.py
index cd91d08..4e8f6d8 100644
--- a/streamtasks/connection.py
+++ b/streamtasks/connection.py
@@ -272,7 +272,7 @@ class WebsocketServer(ServerBase):
     except BaseException as e: logging.warning(f"Failed to initialize connection. Error: {e}")
 
   async def run_server(self):
-    async with websockets.serve(self.on_connection, host=self.host, port=self.port):
+    async with websockets.serve(self.on_connection, host=self.host, port=self.port, max_size=None):
       return await asyncio.Future()
 
 class TCPSocketServer(StreamServerBase):
@@ -331,7 +331,7 @@ async def connect(url: str | None = None):
     rw = await asyncio.open_connection(data.hostname, data.port)
     connection = RawStreamConnection(*rw)
   elif isinstance(data, WebsocketConnectionData):
-    socket = await websockets.connect(data.uri)
+    socket = await websockets.connect(data.uri, max_size=None)
     connection = RawWebsocketConnection(socket)
   else: raise ValueError("Invalid connection data/url!")
   await connection.init_client(data.handshake_data)
-- 
2.43.0


From 6f5ed6907d860bf29c8541aa3d85ac72579db4d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:52 +0000
Subject: [PATCH 007/139] fix: a server requires its auth value from every
 client, not only the first

---
 streamtasks/connection.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/streamtasks/connection.py b/streamtasks/connection.py
index 4e8f6d8..6e3adff 100644
--- a/streamtasks/connection.py
+++ b/streamtasks/connection.py
@@ -104,10 +104,10 @@ class RawConnection(ABC):
     try:
       client_data = msgpack.unpackb(await self.recv())
       if not isinstance(client_data, dict): raise ValueError()
-      server_auth = extra_data.pop("auth", None)
+      server_auth = extra_data.get("auth", None)
       client_auth = client_data.get("auth", None)
       accepted = client_data.get("version", None) == _get_version_specifier() and client_auth == server_auth
-      server_data = { **extra_data, "accepted": accepted, "version": _get_version_specifier() }
+      server_data = { **{ k: v for k, v in extra_data.items() if k != "auth" }, "accepted": accepted, "version": _get_version_specifier() }
       await self.send(msgpack.packb(server_data))
       if not accepted: raise ConnectionError("Server rejected connection")
     except BaseException as e:
-- 
2.43.0


From 6ecc02d8cc7faba40ccdd086c2d86d94764f6870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:42 +0000
Subject: [PATCH 008/139] fix: an auto reconnector keeps retrying after a lost
 or failed connection

---
 streamtasks/connection.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/streamtasks/connection.py b/streamtasks/connection.py
index 6e3adff..7f56a5a 100644
--- a/streamtasks/connection.py
+++ b/streamtasks/connection.py
@@ -74,9 +74,9 @@ class AutoReconnector(Worker):
           link.on_closed.append(functools.partial(self._async_connected.set, False))
           if link.closed: self._async_connected.set(False) # in case it closed already
           await self._async_connected.wait(False)
-          await asyncio.wait(self.delay)
           logging.info("reconnecting")
-        except (ConnectionClosedError, ConnectionError): pass
+        except (ConnectionClosedError, OSError, websockets.WebSocketException) as e: logging.info(f"connection failed: {e}")
+        await asyncio.sleep(self.delay)
     finally: await self.shutdown()
 
   async def wait_connected(self, connected: bool = True): await self._async_connected.wait(connected)
-- 
2.43.0


From cedd9e472eda9b2941e4ef8b8cd753a994a1ade0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:07 +0000
Subject: [PATCH 009/139] fix: stopping a stream server with open connections
 ends it

---
 streamtasks/connection.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/streamtasks/connection.py b/streamtasks/connection.py
index 7f56a5a..a1df621 100644
--- a/streamtasks/connection.py
+++ b/streamtasks/connection.py
@@ -231,6 +231,10 @@ class StreamServerBase(ServerBase):
       link.on_closed.append(self.on_disconnected)
     except BaseException as e: logging.warning(f"Failed to initialize connection. Error: {e}")
 
+  async def serve(self, server: asyncio.Server):
+    try: await asyncio.Future()
+    finally: server.close() # the open connections are closed by the shutdown, waiting for them here would never end
+
 class RawWebsocketConnection(RawConnection):
   def __init__(self, socket: websockets.WebSocketCommonProtocol) -> None:
     super().__init__()
@@ -282,8 +286,7 @@ class TCPSocketServer(StreamServerBase):
     self.port = port
 
   async def run_server(self):
-    server = await asyncio.start_server(self.on_connection, self.host, self.port)
-    async with server: await server.serve_forever()
+    await self.serve(await asyncio.start_server(self.on_connection, self.host, self.port))
 
 class UnixSocketServer(StreamServerBase):
   def __init__(self, path: str, cost: int, handshake_data: dict):
@@ -292,8 +295,7 @@ class UnixSocketServer(StreamServerBase):
     self.path = path
 
   async def run_server(self):
-    server = await asyncio.start_unix_server(self.on_connection, self.path)
-    async with server: await server.serve_forever()
+    await self.serve(await asyncio.start_unix_server(self.on_connection, self.path))
 
 def get_node_socket_path(node_name: str | None):
   if node_name is None: node_name = NODE_NAME()
-- 
2.43.0


From e25d6dfeda0c78d6808295c62b26b238b67ac1d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:27 +0000
Subject: [PATCH 010/139] fix: the status code of a fetch error with any body
 can be read

---
 streamtasks/client/fetch.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/streamtasks/client/fetch.py b/streamtasks/client/fetch.py
index 3c1552a..9f13608 100644
--- a/streamtasks/client/fetch.py
+++ b/streamtasks/client/fetch.py
@@ -52,7 +52,9 @@ class FetchError(BaseException):
     self.body = body
 
   @property
-  def status_code(self): return FetchErrorStatusCode(self.body[0]) if self.body[0] in FetchErrorStatusCode._value2member_map_ else None
+  def status_code(self):
+    if not isinstance(self.body, (tuple, list)) or len(self.body) == 0 or not isinstance(self.body[0], str): return None
+    return FetchErrorStatusCode(self.body[0]) if self.body[0] in FetchErrorStatusCode._value2member_map_ else None
 
   def __str__(self) -> str:
     if isinstance(self.body, tuple) and len(self.body) == 2 and self.body[0] in FetchErrorStatusCode._value2member_map_:
-- 
2.43.0


From a58a4d4901e46b5b485a6e2baa8c28a7d354ceb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:56 +0000
Subject: [PATCH 011/139] fix: handlers ending in an inner cancellation do not
 end their server

---
 streamtasks/client/fetch.py  | 5 +++--
 streamtasks/client/signal.py | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/streamtasks/client/fetch.py b/streamtasks/client/fetch.py
index 9f13608..c0525ca 100644
--- a/streamtasks/client/fetch.py
+++ b/streamtasks/client/fetch.py
@@ -110,8 +110,9 @@ class FetchServer(Receiver[tuple[str, FetchRequest]]):
           try:
             await self._descriptor_mapping[descriptor](fr)
             if not fr.response_sent: await fr.respond(None)
-          except asyncio.CancelledError: raise
-          except ValidationError as e: await fr.respond_error(new_fetch_body_bad_request(str(e)))
+          except ValidationError as e:
+            if not fr.response_sent: await fr.respond_error(new_fetch_body_bad_request(str(e)))
           except BaseException as e:
+            if isinstance(e, asyncio.CancelledError) and asyncio.current_task().cancelling() > 0: raise
             if not fr.response_sent: await fr.respond_error(new_fetch_body_general_error(str(e)))
             logging.debug(e, descriptor)
diff --git a/streamtasks/client/signal.py b/streamtasks/client/signal.py
index 1e26953..7b8b1e2 100644
--- a/streamtasks/client/signal.py
+++ b/streamtasks/client/signal.py
@@ -48,8 +48,9 @@ class SignalServer(Receiver[tuple[str, Any]]):
         descriptor, data = req_message
         if descriptor in self._descriptor_mapping:
           try: await self._descriptor_mapping[descriptor](data)
-          except asyncio.CancelledError: raise
-          except BaseException as e: logging.debug(e, descriptor)
+          except BaseException as e:
+            if isinstance(e, asyncio.CancelledError) and asyncio.current_task().cancelling() > 0: raise
+            logging.debug(e, descriptor)
 
 async def send_signal(client: 'Client', endpoint: EndpointOrAddress, descriptor: str, body: Any):
   await client.send_to(endpoint_or_address_to_endpoint(endpoint, NetworkPorts.SIGNAL), RawData(SignalMessage(descriptor=descriptor, body=body).model_dump()))
-- 
2.43.0


From f355464d1637ae13e057960b9565505a37e6478c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:33 +0000
Subject: [PATCH 012/139] fix: a restarted or reenabled client keeps receiving
 and loses no message

---
 streamtasks/client/__init__.py | 36 +++++++++++++++++++---------------
 1 file changed, 20 insertions(+), 16 deletions(-)

diff --git a/streamtasks/client/__init__.py b/streamtasks/client/__init__.py
index d88d5dd..65d7224 100644
--- a/streamtasks/client/__init__.py
+++ b/streamtasks/client/__init__.py
@@ -19,6 +19,7 @@ class Client:
     self._started_event = asyncio.Event()
     self._receivers: list[Receiver] = []
     self._receive_task: Optional[asyncio.Task] = None
+    self._receive_lock = asyncio.Lock()
     self._address: Optional[int] = None
     self._address_resolver_cache: dict[str, int] = {}
     self._port_generator = IdGenerator(NetworkPorts.DYNAMIC_START, 0xffffffffffffffff)
@@ -34,13 +35,12 @@ class Client:
   def in_topic(self, topic: int): return InTopic(self, topic)
   def sync_in_topic(self, topic: int, sync: InTopicSynchronizer): return SynchronizedInTopic(self, topic, sync)
 
-  def start(self): self._started_event.set()
+  def start(self):
+    self._started_event.set()
+    self._start_receiving()
   async def stop_wait(self):
     self._started_event.clear()
-    if self._receive_task is not None:
-      self._receive_task.cancel("stopped receiving!")
-      try: await self._receive_task
-      except asyncio.CancelledError: pass
+    await self._stop_receiving()
 
   def get_free_port(self): return self._port_generator.next()
 
@@ -114,13 +114,10 @@ class Client:
 
   async def enable_receiver(self, receiver: Receiver):
     self._receivers.append(receiver)
-    self._receive_task = self._receive_task or asyncio.create_task(self._task_receive())
+    self._start_receiving()
   async def disable_receiver(self, receiver: Receiver):
-    self._receivers.remove(receiver)
-    if len(self._receivers) == 0 and self._receive_task is not None:
-      self._receive_task.cancel()
-      try: await self._receive_task
-      except asyncio.CancelledError: pass
+    if receiver in self._receivers: self._receivers.remove(receiver)
+    if len(self._receivers) == 0: await self._stop_receiving()
 
   def set_address_name(self, name: str, address: Optional[int]):
     if address is None: self._address_resolver_cache.pop(name, None)
@@ -128,15 +125,22 @@ class Client:
 
   async def _get_address(self, address: Union[int, str]) -> int: return await self.resolve_address_name(address) if isinstance(address, str) else address
 
+  def _start_receiving(self):
+    if len(self._receivers) == 0: return
+    if self._receive_task is None or self._receive_task.done() or self._receive_task.cancelling() > 0:
+      self._receive_task = asyncio.create_task(self._task_receive())
+
+  async def _stop_receiving(self):
+    if self._receive_task is None: return
+    self._receive_task.cancel("stopped receiving!")
+    await asyncio.wait([ self._receive_task ])
+
   async def _task_receive(self):
-    try:
+    async with self._receive_lock: # a stopping task has to let go of the link first
       while len(self._receivers) > 0:
         await self._started_event.wait()
-        message = await self._link.recv()
-        await self._started_event.wait()
+        message = await self._link.recv() # a received message must be passed on before waiting again
         if isinstance(message, InTopicsChangedMessage): self._subscribed_provided_topics.change_many(message.add, message.remove)
         if isinstance(message, TopicMessage) and message.topic not in self._in_topics: continue
         for receiver in self._receivers:
           receiver.on_message(message)
-    finally:
-      self._receive_task = None
-- 
2.43.0


From 9a1dde322d3e0e8e22babb7b84d5850aebf99d80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:33 +0000
Subject: [PATCH 013/139] fix: serialize starting and stopping of a receiver

---
 streamtasks/client/receiver.py | 31 +++++++++++++++++++++----------
 1 file changed, 21 insertions(+), 10 deletions(-)

diff --git a/streamtasks/client/receiver.py b/streamtasks/client/receiver.py
index 778c64e..9f60001 100644
--- a/streamtasks/client/receiver.py
+++ b/streamtasks/client/receiver.py
@@ -14,24 +14,35 @@ class Receiver(ABC, Generic[T]):
     self._recv_queue: asyncio.Queue[T] = asyncio.Queue()
     self._client: 'Client' = client
     self._receiving_count: int = 0
+    self._receiving_lock = asyncio.Lock()
+
+  @property
+  def receiving(self): return self._receiving_count > 0
 
   @abstractmethod
   def on_message(self, message: Message):
     pass
 
   async def start_recv(self):
-    self._receiving_count += 1
-    if self._receiving_count > 1: return
-    await self._client.enable_receiver(self)
-    await asyncio.sleep(0)
-    await self._on_start_recv()
+    async with self._receiving_lock:
+      if self._receiving_count == 0:
+        await self._client.enable_receiver(self)
+        try:
+          await asyncio.sleep(0)
+          await self._on_start_recv()
+        except BaseException:
+          await self._client.disable_receiver(self)
+          raise
+      self._receiving_count += 1
 
   async def stop_recv(self):
-    self._receiving_count = max(0, self._receiving_count - 1)
-    if self._receiving_count > 0: return
-    await self._client.disable_receiver(self)
-    await asyncio.sleep(0)
-    await self._on_stop_recv()
+    async with self._receiving_lock:
+      if self._receiving_count == 0: return
+      self._receiving_count -= 1
+      if self._receiving_count > 0: return
+      await self._client.disable_receiver(self)
+      await asyncio.sleep(0)
+      await self._on_stop_recv()
 
   def empty(self): return self._recv_queue.empty()
   async def get(self): return await self._recv_queue.get()
-- 
2.43.0


From e67585fe5e275b89fcabba8e1e3226274a4a54b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:33 +0000
Subject: [PATCH 014/139] fix: topics shared by several holders keep their
 registration and demand

---
 streamtasks/client/topic.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/streamtasks/client/topic.py b/streamtasks/client/topic.py
index 1a6e043..5a74b3f 100644
--- a/streamtasks/client/topic.py
+++ b/streamtasks/client/topic.py
@@ -38,8 +38,8 @@ class _TopicBase:
   async def stop(self): pass
   async def set_registered(self, registered: bool):
     if self._registered == registered: return
-    await self._set_registered(registered)
     self._registered = registered
+    await self._set_registered(registered)
 
   @abstractmethod
   async def _set_registered(self, registered: bool): pass
@@ -217,12 +217,12 @@ class OutTopic(_TopicBase):
   def is_requested(self): return self._a_is_requested.value
 
   async def start(self):
-    if self._receiver_task is None: self._receiver_task = asyncio.create_task(self._run_receiver())
     await self._receiver.start_recv()
+    if self._receiver_task is None: self._receiver_task = asyncio.create_task(self._run_receiver())
 
   async def stop(self):
     await self._receiver.stop_recv()
-    if self._receiver_task is not None:
+    if not self._receiver.receiving and self._receiver_task is not None:
       self._receiver_task.cancel()
       self._receiver_task = None
 
-- 
2.43.0


From 30e9417ca488fded7191be89862c3406a56bb466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:40 +0000
Subject: [PATCH 015/139] fix: refuse negative id counts, they made discovery
 hand out ids twice

---
 streamtasks/client/discovery.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/streamtasks/client/discovery.py b/streamtasks/client/discovery.py
index c401ce6..1ae7eb2 100644
--- a/streamtasks/client/discovery.py
+++ b/streamtasks/client/discovery.py
@@ -1,7 +1,7 @@
 from contextlib import asynccontextmanager
 import secrets
 from typing import TYPE_CHECKING, Optional
-from pydantic import BaseModel, ValidationError, field_validator
+from pydantic import BaseModel, Field, ValidationError, field_validator
 from streamtasks.client.broadcast import BroadcastReceiver
 from streamtasks.client.receiver import Receiver
 from streamtasks.client.signal import send_signal
@@ -48,7 +48,7 @@ class TopicSpaceResponseMessage(BaseModel):
   topic_id_map: list[tuple[int, int]]
 
 class GenerateAddressesRequestMessageBase(BaseModel):
-  count: int
+  count: int = Field(ge=0)
 
 class GenerateAddressesRequestMessage(GenerateAddressesRequestMessageBase):
   request_id: int
@@ -60,7 +60,7 @@ class GenerateAddressesResponseMessage(GenerateAddressesResponseMessageBase):
   request_id: int
 
 class GenerateTopicsRequestBody(BaseModel):
-  count: int
+  count: int = Field(ge=0)
 
 
 class GenerateTopicsResponseBody(BaseModel):
-- 
2.43.0


From 8aaa8301acdd8d41a51072d2646bab6a07ae8b00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:40 +0000
Subject: [PATCH 016/139] fix: deleting an unknown topic space is reported as
 not found

---
 streamtasks/services/discovery.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/streamtasks/services/discovery.py b/streamtasks/services/discovery.py
index 73b51bb..d1a880d 100644
--- a/streamtasks/services/discovery.py
+++ b/streamtasks/services/discovery.py
@@ -4,7 +4,7 @@ from streamtasks.client.signal import SignalServer
 from streamtasks.services.constants import NetworkAddresses, NetworkTopics
 from streamtasks.worker import Worker
 from streamtasks.client import Client
-from streamtasks.client.fetch import FetchRequest, FetchServer, new_fetch_body_bad_request, new_fetch_body_not_found
+from streamtasks.client.fetch import FetchRequest, FetchServer, new_fetch_body_not_found
 from streamtasks.net.serialization import RawData
 from streamtasks.net.messages import TopicControlData
 from streamtasks.client.discovery import DiscoveryConstants, AddressNameAssignmentMessage, GenerateAddressesRequestMessage, GenerateAddressesRequestMessageBase, GenerateAddressesResponseMessage, GenerateAddressesResponseMessageBase, GenerateTopicsRequestBody, GenerateTopicsResponseBody, RegisterAddressNameRequestBody, RegisterTopicSpaceRequestMessage, ResolveAddressRequestBody, ResolveAddressResonseBody, TopicSpaceRequestMessage, TopicSpaceResponseMessage, TopicSpaceTranslationRequestMessage, TopicSpaceTranslationResponseMessage, UnregisterAddressNameMessage
@@ -115,7 +115,7 @@ class DiscoveryWorker(Worker):
         self._topic_spaces.pop(request.id)
         await req.respond("OK")
       except KeyError as e:
-        await req.respond_error(new_fetch_body_bad_request(str(e)))
+        await req.respond_error(new_fetch_body_not_found(str(e)))
 
     await server.run()
 
-- 
2.43.0


From ada11352be048237b2341cbe4475bf006afd19a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:40 +0000
Subject: [PATCH 017/139] fix: unregistering an address name keeps a newer
 registration and forgets the own one

---
 streamtasks/client/discovery.py   | 5 +++--
 streamtasks/services/discovery.py | 3 ++-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/streamtasks/client/discovery.py b/streamtasks/client/discovery.py
index 1ae7eb2..1174435 100644
--- a/streamtasks/client/discovery.py
+++ b/streamtasks/client/discovery.py
@@ -76,6 +76,7 @@ class ResolveAddressResonseBody(BaseModel):
 
 class UnregisterAddressNameMessage(BaseModel):
   address_name: str
+  address: Optional[int] = None # only unregister if the name still belongs to this address
 
   @field_validator("address_name")
   @classmethod
@@ -168,8 +169,8 @@ async def address_name_context(client: 'Client', name: str, address: int | None
     client.set_address_name(name, address)
     yield
   finally:
-    await send_signal(client, NetworkAddresses.ID_DISCOVERY, DiscoveryConstants.SD_UNREGISTER_ADDRESS_NAME, UnregisterAddressNameMessage(address_name=name).model_dump())
-    client.set_address_name(name, address)
+    await send_signal(client, NetworkAddresses.ID_DISCOVERY, DiscoveryConstants.SD_UNREGISTER_ADDRESS_NAME, UnregisterAddressNameMessage(address_name=name, address=address).model_dump())
+    client.set_address_name(name, None)
 
 async def wait_for_topic_signal(client: 'Client', topic: int): return await TopicSignalReceiver(client, topic).wait()
 
diff --git a/streamtasks/services/discovery.py b/streamtasks/services/discovery.py
index d1a880d..6a6354a 100644
--- a/streamtasks/services/discovery.py
+++ b/streamtasks/services/discovery.py
@@ -136,7 +136,8 @@ class DiscoveryWorker(Worker):
     async def _(message_data: Any):
       request = UnregisterAddressNameMessage.model_validate(message_data)
       logging.info(f"unregistering address name {request.address_name}")
-      self._address_map.pop(request.address_name, None)
+      if request.address is None or self._address_map.get(request.address_name, None) == request.address:
+        self._address_map.pop(request.address_name, None)
 
     await signal_server.run()
 
-- 
2.43.0


From d1d6de9ed0096a2042135190d1135813dae87e3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:32 +0000
Subject: [PATCH 018/139] fix: resolving and waiting for a name return its
 current address

---
 streamtasks/client/__init__.py  | 8 +++++---
 streamtasks/client/discovery.py | 2 +-
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/streamtasks/client/__init__.py b/streamtasks/client/__init__.py
index 65d7224..9198fda 100644
--- a/streamtasks/client/__init__.py
+++ b/streamtasks/client/__init__.py
@@ -53,10 +53,9 @@ class Client:
   async def send_stream_control(self, topic: int, control_data: TopicControlData): await self._link.send(control_data.to_message(topic))
   async def send_stream_data(self, topic: int, data: RawData): await self._link.send(TopicDataMessage(topic, data))
   async def resolve_address_name(self, name: str) -> Optional[int]:
-    if name in self._address_resolver_cache: return self._address_resolver_cache[name]
     raw_res = await self.fetch(NetworkAddresses.ID_DISCOVERY, DiscoveryConstants.FD_RESOLVE_ADDRESS, ResolveAddressRequestBody(address_name=name).model_dump())
     res: ResolveAddressResonseBody = ResolveAddressResonseBody.model_validate(raw_res)
-    if res.address is not None: self._address_resolver_cache[name] = res.address
+    self.set_address_name(name, res.address)
     return res.address
 
   async def request_address(self):
@@ -123,7 +122,10 @@ class Client:
     if address is None: self._address_resolver_cache.pop(name, None)
     else: self._address_resolver_cache[name] = address
 
-  async def _get_address(self, address: Union[int, str]) -> int: return await self.resolve_address_name(address) if isinstance(address, str) else address
+  async def _get_address(self, address: Union[int, str]) -> int:
+    if not isinstance(address, str): return address
+    if address in self._address_resolver_cache: return self._address_resolver_cache[address]
+    return await self.resolve_address_name(address)
 
   def _start_receiving(self):
     if len(self._receivers) == 0: return
diff --git a/streamtasks/client/discovery.py b/streamtasks/client/discovery.py
index 1174435..d58e3e3 100644
--- a/streamtasks/client/discovery.py
+++ b/streamtasks/client/discovery.py
@@ -175,7 +175,7 @@ async def address_name_context(client: 'Client', name: str, address: int | None
 async def wait_for_topic_signal(client: 'Client', topic: int): return await TopicSignalReceiver(client, topic).wait()
 
 async def wait_for_address_name(client: 'Client', name: str):
-  found_address = client._address_resolver_cache.get(name, None)
+  found_address = await client.resolve_address_name(name)
   if found_address is not None: return found_address
   receiver = AddressNameRegisteredReceiver(client, [ DiscoveryConstants.BC_ADDRESS_NAME_REGISTERED ], NetworkAddresses.ID_DISCOVERY)
   async with receiver:
-- 
2.43.0


From 1161190a5444628241076d1717823b19df6f650b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:32 +0000
Subject: [PATCH 019/139] fix: a receiver failing on a message does not end
 receiving for the client

---
 streamtasks/client/__init__.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/streamtasks/client/__init__.py b/streamtasks/client/__init__.py
index 9198fda..addfe92 100644
--- a/streamtasks/client/__init__.py
+++ b/streamtasks/client/__init__.py
@@ -1,5 +1,6 @@
 from typing import Iterable, Optional, Any, Union
 import asyncio
+import logging
 from streamtasks.client.discovery import request_addresses
 from streamtasks.client.receiver import Receiver
 from streamtasks.client.topic import InTopic, InTopicSynchronizer, OutTopic, InTopicsContext, OutTopicsContext, SynchronizedInTopic
@@ -145,4 +146,5 @@ class Client:
         if isinstance(message, InTopicsChangedMessage): self._subscribed_provided_topics.change_many(message.add, message.remove)
         if isinstance(message, TopicMessage) and message.topic not in self._in_topics: continue
         for receiver in self._receivers:
-          receiver.on_message(message)
+          try: receiver.on_message(message)
+          except Exception as e: logging.warning(f"Receiver failed to handle a message. Error: {e}")
-- 
2.43.0


From 647563bd1d10df1eb12bed80b645fe0017a1d25c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:31 +0000
Subject: [PATCH 020/139] fix: synchronizer priorities apply to messages with
 equal timestamps

---
 streamtasks/client/topic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/streamtasks/client/topic.py b/streamtasks/client/topic.py
index 5a74b3f..d842b2a 100644
--- a/streamtasks/client/topic.py
+++ b/streamtasks/client/topic.py
@@ -146,7 +146,7 @@ class PrioritizedSequentialInTopicSynchronizer(SequentialInTopicSynchronizer):
     self._done_topics = set()
 
   async def wait_for(self, topic_id: int, timestamp: int) -> bool:
-    if topic_id is self._done_topics: self._done_topics.remove(topic_id)
+    if topic_id in self._done_topics: self._done_topics.remove(topic_id)
     return await super().wait_for(topic_id, timestamp)
 
   def start_receive(self, topic_id: int):
-- 
2.43.0


From f1e323b2cdcf7c3e5abcac69fbdc16afd0641542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:31 +0000
Subject: [PATCH 021/139] fix: resuming a topic that is not paused does not set
 it back

---
 streamtasks/client/topic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/streamtasks/client/topic.py b/streamtasks/client/topic.py
index d842b2a..8c83f99 100644
--- a/streamtasks/client/topic.py
+++ b/streamtasks/client/topic.py
@@ -131,7 +131,7 @@ class SequentialInTopicSynchronizer(InTopicSynchronizer):
 
   async def set_paused(self, topic_id: int, paused: bool):
     if paused: self._set_topic_timestamp(topic_id, None)
-    else: self._set_topic_timestamp(topic_id, self.min_timestamp)
+    elif topic_id not in self._topic_timestamps: self._set_topic_timestamp(topic_id, self.min_timestamp)
 
   def _is_waiting(self, topic_id: int, timestamp: int): return self.min_timestamp < timestamp
   def _set_topic_timestamp(self, topic_id: int, timestamp: int | None):
-- 
2.43.0


From 9e835ee1bded8d6e7e12410ba4344480fe9665f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:31 +0000
Subject: [PATCH 022/139] fix: a stopped topic does not hold back the topics
 synchronized with it

---
 streamtasks/client/topic.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/streamtasks/client/topic.py b/streamtasks/client/topic.py
index 8c83f99..ceefbf2 100644
--- a/streamtasks/client/topic.py
+++ b/streamtasks/client/topic.py
@@ -169,6 +169,8 @@ class _SynchronizedInTopicReceiver(_InTopicReceiver):
     super().__init__(client, topic)
     self._sync = sync
 
+  async def _on_stop_recv(self): await self._sync.set_paused(self._topic, True) # a stopped topic must not hold back the others
+
   async def get(self):
     while True:
       self._sync.start_receive(self._topic)
-- 
2.43.0


From 3494c183be8a2eb207d99069a786b7592be199d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:31 +0000
Subject: [PATCH 023/139] fix: infinite timestamps are invalid timestamps

---
 streamtasks/message/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/streamtasks/message/utils.py b/streamtasks/message/utils.py
index 72b0276..b2e999c 100644
--- a/streamtasks/message/utils.py
+++ b/streamtasks/message/utils.py
@@ -1,3 +1,4 @@
+import math
 from streamtasks.net.serialization import RawData
 
 def get_timestamp_from_message(data: RawData) -> int:
@@ -7,7 +8,7 @@ def get_timestamp_from_message(data: RawData) -> int:
   elif hasattr(content, "timestamp") and isinstance(content.timestamp, int): timestamp = content.timestamp
   else: raise ValueError(f"could not get timestamp from message: {data}")
   if isinstance(timestamp, int): return timestamp
-  if isinstance(timestamp, float): return int(timestamp)
+  if isinstance(timestamp, float) and math.isfinite(timestamp): return int(timestamp)
   raise ValueError(f"could not get timestamp from message: {data}")
 
 def set_timestamp_on_message(data: RawData, timestamp: int):
-- 
2.43.0


From 7b4a9df883c40ca6a720f62f7a84f727392f8b5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:13 +0000
Subject: [PATCH 024/139] fix: a task host with running tasks shuts down, and
 its tasks report before it unregisters

---
 streamtasks/system/task.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/streamtasks/system/task.py b/streamtasks/system/task.py
index a2e884c..869190b 100644
--- a/streamtasks/system/task.py
+++ b/streamtasks/system/task.py
@@ -213,9 +213,11 @@ class TaskHost(Worker):
         logging.debug("Failed to register task host!", e, traceback.format_exc())
       raise e
     finally:
-      shutdown_tasks: list[asyncio.Task] = list(self.tasks) + [ asyncio.create_task(self.unregister(ep)) for ep in self._registered_at_endpoints ]
-      for task in self.tasks.values(): task.cancel()
-      if len(shutdown_tasks) > 0: await asyncio.wait(shutdown_tasks, timeout=1) # NOTE: make configurable
+      tasks = list(self.tasks.values())
+      for task in tasks: task.cancel()
+      if len(tasks) > 0: await asyncio.wait(tasks, timeout=1) # NOTE: make configurable
+      unregister_tasks = [ asyncio.create_task(self.unregister(ep)) for ep in self._registered_at_endpoints ] # after the tasks have reported
+      if len(unregister_tasks) > 0: await asyncio.wait(unregister_tasks, timeout=1)
       await self.shutdown()
       self.ready.clear()
 
-- 
2.43.0


From 19216626f2dd1adeb6fbf1418ec8cb620d25715a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:13 +0000
Subject: [PATCH 025/139] fix: a task with invalid metadata is not started, and
 a starting host can be stopped

---
 streamtasks/system/task.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/streamtasks/system/task.py b/streamtasks/system/task.py
index 869190b..520bc3b 100644
--- a/streamtasks/system/task.py
+++ b/streamtasks/system/task.py
@@ -249,9 +249,11 @@ class TaskHost(Worker):
       try:
         task = await self.create_task(body.config, body.topic_space_id)
         metadata = await asyncio.wait_for(task.setup(), 1) # NOTE: make this configurable
+        response = TaskStartResponse(id=body.id, metadata=metadata, error=None)
         self.tasks[body.id] = asyncio.create_task(self.run_task(body.id, task, body.report_address))
-        await req.respond(TaskStartResponse(id=body.id, metadata=metadata, error=None))
+        await req.respond(response)
       except BaseException as e:
+        if isinstance(e, asyncio.CancelledError) and asyncio.current_task().cancelling() > 0: raise
         await req.respond(TaskStartResponse(id=body.id, error=str(e), metadata={}))
 
     @fetch_server.route(TaskConstants.FD_TASK_CANCEL)
-- 
2.43.0


From 22daf71a04cc213c578707d45d31696e93bacc7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:13 +0000
Subject: [PATCH 026/139] fix: a task can only be started once

---
 streamtasks/system/task.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/streamtasks/system/task.py b/streamtasks/system/task.py
index 520bc3b..226d871 100644
--- a/streamtasks/system/task.py
+++ b/streamtasks/system/task.py
@@ -372,6 +372,7 @@ class TaskManager(Worker):
       try:
         body = TMTaskStartRequest.model_validate(req.body)
         task_instance = self.tasks[body.id]
+        if task_instance.status is not TaskStatus.scheduled: return await req.respond_error(new_fetch_body_bad_request("The task was already started!"))
         task_host = self.task_hosts[task_instance.host_id]
 
         task_start_request = TaskStartRequest(
-- 
2.43.0


From 354407ec83ee2421e8281bd1ceb5745378af95fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:13 +0000
Subject: [PATCH 027/139] fix: a task status never goes back to running, and a
 failed start reaches the observers

---
 streamtasks/system/task.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/streamtasks/system/task.py b/streamtasks/system/task.py
index 226d871..7ddf259 100644
--- a/streamtasks/system/task.py
+++ b/streamtasks/system/task.py
@@ -386,10 +386,12 @@ class TaskManager(Worker):
         task_start_result: TaskStartResponse = TaskStartResponse.model_validate(task_start_result)
 
         task_instance.metadata=task_start_result.metadata
-        task_instance.error=task_start_result.error
-        task_instance.status=TaskStatus.running if task_start_result.error is None else TaskStatus.failed
-
-        if task_instance.status == TaskStatus.failed: self.tasks.pop(task_instance.id)
+        if task_start_result.error is not None:
+          task_instance.error=task_start_result.error
+          task_instance.status=TaskStatus.failed
+          self.tasks.pop(task_instance.id, None)
+          await self.bc_server.broadcast(get_namespace_by_task_id(task_instance.id), RawData(task_instance.model_dump()))
+        elif task_instance.status is TaskStatus.scheduled: task_instance.status=TaskStatus.running # may already be reported as done
 
         await req.respond(task_instance.model_dump())
       except KeyError as e: await req.respond_error(new_fetch_body_not_found(str(e)))
-- 
2.43.0


From 4f9b635ac2dd065fd86d915c263094c472d7a4d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:13 +0000
Subject: [PATCH 028/139] fix: cancelling a task its host does not run is
 reported as not found

---
 streamtasks/system/task.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/streamtasks/system/task.py b/streamtasks/system/task.py
index 7ddf259..c83c445 100644
--- a/streamtasks/system/task.py
+++ b/streamtasks/system/task.py
@@ -263,7 +263,7 @@ class TaskHost(Worker):
         task = self.tasks[body.id]
         task.cancel("Cancelled remotely!")
         await req.respond("OK")
-      except KeyError as e: await req.respond_error(new_fetch_body_bad_request(str(e)))
+      except KeyError as e: await req.respond_error(new_fetch_body_not_found(str(e)))
       except BaseException as e: await req.respond_error(new_fetch_body_general_error(str(e)))
 
     await fetch_server.run()
@@ -407,6 +407,7 @@ class TaskManager(Worker):
         task_cancel_result = await self.client.fetch(task_host.address, TaskConstants.FD_TASK_CANCEL, tc_req.model_dump())
         if task_cancel_result != "OK": raise Exception("Failed to cancel task!")
         await req.respond("OK")
+      except FetchError as e: await req.respond_error(e.body)
       except KeyError as e: await req.respond_error(new_fetch_body_not_found(str(e)))
       except ValidationError as e: await req.respond_error(new_fetch_body_bad_request(str(e)))
 
-- 
2.43.0


From b3a33963e6822b72591200b388f54d687daa905d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:13 +0000
Subject: [PATCH 029/139] fix: unregistered task hosts are reported, their ids
 are no uuids

---
 streamtasks/system/task.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/streamtasks/system/task.py b/streamtasks/system/task.py
index c83c445..172ad34 100644
--- a/streamtasks/system/task.py
+++ b/streamtasks/system/task.py
@@ -421,9 +421,9 @@ class TaskHostRegisteredReceiver(BroadcastReceiver[TaskHostRegistration]):
   def transform_data(self, _: str, data: RawData) -> TaskInstance:
     return TaskHostRegistration.model_validate(data.data)
 
-class TaskHostUnregisteredReceiver(BroadcastReceiver[ModelWithId]):
-  def transform_data(self, _: str, data: RawData) -> ModelWithId:
-    return ModelWithId.model_validate(data.data)
+class TaskHostUnregisteredReceiver(BroadcastReceiver[ModelWithStrId]):
+  def transform_data(self, _: str, data: RawData) -> ModelWithStrId:
+    return ModelWithStrId.model_validate(data.data)
 
 class TaskManagerClient:
   def __init__(self, client: Client, address_name: str = NetworkAddressNames.TASK_MANAGER) -> None:
-- 
2.43.0


From 4a824e059d83021c5f2341f9dab844af06e4032a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:20 +0000
Subject: [PATCH 030/139] fix: a task host shuts down after its last messages
 were forwarded

---
 streamtasks/system/task.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/streamtasks/system/task.py b/streamtasks/system/task.py
index 172ad34..809358b 100644
--- a/streamtasks/system/task.py
+++ b/streamtasks/system/task.py
@@ -218,6 +218,7 @@ class TaskHost(Worker):
       if len(tasks) > 0: await asyncio.wait(tasks, timeout=1) # NOTE: make configurable
       unregister_tasks = [ asyncio.create_task(self.unregister(ep)) for ep in self._registered_at_endpoints ] # after the tasks have reported
       if len(unregister_tasks) > 0: await asyncio.wait(unregister_tasks, timeout=1)
+      await asyncio.sleep(0.01) # let the switch forward the last messages
       await self.shutdown()
       self.ready.clear()
 
-- 
2.43.0


From 489a446893328725a8e76fca4810b0d51e42eb8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:24 +0000
Subject: [PATCH 031/139] fix: an asgi connection over the network ends on both
 sides however one of them ends

---
 streamtasks/asgi.py | 90 ++++++++++++++++++++++++---------------------
 1 file changed, 48 insertions(+), 42 deletions(-)

diff --git a/streamtasks/asgi.py b/streamtasks/asgi.py
index 725c204..427d114 100644
--- a/streamtasks/asgi.py
+++ b/streamtasks/asgi.py
@@ -27,6 +27,7 @@ class ASGIConnectionConfig:
 
 class ASGIConstants:
   FD_DESCRIPTOR = "init"
+  DISCONNECT_EVENTS = { "http.disconnect", "websocket.disconnect" }
 
 
 class ASGIInitRequest(BaseModel):
@@ -157,7 +158,6 @@ class ASGIAppRunner:
 
   def _start_connection(self, config: ASGIConnectionConfig):
     receiver = ASGIEventReceiver(self._client, config.port)
-    stop_signal = asyncio.Event()
     sender = ASGIEventSender(self._client, config.remote_endpoint)
 
     recv_queue = asyncio.Queue()
@@ -166,23 +166,28 @@ class ASGIAppRunner:
       await sender.send(event)
       await asyncio.sleep(0)
 
-    async def receive() -> dict:
-      while recv_queue.empty() and not stop_signal.is_set():
+    async def recv_loop():
+      closed = False
+      while not closed:
         data = await receiver.get()
-        for event in data.events:
-          event = MessagePackValueTransformer.deannotate_value(event)
-          await recv_queue.put(event)
-      await asyncio.sleep(0)
-      return await recv_queue.get()
+        for event in data.events: recv_queue.put_nowait(MessagePackValueTransformer.deannotate_value(event))
+        closed = bool(data.closed)
+      recv_queue.put_nowait({ "type": f"{config.scope.get('type')}.disconnect" })
+
+    async def receive() -> dict:
+      event = await recv_queue.get()
+      if event.get("type", None) in ASGIConstants.DISCONNECT_EVENTS: recv_queue.put_nowait(event) # stays disconnected
+      return event
 
     async def run():
       try:
         logging.info(f"ASGI instance ({config.port}) starting!")
         async with receiver:
-          await self._app(config.scope, receive, send)
+          recv_task = asyncio.create_task(recv_loop())
+          try: await self._app(config.scope, receive, send)
+          finally: recv_task.cancel()
       finally:
         await sender.close()
-        stop_signal.set()
         logging.info(f"ASGI instance ({config.port}) finished!")
 
     self._connection_tasks.create(run())
@@ -197,38 +202,39 @@ class ASGIProxyApp:
 
     port = self._client.get_free_port()
     receiver = ASGIEventReceiver(self._client, port)
-    await receiver.start_recv() # NOTE: must be enabled before sending init message, otherwise events will be lost
-
-    init_respose_raw = await self._client.fetch(self._remote_endpoint, ASGIConstants.FD_DESCRIPTOR, ASGIInitRequest(
-      address=self._client.address,
-      port=port,
-      scope=ser_scope).model_dump())
-    init_respose = ASGIInitResponse.model_validate(init_respose_raw)
-
-    closed_event = asyncio.Event()
-    sender = ASGIEventSender(self._client, (self._remote_endpoint[0], init_respose.port))
-
-    async def recv_loop():
-      while not closed_event.is_set():
-        event = await receive()
-        await sender.send(event)
-        await asyncio.sleep(0)
-        event_type = event.get("type", None)
-        if event_type == "http.disconnect" or event_type == "websocket.disconnect": closed_event.set()
-
-    async def send_loop():
-      while not closed_event.is_set():
-        await asyncio.sleep(0)
-        data = await receiver.get()
-        for event in data.events: await send(MessagePackValueTransformer.deannotate_value(event))
-        if data.closed: closed_event.set()
-
-    recv_task = asyncio.create_task(recv_loop())
-    send_task = asyncio.create_task(send_loop())
-    await closed_event.wait()
-    await receiver.stop_recv()
-    recv_task.cancel()
-    send_task.cancel()
+    async with receiver: # NOTE: must be enabled before sending init message, otherwise events will be lost
+      init_respose_raw = await self._client.fetch(self._remote_endpoint, ASGIConstants.FD_DESCRIPTOR, ASGIInitRequest(
+        address=self._client.address,
+        port=port,
+        scope=ser_scope).model_dump())
+      init_respose = ASGIInitResponse.model_validate(init_respose_raw)
+
+      sender = ASGIEventSender(self._client, (self._remote_endpoint[0], init_respose.port))
+      app_closed = False
+
+      async def recv_loop():
+        event_type = None
+        while event_type not in ASGIConstants.DISCONNECT_EVENTS:
+          event = await receive()
+          await sender.send(event)
+          await asyncio.sleep(0)
+          event_type = event.get("type", None)
+
+      async def send_loop():
+        nonlocal app_closed
+        while not app_closed:
+          await asyncio.sleep(0)
+          data = await receiver.get()
+          if data.closed: app_closed = True
+          for event in data.events: await send(MessagePackValueTransformer.deannotate_value(event))
+
+      tasks = [ asyncio.create_task(recv_loop()), asyncio.create_task(send_loop()) ]
+      try:
+        done, _ = await asyncio.wait(tasks, return_when=asyncio.FIRST_COMPLETED)
+        for task in done: task.result()
+      finally:
+        for task in tasks: task.cancel()
+        if not app_closed: await sender.close()
 
 class HTTPServerOverASGI(Worker):
   def __init__(self, http_endpoint: tuple[str, int], asgi_endpoint: EndpointOrAddress, http_config: dict[str, Any] = {}):
-- 
2.43.0


From 2c62ce39aa4f9705018c171b33afb22da5bbb02f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:07 +0000
Subject: [PATCH 032/139] fix: a path pattern matches the entire path

---
 streamtasks/asgiserver.py | 34 +++++++++-------------------------
 1 file changed, 9 insertions(+), 25 deletions(-)

diff --git a/streamtasks/asgiserver.py b/streamtasks/asgiserver.py
index f562507..f90ced2 100644
--- a/streamtasks/asgiserver.py
+++ b/streamtasks/asgiserver.py
@@ -365,7 +365,7 @@ class ASGIServer(ASGIHandlerStack):
 # TODO: matching needs improvements
 class PathPattern:
   def __init__(self, pattern: str) -> None:
-    pattern = pattern.rstrip("/")
+    pattern = pattern.rstrip("/") or pattern[:1]
     param_ranges: list[tuple[int, int]] = []
     param_search_start = 0
     while (param_start := pattern.find("{", param_search_start)) != -1:
@@ -394,6 +394,11 @@ class PathPattern:
     for part in self.parts:
       if "}" in part: raise ValueError("Invalid pattern. Found closing brace without an opening brace.")
 
+    regex = re.escape(self.parts[0])
+    for (_, param_allow_slash), part in zip(self.params, self.parts[1:]):
+      regex += ("(.*?)" if param_allow_slash else "([^/]*?)") + re.escape(part)
+    self._regex = re.compile(regex, re.DOTALL)
+
   def construct(self, params: dict[str, str], default_value: str | None = None) -> str:
     param_parts = []
     for param_name, param_allow_slash in self.params:
@@ -410,30 +415,9 @@ class PathPattern:
 
   def match(self, path: str) -> dict[str,str] | None:
     # path = path.rstrip("/")
-    if len(self.parts) == 1:
-      return {} if path == self.parts[0] else None
-
-    params: dict[str, str] = {}
-    current_index = 0
-    for idx in range(0, len(self.parts) - 1):
-      part1 = self.parts[idx]
-      part2 = self.parts[idx + 1]
-      param_name, param_allow_slash = self.params[idx]
-
-      part1_len = len(part1)
-      if path[current_index:current_index + part1_len] != part1: return None
-
-      current_index += part1_len
-      if part2 == "" and idx == len(self.parts) - 2:
-        param_val = path[current_index:]
-      else:
-        part2_start = path.find(part2, current_index)
-        if part2_start == -1: return None
-        param_val = path[current_index:part2_start]
-      current_index += len(param_val)
-      if "/" in param_val and not param_allow_slash: return None
-      if param_name is not None: params[param_name] = param_val
-    return params
+    match = self._regex.fullmatch(path)
+    if match is None: return None
+    return { param_name: value for (param_name, _), value in zip(self.params, match.groups()) if param_name is not None }
 
 class HTTPRoute:
   def __init__(self, handler: ASGIHandler, path_matcher: PathPattern, methods: Iterable[str]) -> None:
-- 
2.43.0


From 8924e10db152c742ce5360f69a25c40b81337ca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:07 +0000
Subject: [PATCH 033/139] fix: handlers do not share one state object across
 requests

---
 streamtasks/asgiserver.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/streamtasks/asgiserver.py b/streamtasks/asgiserver.py
index f90ced2..949dcea 100644
--- a/streamtasks/asgiserver.py
+++ b/streamtasks/asgiserver.py
@@ -61,10 +61,7 @@ def asgi_type_handler(supported_types: set[str]):
   return decorator
 
 def asgi_scope_set_state(scope: ASGIScope, state: dict[str, Any]):
-  new_scope: ASGIScope = { **scope }
-  if not "state" in new_scope: new_scope["state"] = {}
-  new_scope["state"].update(state)
-  return new_scope
+  return { **scope, "state": { **scope.get("state", {}), **state } }
 
 def asgi_scope_get_next_fn(scope: ASGIScope) -> ASGIHandler:
   if "state" in scope and SN_NEXT_FN in scope["state"] and callable(scope["state"][SN_NEXT_FN]): return scope["state"][SN_NEXT_FN]
-- 
2.43.0


From 542ec859a7ce05abdecf247487b881ff99bced57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:07 +0000
Subject: [PATCH 034/139] fix: a request is answered once, and unmatched paths
 with 404, also behind the error handler

---
 streamtasks/asgi.py       | 27 +++++++++++++--------------
 streamtasks/asgiserver.py | 19 ++++++++++++++++---
 2 files changed, 29 insertions(+), 17 deletions(-)

diff --git a/streamtasks/asgi.py b/streamtasks/asgi.py
index 427d114..a676ef9 100644
--- a/streamtasks/asgi.py
+++ b/streamtasks/asgi.py
@@ -1,4 +1,4 @@
-from streamtasks.asgiserver import HTTPContext, http_context_handler
+from streamtasks.asgiserver import HTTPContext, NoHandlerError, http_context_handler
 from streamtasks.client.receiver import Receiver
 from streamtasks.client.fetch import FetchError, FetchErrorStatusCode, FetchRequest, FetchServer
 from streamtasks.utils import AsyncTaskManager
@@ -262,21 +262,20 @@ async def asgi_app_not_found(_scope, _receive, send):
   await send({"type": "http.response.start", "status": 404})
   await send({"type": "http.response.body", "body": b"404 Not Found"})
 
+def _http_status_from_error(e: BaseException):
+  if isinstance(e, (ValidationError, ValueError)): return 400
+  if isinstance(e, KeyError): return 404
+  if isinstance(e, FetchError):
+    if e.status_code == FetchErrorStatusCode.NOT_FOUND: return 404
+    if e.status_code == FetchErrorStatusCode.BAD_REQUEST: return 400
+  return 500
+
 @http_context_handler
 async def asgi_default_http_error_handler(ctx: HTTPContext):
   try:
     await ctx.next()
-  except (ValidationError, ValueError) as e:
-    logging.debug("ASGI request error (bad request): ", e)
-    await ctx.respond_status(400)
-  except KeyError as e:
-    logging.debug("ASGI request error (not found): ", e)
-    await ctx.respond_status(404)
-  except FetchError as e:
-    logging.debug("ASGI request error (fetch error): ", e)
-    if e.status_code == FetchErrorStatusCode.NOT_FOUND: await ctx.respond_status(404)
-    if e.status_code == FetchErrorStatusCode.BAD_REQUEST: await ctx.respond_status(400)
-    if e.status_code == FetchErrorStatusCode.GENERAL: await ctx.respond_status(500)
+  except NoHandlerError: raise # not an error of a handler
   except BaseException as e:
-    logging.debug("ASGI request error (unknown): ", e)
-    await ctx.respond_status(500)
+    logging.debug(f"ASGI request error: {e!r}")
+    if ctx.response_started: raise # too late to answer with an error
+    await ctx.respond_status(_http_status_from_error(e))
diff --git a/streamtasks/asgiserver.py b/streamtasks/asgiserver.py
index 949dcea..4d75843 100644
--- a/streamtasks/asgiserver.py
+++ b/streamtasks/asgiserver.py
@@ -176,7 +176,7 @@ class WebsocketContext(TransportContext):
   async def _wsend(self, event: dict):
     if event["type"] == "websocket.accept":
       self._accepted = True
-      event = { **event, "headers": event.get("headers", []) + self._add_accept_headers }
+      event = { **event, "headers": [ *event.get("headers", []), *self._add_accept_headers ] }
     await super()._wsend(event)
 
   async def _wreceive(self) -> dict:
@@ -229,6 +229,7 @@ class HTTPContext(TransportContext):
     self._connected: bool = True
     self._more_request_body: bool = True
     self._more_response_body: bool = True
+    self._response_started: bool = False
     self._add_response_headers: list[tuple[ByteString, ByteString]] = []
     self._scope: HTTPScope
 
@@ -239,6 +240,8 @@ class HTTPContext(TransportContext):
   @property
   def more_response_body(self): return self._more_response_body
   @property
+  def response_started(self): return self._response_started
+  @property
   def method(self): return self._scope["method"]
   @functools.cached_property
   def body(self): return HTTPBodyReader(self._wreceive)
@@ -301,7 +304,9 @@ class HTTPContext(TransportContext):
 
   async def _wsend(self, event: dict):
     event_type = event.get("type", None)
-    if event_type == "http.response.start": event = { **event, "headers": event.get("headers", []) + self._add_response_headers }
+    if event_type == "http.response.start":
+      self._response_started = True
+      event = { **event, "headers": [ *event.get("headers", []), *self._add_response_headers ] }
     if event_type == "http.response.body": self._more_response_body = event.get("more_body", False)
     return await super()._wsend(event)
   async def _wreceive(self) -> dict:
@@ -350,12 +355,20 @@ class ASGIHandlerStack:
 
 class ASGIServer(ASGIHandlerStack):
   async def __call__(self, scope: ASGIScope, receive: ASGIFnReceive, send: ASGIFnSend) -> Any:
+    answered = False
+    async def tracked_send(event: dict):
+      nonlocal answered
+      if event.get("type", None) in { "http.response.start", "websocket.close" }: answered = True
+      await send(event)
+
     try:
-      await super().__call__(scope, receive, send)
+      await super().__call__(scope, receive, tracked_send)
     except NoHandlerError:
+      if answered: return
       if scope.get("type", None) == "http": await HTTPContext(scope, receive, send).respond_status(404)
       elif scope.get("type", None) == "websocket": await WebsocketContext(scope, receive, send).close(reason="No handler found.")
     except BaseException:
+      if answered: raise # too late to answer with an error
       if scope.get("type", None) == "http": await HTTPContext(scope, receive, send).respond_status(500)
       elif scope.get("type", None) == "websocket": await WebsocketContext(scope, receive, send).close(code=1011)
 
-- 
2.43.0


From c4ccbe81e75a4ccac71f16a287bfac4c14112014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:42 +0000
Subject: [PATCH 035/139] fix: static files with any name are served, and index
 links do not lead out of the root

---
 streamtasks/asgiserver.py | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/streamtasks/asgiserver.py b/streamtasks/asgiserver.py
index 4d75843..fd610d4 100644
--- a/streamtasks/asgiserver.py
+++ b/streamtasks/asgiserver.py
@@ -264,10 +264,9 @@ class HTTPContext(TransportContext):
     writer.write(content)
     await writer.close()
   async def respond_file(self, path: str | pathlib.Path, status: int = 200, mime_type: str | None = None, buffer_size: int = -1):
-    buffer_size = int(buffer_size)
+    buffer_size = int(buffer_size) or -1
     st = os.stat(path)
-    mime_type = mime_type or mimetypes.guess_type(path)[0]
-    if mime_type is None: raise ValueError("Unknown mime type!")
+    mime_type = mime_type or mimetypes.guess_type(path)[0] or "application/octet-stream"
 
     content_type = mime_type
     writer = await self.respond(status, headers=[
@@ -525,17 +524,23 @@ def static_file_handler(path: str | pathlib.Path, response_buffer_size=1000_000)
   return handler
 
 def static_files_handler(path: str | pathlib.Path, index_files: Iterable[str], response_buffer_size=1000_000):
-  if any(True for p in index_files if "/" in p or "\\" in p): raise ValueError("Index files can not have a slash!")
   index_files = list(index_files)
+  if any(True for p in index_files if "/" in p or "\\" in p): raise ValueError("Index files can not have a slash!")
   directory_path = pathlib.Path(path).resolve(strict=True)
   if not directory_path.is_dir(): return static_file_handler(path, response_buffer_size=response_buffer_size)
 
+  def resolve_path(path: pathlib.Path):
+    try: path = path.resolve()
+    except (OSError, RuntimeError, ValueError): return None # such a path can not exist
+    return path if directory_path == path or directory_path in path.parents else None
+
   @http_context_handler
   async def handler(ctx: HTTPContext):
-    request_path = directory_path.joinpath(ctx.path.lstrip("/\\")).resolve()
-    if directory_path not in request_path.parents and directory_path != request_path: return await ctx.respond_status(404)
-    if request_path.is_dir(): request_path = next((p for p in (request_path.joinpath(idx_file) for idx_file in index_files) if p.exists()), None)
-    if request_path is None or not request_path.exists() or request_path.is_dir(): return await ctx.respond_status(404)
+    request_path = resolve_path(directory_path.joinpath(ctx.path.lstrip("/\\")))
+    if request_path is not None and os.path.isdir(request_path):
+      index_paths = (resolve_path(request_path.joinpath(idx_file)) for idx_file in index_files)
+      request_path = next((p for p in index_paths if p is not None and os.path.isfile(p)), None)
+    if request_path is None or not os.path.isfile(request_path): return await ctx.respond_status(404)
     await ctx.delegate(static_file_handler(request_path, response_buffer_size=response_buffer_size))
 
   return handler
-- 
2.43.0


From c7e48fa172cba5d180643f71cc9250bc33f67a40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:42 +0000
Subject: [PATCH 036/139] fix: empty binary websocket messages are received

---
 streamtasks/asgiserver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/streamtasks/asgiserver.py b/streamtasks/asgiserver.py
index fd610d4..3e3086b 100644
--- a/streamtasks/asgiserver.py
+++ b/streamtasks/asgiserver.py
@@ -162,7 +162,7 @@ class WebsocketContext(TransportContext):
     event = await self._wreceive()
     if event["type"] == "websocket.connect": return "connect", None
     if event["type"] == "websocket.disconnect": return "disconnect", None
-    if event["type"] == "websocket.receive": return "message", event.get("bytes", None) or event.get("text", None)
+    if event["type"] == "websocket.receive": return "message", event.get("text", None) if event.get("bytes", None) is None else event["bytes"]
 
   async def send_message(self, data: str | ByteString):
     event: dict[str, Any] = { "type": "websocket.send", "bytes": None, "text": None }
-- 
2.43.0


From bd2e6c870bf15f7d3157c853f1ad8d143a367660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:42 +0000
Subject: [PATCH 037/139] fix: percent-encoded data uris keep their bytes and
 charset

---
 streamtasks/asgiserver.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/streamtasks/asgiserver.py b/streamtasks/asgiserver.py
index 3e3086b..3242dac 100644
--- a/streamtasks/asgiserver.py
+++ b/streamtasks/asgiserver.py
@@ -10,7 +10,7 @@ import re
 from typing import Any, Awaitable, Callable, Iterable, Literal, NotRequired
 from typing_extensions import TypedDict
 from collections.abc import ByteString
-from urllib.parse import unquote_plus
+from urllib.parse import unquote_to_bytes
 
 
 class ASGIScopeBase(TypedDict):
@@ -552,12 +552,11 @@ def decode_data_uri(data_uri: str, default_mime_types: tuple[str | None, str | N
   is_base64 = 'base64' in metadata_parts
   mime_type = metadata_parts[0] or ((default_mime_types[1] or "application/octet-stream") if is_base64 else (default_mime_types[0] or "text/plain"))
 
-  if is_base64:
-    charset = next((p for p in metadata_parts if p.startswith("charset=")), None)
-    if charset is not None: charset = charset[8:].strip()
-    byte_data = base64.b64decode(encoded_data)
+  charset = next((p for p in metadata_parts if p.startswith("charset=")), None)
+  if charset is not None: charset = charset[8:].strip()
+  if is_base64: byte_data = base64.b64decode(encoded_data)
   else:
-    charset = default_charset
-    byte_data = unquote_plus(encoded_data).encode(default_charset)
+    charset = charset or default_charset
+    byte_data = unquote_to_bytes(encoded_data)
 
   return byte_data, mime_type, charset
-- 
2.43.0


From af34b26cab14e42d923ea3e3ef17e756b199552e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:17 +0000
Subject: [PATCH 038/139] fix: saving entries replaces the file atomically

---
 streamtasks/pydanticdb.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/streamtasks/pydanticdb.py b/streamtasks/pydanticdb.py
index c181107..e3da269 100644
--- a/streamtasks/pydanticdb.py
+++ b/streamtasks/pydanticdb.py
@@ -16,7 +16,13 @@ class PydanticDB(Generic[T]):
   def entries(self): return copy.deepcopy(self._entries)
 
   def save(self):
-    with open(self._filename, "wb") as fd: fd.write(self._list_model.dump_json(self._entries))
+    data = self._list_model.dump_json(self._entries)
+    temp_filename = self._filename + ".tmp"
+    with open(temp_filename, "wb") as fd:
+      fd.write(data)
+      fd.flush()
+      os.fsync(fd.fileno())
+    os.replace(temp_filename, self._filename)
 
   def load(self):
     with open(self._filename, "rb") as fd: self._entries = self._list_model.validate_json(fd.read())
-- 
2.43.0


From 0cddad4644155282d3d372ad9dcee9993792d33f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:17 +0000
Subject: [PATCH 039/139] fix: saved entries keep infinite and nan numbers

---
 streamtasks/pydanticdb.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/streamtasks/pydanticdb.py b/streamtasks/pydanticdb.py
index e3da269..55b7b97 100644
--- a/streamtasks/pydanticdb.py
+++ b/streamtasks/pydanticdb.py
@@ -2,6 +2,7 @@ import copy
 import os
 from typing import Generic, Iterable, TypeVar
 from pydantic import BaseModel, TypeAdapter
+from pydantic_core import to_json
 
 T = TypeVar("T", bound=BaseModel)
 
@@ -16,7 +17,7 @@ class PydanticDB(Generic[T]):
   def entries(self): return copy.deepcopy(self._entries)
 
   def save(self):
-    data = self._list_model.dump_json(self._entries)
+    data = to_json(self._list_model.dump_python(self._entries), inf_nan_mode="constants")
     temp_filename = self._filename + ".tmp"
     with open(temp_filename, "wb") as fd:
       fd.write(data)
-- 
2.43.0


From 5a7e8dac7e2cd4666a7ae3c5f0adf1c529d1e9eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:44 +0000
Subject: [PATCH 040/139] fix: a task of a running deployment can not be moved
 out of it or duplicated

---
 streamtasks/system/task_web.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/streamtasks/system/task_web.py b/streamtasks/system/task_web.py
index 6c7c817..d44f723 100644
--- a/streamtasks/system/task_web.py
+++ b/streamtasks/system/task_web.py
@@ -180,11 +180,9 @@ class TaskWebBackendStore:
     except StopIteration: raise ValueError("Invalid id!")
   async def create_or_update_task(self, task: StoredTask) -> StoredTask:
     if task.deployment_id in self.running_deployments: raise ValueError("Deployment is running!")
-    try:
-      existing_task = await self.get_task(task.id)
-      if existing_task.deployment_id in self.running_deployments: raise ValueError("Deployment is running!")
-      self.tasks.update([t for t in self.tasks.entries if t.id != task.id] + [task])
-    except: self.tasks.update(self.tasks.entries + [task])
+    existing_task = next((t for t in self.tasks.entries if t.id == task.id), None)
+    if existing_task is not None and existing_task.deployment_id in self.running_deployments: raise ValueError("Deployment is running!")
+    self.tasks.update([t for t in self.tasks.entries if t.id != task.id] + [task])
     self.tasks.save()
   async def delete_task(self, id: UUID4):
     task = await self.get_task(id)
-- 
2.43.0


From 7d9da995705ce65d73f0bc145dbf4bb1bea0f981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:44 +0000
Subject: [PATCH 041/139] fix: a started deployment is reported as running

---
 streamtasks/system/task_web.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/streamtasks/system/task_web.py b/streamtasks/system/task_web.py
index d44f723..0995ecf 100644
--- a/streamtasks/system/task_web.py
+++ b/streamtasks/system/task_web.py
@@ -293,6 +293,7 @@ class TaskWebBackend(Worker):
       await asyncio.gather(*(start_task(task_id, task_instance) for (task_id, task_instance) in running_deployment.task_instances.items()))
 
       running_deployment.task_instance_configs = None
+      running_deployment.started = True
       await ctx.respond_json_string((await self.store.get_deployment(deployment_id)).model_dump_json())
 
     @router.post("/api/deployment/{id}/stop")
-- 
2.43.0


From 8b8d93c02fc49e7665e2b745993cd332774285cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:11 +0000
Subject: [PATCH 042/139] fix: scheduling refuses unknown and running
 deployments and leaves nothing behind when it fails; starting twice is
 refused

---
 streamtasks/system/task_web.py | 97 +++++++++++++++++++++-------------
 1 file changed, 60 insertions(+), 37 deletions(-)

diff --git a/streamtasks/system/task_web.py b/streamtasks/system/task_web.py
index 0995ecf..a1f58c6 100644
--- a/streamtasks/system/task_web.py
+++ b/streamtasks/system/task_web.py
@@ -1,12 +1,13 @@
 from abc import abstractmethod
 import asyncio
+from contextlib import asynccontextmanager
 import itertools
 import json
 import logging
 import mimetypes
 import os
 import re
-from typing import Any, Literal
+from typing import Any, Coroutine, Iterable, Literal
 from typing_extensions import TypedDict
 from uuid import UUID, uuid4
 from pydantic import UUID4, BaseModel, Field, TypeAdapter, field_serializer, field_validator
@@ -38,7 +39,7 @@ class FullDeployment(DeploymentBase):
 
 class RunningDeployment(ModelWithId):
   started: bool = False
-  topic_space_id: int
+  topic_space_id: int | None
   task_instances: dict[UUID4, TaskInstance]
   task_instance_configs: dict[UUID4, Any] | None
 
@@ -106,6 +107,11 @@ FullDeploymentList = TypeAdapter(list[FullDeployment])
 FullTaskList = TypeAdapter(list[FullTask])
 DeploymentDashboardList = TypeAdapter(list[DeploymentDashboard])
 
+async def gather_all(coros: Iterable[Coroutine]):
+  """Like asyncio.gather, but an exception is raised only after all are done."""
+  for result in await asyncio.gather(*coros, return_exceptions=True):
+    if isinstance(result, BaseException): raise result
+
 class TaskWebPathHandler(Worker):
   def __init__(self, path: str, frontend: PathRegistrationFrontend | None = None, register_endpoits: list[EndpointOrAddress] = [NetworkAddressNames.TASK_MANAGER_WEB]):
     super().__init__()
@@ -206,6 +212,7 @@ class TaskWebBackend(Worker):
     self.task_host_asgi_handlers: dict[str, ASGIHandler] = {}
     self.task_asgi_handlers: dict[UUID4, ASGIHandler] = {}
     self.deployment_task_listeners: dict[UUID4, asyncio.Task] = {}
+    self.deployment_locks: dict[UUID4, asyncio.Lock] = {}
     self.path_registrations: list[PathRegistration] = []
     self.store = TaskWebBackendStore()
     self.client: Client
@@ -266,53 +273,53 @@ class TaskWebBackend(Worker):
     @http_context_handler
     async def _(ctx: HTTPContext):
       deployment_id = UUID(ctx.params.get("id", ""))
-      tasks = await self.store.all_tasks_in_deployment(deployment_id)
-      topic_ids = set(itertools.chain.from_iterable((int(output["topic_id"]) for output in task.outputs) for task in tasks))
-      topic_space_id, _ = await register_topic_space(self.client, topic_ids)
-      running_deployment = RunningDeployment(id=deployment_id, topic_space_id=topic_space_id, task_instances={}, task_instance_configs={})
-      self.store.set_running_deployment(running_deployment)
-
-      async def schedule_task(task: FullTask):
-        task_instance = await self.tm_client.schedule_task(task.task_host_id, topic_space_id)
-        running_deployment.task_instances[task.id] = task_instance
-        running_deployment.task_instance_configs[task_instance.id] = task.config
-      await asyncio.gather(*(schedule_task(task) for task in tasks))
-
-      self.deployment_task_listeners[deployment_id] = asyncio.create_task(self.run_deployment_task_listener(running_deployment))
-      await ctx.respond_json_string((await self.store.get_deployment(deployment_id)).model_dump_json())
+      async with self.deployment_lock(deployment_id):
+        await self.store.get_deployment(deployment_id) # must exist
+        if deployment_id in self.store.running_deployments: raise ValueError("Deployment is running!")
+        tasks = await self.store.all_tasks_in_deployment(deployment_id)
+        topic_ids = set(itertools.chain.from_iterable((int(output["topic_id"]) for output in task.outputs) for task in tasks))
+        running_deployment = RunningDeployment(id=deployment_id, topic_space_id=None, task_instances={}, task_instance_configs={})
+        self.store.set_running_deployment(running_deployment) # from here on the tasks can not change
+
+        async def schedule_task(task: FullTask):
+          task_instance = await self.tm_client.schedule_task(task.task_host_id, running_deployment.topic_space_id)
+          running_deployment.task_instances[task.id] = task_instance
+          running_deployment.task_instance_configs[task_instance.id] = task.config
+
+        try:
+          running_deployment.topic_space_id, _ = await register_topic_space(self.client, topic_ids)
+          await gather_all(schedule_task(task) for task in tasks)
+        except BaseException:
+          await self.stop_deployment(running_deployment)
+          raise
+
+        self.deployment_task_listeners[deployment_id] = asyncio.create_task(self.run_deployment_task_listener(running_deployment))
+        await ctx.respond_json_string((await self.store.get_deployment(deployment_id)).model_dump_json())
 
     @router.post("/api/deployment/{id}/start")
     @http_context_handler
     async def _(ctx: HTTPContext):
       deployment_id = UUID(ctx.params.get("id", ""))
-      running_deployment = self.store.get_running_deployment(deployment_id)
+      async with self.deployment_lock(deployment_id):
+        running_deployment = self.store.get_running_deployment(deployment_id)
+        if running_deployment.started: raise ValueError("Deployment is already started!")
 
-      async def start_task(task_id: UUID, task_instance: TaskInstance):
-        new_task_instance = await self.tm_client.start_task(task_instance.id, running_deployment.task_instance_configs.get(task_instance.id, None))
-        running_deployment.task_instances[task_id] = new_task_instance
-      await asyncio.gather(*(start_task(task_id, task_instance) for (task_id, task_instance) in running_deployment.task_instances.items()))
+        async def start_task(task_id: UUID, task_instance: TaskInstance):
+          new_task_instance = await self.tm_client.start_task(task_instance.id, running_deployment.task_instance_configs.get(task_instance.id, None))
+          if running_deployment.task_instances[task_id].status.is_active: running_deployment.task_instances[task_id] = new_task_instance # may already be reported as done
+        await gather_all(start_task(task_id, task_instance) for (task_id, task_instance) in running_deployment.task_instances.items())
 
-      running_deployment.task_instance_configs = None
-      running_deployment.started = True
-      await ctx.respond_json_string((await self.store.get_deployment(deployment_id)).model_dump_json())
+        running_deployment.task_instance_configs = None
+        running_deployment.started = True
+        await ctx.respond_json_string((await self.store.get_deployment(deployment_id)).model_dump_json())
 
     @router.post("/api/deployment/{id}/stop")
     @http_context_handler
     async def _(ctx: HTTPContext):
       deployment_id = UUID(ctx.params.get("id", ""))
-      running_deployment = self.store.get_running_deployment(deployment_id)
-
-      async def stop_task(task_instance: TaskInstance):
-        try: await self.tm_client.cancel_task_wait(task_instance.id)
-        except TaskNotFoundError: pass
-      await asyncio.gather(*(stop_task(task_instance) for task_instance in running_deployment.task_instances.values()))
-
-      await delete_topic_space(self.client, running_deployment.topic_space_id)
-
-      if (listener_task := self.deployment_task_listeners.pop(deployment_id, None)) is not None: listener_task.cancel()
-      self.store.delete_running_deployment(deployment_id)
-
-      await ctx.respond_json_string((await self.store.get_deployment(deployment_id)).model_dump_json())
+      async with self.deployment_lock(deployment_id):
+        await self.stop_deployment(self.store.get_running_deployment(deployment_id))
+        await ctx.respond_json_string((await self.store.get_deployment(deployment_id)).model_dump_json())
 
     @router.get("/api/deployment/{id}")
     @http_context_handler
@@ -473,6 +480,22 @@ class TaskWebBackend(Worker):
 
     await ASGIAppRunner(self.client, app).run()
 
+  @asynccontextmanager
+  async def deployment_lock(self, deployment_id: UUID4):
+    lock = self.deployment_locks.setdefault(deployment_id, asyncio.Lock())
+    async with lock: yield
+
+  async def stop_deployment(self, running_deployment: RunningDeployment):
+    async def stop_task(task_instance: TaskInstance):
+      try: await self.tm_client.cancel_task_wait(task_instance.id)
+      except TaskNotFoundError: pass
+    await gather_all(stop_task(task_instance) for task_instance in running_deployment.task_instances.values())
+
+    if running_deployment.topic_space_id is not None: await delete_topic_space(self.client, running_deployment.topic_space_id)
+
+    if (listener_task := self.deployment_task_listeners.pop(running_deployment.id, None)) is not None: listener_task.cancel()
+    self.store.delete_running_deployment(running_deployment.id)
+
   async def run_deployment_task_listener(self, deployment: RunningDeployment):
     async for task_id, task_instance in self.receive_deployment_task_instance_updates(deployment):
       deployment.task_instances[task_id] = task_instance
-- 
2.43.0


From aedeb672ec930bb958fbd7c3fd34c000f0fb12a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:23 +0000
Subject: [PATCH 043/139] fix: the secret manager has its own address name

---
 streamtasks/services/constants.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/streamtasks/services/constants.py b/streamtasks/services/constants.py
index 8cec79a..085fdb8 100644
--- a/streamtasks/services/constants.py
+++ b/streamtasks/services/constants.py
@@ -19,4 +19,4 @@ class NetworkAddressNames:
   TASK_MANAGER = "task_manager"
   TASK_MANAGER_WEB = "task_manager_web"
   NAMED_TOPIC_MANAGER = "named_topic_manager"
-  SECRET_MANAGER = "named_topic_manager"
+  SECRET_MANAGER = "secret_manager"
-- 
2.43.0


From 398547e75b559060417371c95b6e6ba1d27ae1b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:23 +0000
Subject: [PATCH 044/139] fix: secrets can be sent over the network

---
 streamtasks/system/secret_manager.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/streamtasks/system/secret_manager.py b/streamtasks/system/secret_manager.py
index b670b4c..bd811e0 100644
--- a/streamtasks/system/secret_manager.py
+++ b/streamtasks/system/secret_manager.py
@@ -1,7 +1,7 @@
 import asyncio
 import os
 from uuid import UUID
-from pydantic import UUID4, BaseModel, TypeAdapter
+from pydantic import UUID4, TypeAdapter
 from streamtasks.asgi import ASGIAppRunner, asgi_default_http_error_handler
 from streamtasks.asgiserver import ASGIRouter, ASGIServer, HTTPContext, http_context_handler
 from streamtasks.client import Client
@@ -11,14 +11,13 @@ from streamtasks.env import get_data_sub_dir
 from streamtasks.net import EndpointOrAddress
 from streamtasks.pydanticdb import PydanticDB
 from streamtasks.services.constants import NetworkAddressNames
+from streamtasks.system.task import ModelWithId
 from streamtasks.system.task_web import TaskWebPathHandler
 
-class SecretModel(BaseModel):
-  id: UUID4
+class SecretModel(ModelWithId):
   value: str
 
-class SecretRequestModel(BaseModel):
-  id: UUID4
+class SecretRequestModel(ModelWithId): pass
 
 SecretModelListModel = TypeAdapter(list[SecretModel])
 
-- 
2.43.0


From c46497e1fd7ee8f010a87f8dd40ea3eaa9a2c5ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:23 +0000
Subject: [PATCH 045/139] fix: a missing secret is reported as not found

---
 streamtasks/system/secret_manager.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/streamtasks/system/secret_manager.py b/streamtasks/system/secret_manager.py
index bd811e0..85743ce 100644
--- a/streamtasks/system/secret_manager.py
+++ b/streamtasks/system/secret_manager.py
@@ -38,7 +38,7 @@ class SecretManager(TaskWebPathHandler):
       try:
         data = SecretRequestModel.model_validate(req.body)
         await req.respond(next(e for e in self.db.entries if e.id == data.id).model_dump())
-      except KeyError: await req.respond_error(new_fetch_body_not_found("secret not found!"))
+      except StopIteration: await req.respond_error(new_fetch_body_not_found("secret not found!"))
 
     @server.route("put_secret")
     async def _(req: FetchRequest):
-- 
2.43.0


From fdbf6a1451f71290eeb1e2479ce0f89b721b1813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:23 +0000
Subject: [PATCH 046/139] fix: named topics created by resolving them are saved

---
 streamtasks/system/named_topic_manager.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/streamtasks/system/named_topic_manager.py b/streamtasks/system/named_topic_manager.py
index b3814b1..200efaf 100644
--- a/streamtasks/system/named_topic_manager.py
+++ b/streamtasks/system/named_topic_manager.py
@@ -65,7 +65,9 @@ class NamedTopicManager(TaskWebPathHandler):
     @server.route("resolve_named_topic")
     async def _(req: FetchRequest):
       data = NamedTopicRequestModel.model_validate(req.body)
-      if next((1 for e in self.db.entries if e.name == data.name), None) is None: self.db.update(self.db.entries + [ NamedTopicModel(name=data.name, metadata={}) ])
+      if next((1 for e in self.db.entries if e.name == data.name), None) is None:
+        self.db.update(self.db.entries + [ NamedTopicModel(name=data.name, metadata={}) ])
+        self.db.save()
       if data.name not in self.topic_map: self.topic_map[data.name] = (await self.client.request_topic_ids(1))[0]
       await req.respond(NamedTopicResolvedResponseModel(topic=self.topic_map[data.name]).model_dump())
 
-- 
2.43.0


From 4b4dd801ef241e88827a50a8b8084810d8cff5c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:23 +0000
Subject: [PATCH 047/139] fix: named topics with slashes or percent signs in
 their name can be reached over http

---
 streamtasks/system/named_topic_manager.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/streamtasks/system/named_topic_manager.py b/streamtasks/system/named_topic_manager.py
index 200efaf..90992d0 100644
--- a/streamtasks/system/named_topic_manager.py
+++ b/streamtasks/system/named_topic_manager.py
@@ -1,6 +1,5 @@
 import asyncio
 import os
-from urllib.parse import unquote
 from pydantic import BaseModel, TypeAdapter
 from streamtasks.asgi import ASGIAppRunner, asgi_default_http_error_handler
 from streamtasks.asgiserver import ASGIRouter, ASGIServer, HTTPContext, http_context_handler
@@ -97,18 +96,18 @@ class NamedTopicManager(TaskWebPathHandler):
       self.db.save()
       await ctx.respond_json(data.model_dump())
 
-    @router.get("/api/named-topic/{name}")
+    @router.get("/api/named-topic/{name*}")
     @http_context_handler
     async def _(ctx: HTTPContext):
       try:
-        name = unquote(ctx.params["name"])
+        name = ctx.params["name"]
         await ctx.respond_json(next(e for e in self.db.entries if e.name == name).model_dump())
       except StopIteration: await ctx.respond_status(404)
 
-    @router.delete("/api/named-topic/{name}")
+    @router.delete("/api/named-topic/{name*}")
     @http_context_handler
     async def _(ctx: HTTPContext):
-      name = unquote(ctx.params["name"])
+      name = ctx.params["name"]
       self.db.update(e for e in self.db.entries if e.name != name)
       self.db.save()
       await ctx.respond_status(200)
-- 
2.43.0


From 7fc3bf1f05e37b000b944677fa302410eddc29c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:26 +0000
Subject: [PATCH 048/139] fix: registering a path again replaces the earlier
 registration

---
 streamtasks/system/task_web.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/streamtasks/system/task_web.py b/streamtasks/system/task_web.py
index a1f58c6..48c95e5 100644
--- a/streamtasks/system/task_web.py
+++ b/streamtasks/system/task_web.py
@@ -235,7 +235,7 @@ class TaskWebBackend(Worker):
     @server.route(TaskConstants.FD_TMW_REGISTER_PATH)
     async def _(req: FetchRequest):
       body = PathRegistration.model_validate(req.body)
-      self.path_registrations.append(body)
+      self.path_registrations = [ reg for reg in self.path_registrations if reg.id != body.id ] + [body]
       await req.respond(None)
 
     await server.run()
-- 
2.43.0


From 050c0a7ec6a4768bc55bc797b63bf99c32144580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:34 +0000
Subject: [PATCH 049/139] fix: path registrations can be removed by their id

---
 streamtasks/system/task_web.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/streamtasks/system/task_web.py b/streamtasks/system/task_web.py
index 48c95e5..3a119a4 100644
--- a/streamtasks/system/task_web.py
+++ b/streamtasks/system/task_web.py
@@ -245,7 +245,7 @@ class TaskWebBackend(Worker):
 
     @server.route(TaskConstants.SD_TMW_UNREGISTER_PATH)
     async def _(message_data: Any):
-      data = ModelWithId.model_validate(message_data)
+      data = ModelWithStrId.model_validate(message_data)
       self.path_registrations = [ reg for reg in self.path_registrations if reg.id != data.id]
 
     await server.run()
-- 
2.43.0


From 09a064e2b41dd125f1f3caed90d0856a867d3fbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:22:27 +0000
Subject: [PATCH 050/139] fix: consumers get all messages before the end of
 stream, also when a get is cancelled

---
 streamtasks/utils.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/streamtasks/utils.py b/streamtasks/utils.py
index c94db34..905e008 100644
--- a/streamtasks/utils.py
+++ b/streamtasks/utils.py
@@ -191,13 +191,15 @@ class AsyncProducer(Generic[T0]):
         if self._task is not None: await self.wait_done()
         self._task = asyncio.create_task(self._run())
 
-  async def __aexit__(self, *_):
+  async def __aexit__(self, *_): await asyncio.shield(self._exit())
+  async def _exit(self):
     async with self._enter_lock:
       self._entered_count = max(self._entered_count - 1, 0)
       if self._entered_count == 0:
         if self._task is not None:
           self._stop()
           try: await self.wait_done()
+          except EOFError: pass # the consumers have been closed
           finally:  self._task = None
 
   def _stop(self): self._task.cancel()
@@ -258,19 +260,17 @@ class AsyncConsumer(Generic[T1]):
   def unregister(self): self._producer._consumers.remove(self)
 
   async def get(self):
-    if len(self._queue) != 0: return self._queue.popleft()
-    if self._closed: raise EOFError()
-    _fut = self._trigger.wait()
-    async with self._producer:
-      while len(self._queue) == 0 and not self._closed:
-        await _fut
-        _fut = self._trigger.wait()
-      # TODO we need to do this in here to prevent double deques
+    while len(self._queue) == 0:
       if self._closed: raise EOFError()
-      return self._queue.popleft()
+      _fut = self._trigger.wait()
+      async with self._producer:
+        while len(self._queue) == 0 and not self._closed:
+          await _fut
+          _fut = self._trigger.wait()
+    return self._queue.popleft()
 
   def put(self, e: T1):
-    if self.test_message(e):
+    if not self._closed and self.test_message(e):
       self._queue.append(e)
       self._trigger.trigger()
 
-- 
2.43.0


From d186d0e015f64cf64bd2bd227ce29cca37bc5ce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:22:27 +0000
Subject: [PATCH 051/139] fix: producers that have not been started can be
 closed

---
 streamtasks/utils.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/streamtasks/utils.py b/streamtasks/utils.py
index 905e008..9090ecf 100644
--- a/streamtasks/utils.py
+++ b/streamtasks/utils.py
@@ -178,8 +178,8 @@ class AsyncProducer(Generic[T0]):
 
   async def close(self):
     self._on_ended()
-    self._stop()
     if self._task is not None:
+      self._stop()
       try: await self.wait_done()
       except EOFError: pass
 
@@ -224,7 +224,7 @@ class AsyncMPProducer(AsyncProducer[T0]):
   def __init__(self) -> None:
     super().__init__()
     self.stop_event = threading.Event()
-    self._loop: asyncio.BaseEventLoop
+    self._loop: asyncio.BaseEventLoop | None = None
     self._lock = asyncio.Lock()
 
   async def run(self):
@@ -234,7 +234,9 @@ class AsyncMPProducer(AsyncProducer[T0]):
   @abstractmethod
   def run_sync(self): pass
   def send_message(self, message: Any): self._loop.call_soon_threadsafe(super().send_message, message)
-  def close_consumers(self): self._loop.call_soon_threadsafe(super().close_consumers)
+  def close_consumers(self):
+    if self._loop is None: super().close_consumers()
+    else: self._loop.call_soon_threadsafe(super().close_consumers)
   async def wait_done(self):
     try: await super().wait_done()
     finally:
-- 
2.43.0


From 3ebc48b1cbcf23f9d59b34f3e294317d270c12b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:26 +0000
Subject: [PATCH 052/139] fix: raw data buffers can be cleared with every dbm
 backend

---
 streamtasks/rawdatabuffer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/streamtasks/rawdatabuffer.py b/streamtasks/rawdatabuffer.py
index de5fc8f..fc7132e 100644
--- a/streamtasks/rawdatabuffer.py
+++ b/streamtasks/rawdatabuffer.py
@@ -15,7 +15,7 @@ class RawDataBuffer:
     os.remove(self._db_file)
 
   def clear(self):
-    self._db.clear()
+    for key in self._index_map: del self._db[key]
     self._index_map.clear()
 
   def append(self, data: RawData):
-- 
2.43.0


From 02d684b4669a62e8997301d77fc6e64b015d72a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:26 +0000
Subject: [PATCH 053/139] fix: raw data buffers remove their files

---
 streamtasks/rawdatabuffer.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/streamtasks/rawdatabuffer.py b/streamtasks/rawdatabuffer.py
index fc7132e..62b081c 100644
--- a/streamtasks/rawdatabuffer.py
+++ b/streamtasks/rawdatabuffer.py
@@ -6,13 +6,13 @@ from streamtasks.net.serialization import RawData
 class RawDataBuffer:
   def __init__(self) -> None:
     self._key_counter: int = 0
-    self._db_file = tempfile.mktemp(".db")
-    self._db = dbm.open(self._db_file, "c")
+    self._db_dir = tempfile.TemporaryDirectory() # NOTE: the backends choose the names and number of their files
+    self._db = dbm.open(os.path.join(self._db_dir.name, "data"), "c")
     self._index_map: list[str] = []
 
   def __del__(self):
     self._db.close()
-    os.remove(self._db_file)
+    self._db_dir.cleanup()
 
   def clear(self):
     for key in self._index_map: del self._db[key]
-- 
2.43.0


From e71453a4bc1e209fc7447d3a84eeea6b52993852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:50 +0000
Subject: [PATCH 054/139] fix: forced removal of ids reports the removed ids
 and wakes those waiting for them

---
 streamtasks/utils.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/streamtasks/utils.py b/streamtasks/utils.py
index 9090ecf..ee285f0 100644
--- a/streamtasks/utils.py
+++ b/streamtasks/utils.py
@@ -50,9 +50,7 @@ class IdTracker:
       self._map[id] = val + 1
     return final
   def remove_many(self, ids: Iterable[int], force: bool = False):
-    if force:
-      for id in ids: self._map.pop(id, None)
-      return ids
+    if force: return set(id for id in ids if self._map.pop(id, None) is not None)
     else:
       final = set()
       for id in ids:
@@ -80,8 +78,8 @@ class AwaitableIdTracker(IdTracker):
       if event is not None: event.set()
     return added
 
-  def remove_many(self, ids: Iterable[int]):
-    removed = super().remove_many(ids)
+  def remove_many(self, ids: Iterable[int], force: bool = False):
+    removed = super().remove_many(ids, force)
     for id in removed:
       event = self._waiting_ids_removed.pop(id, None)
       if event is not None: event.set()
-- 
2.43.0


From 80d5e792f9c784be3ecf0fe9af1cf1cae48dbb3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:50 +0000
Subject: [PATCH 055/139] fix: waiting for no background tasks returns

---
 streamtasks/utils.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/streamtasks/utils.py b/streamtasks/utils.py
index ee285f0..af4479e 100644
--- a/streamtasks/utils.py
+++ b/streamtasks/utils.py
@@ -32,6 +32,7 @@ class AsyncTaskManager:
       self._tasks = [ (priority, task) for priority, task in self._tasks if not task.done() ]
     self._frozen = self._default_frozen
   async def wait(self, timeout: float | None = None, return_when: str = "ALL_COMPLETED"):
+    if len(self._tasks) == 0: return
     try: await asyncio.shield(asyncio.wait([task for _, task in self._tasks ], timeout=timeout, return_when=return_when))
     except asyncio.CancelledError: await self.cancel_all()
   def _on_task_done(self, t: asyncio.Task):
-- 
2.43.0


From 19fb94d206908a4dd0375304209fe05432416de5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:50 +0000
Subject: [PATCH 056/139] fix: a wait that ends with its dependencies is
 cancelled instead of failing, and does not outlive its caller

---
 streamtasks/utils.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/streamtasks/utils.py b/streamtasks/utils.py
index af4479e..8ca6575 100644
--- a/streamtasks/utils.py
+++ b/streamtasks/utils.py
@@ -285,9 +285,10 @@ RT = TypeVar('RT')
 
 async def wait_with_dependencies(main: Awaitable[RT], deps: Iterable[asyncio.Future]):
   main = asyncio.Task(main) if asyncio.iscoroutine(main) else main
-  await asyncio.wait([main, *deps], return_when="FIRST_COMPLETED")
-  if not main.done(): main.cancel()
-  return main.result()
+  try: await asyncio.wait([main, *deps], return_when="FIRST_COMPLETED")
+  finally:
+    if not main.done(): main.cancel()
+  return await main
 
 def get_timestamp_ms(): return time.time_ns() // 1000_000
 
-- 
2.43.0


From 9171c97978b86fb949ab42eef1ee5d7dbbaab181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:18 +0000
Subject: [PATCH 057/139] fix: values convert to json faithfully and without
 errors

---
 streamtasks/utils.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/streamtasks/utils.py b/streamtasks/utils.py
index 8ca6575..372b8ce 100644
--- a/streamtasks/utils.py
+++ b/streamtasks/utils.py
@@ -331,13 +331,20 @@ def make_json_serializable(v: Any):
   if isinstance(v, (str, int, bool)) or v is None: return v
   if isinstance(v, float):
     if math.isnan(v): return "NaN"
+    elif math.isinf(v): return "Infinity" if v > 0 else "-Infinity"
     else: return v
   if isinstance(v, (bytes, bytearray, memoryview)): return v.hex()
-  try: v = dict(v)
-  except (TypeError, ValueError): v = list(v)
-  except: pass
-  if isinstance(v, dict): return { make_json_serializable(k): make_json_serializable(v) for k, v in v.items() }
-  if isinstance(v, list): return [ make_json_serializable(v) for v in v ]
+  if not isinstance(v, (dict, list, tuple, set, frozenset)):
+    try: v = dict(v)
+    except (TypeError, ValueError):
+      try: v = list(v)
+      except TypeError: pass
+  if isinstance(v, dict): return { make_json_key(k): make_json_serializable(v) for k, v in v.items() }
+  if isinstance(v, (list, tuple, set, frozenset)): return [ make_json_serializable(v) for v in v ]
   return repr(v)
 
+def make_json_key(k: Any):
+  k = make_json_serializable(k)
+  return repr(k) if isinstance(k, (dict, list)) else k
+
 def hertz_to_fintervall(f: int | float): return Fraction(1, int(f)) if int(f) == f else Fraction(1 / f)
-- 
2.43.0


From 242427cdfd8cefc55d248b7b81a1cdc9dfa1a1d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:06 +0000
Subject: [PATCH 058/139] fix: calculator formulas are parsed by operator
 precedence, logical operators work

---
 streamtasks/system/tasks/calculator.py | 42 ++++++++++++++------------
 1 file changed, 23 insertions(+), 19 deletions(-)

diff --git a/streamtasks/system/tasks/calculator.py b/streamtasks/system/tasks/calculator.py
index f2157a7..ddd9e91 100644
--- a/streamtasks/system/tasks/calculator.py
+++ b/streamtasks/system/tasks/calculator.py
@@ -17,32 +17,36 @@ import re
 CalculatorGrammar = Lark(r"""
 start: expr
 
-?expr: inline_if
+?expr: or_op
+    | or_op "?" expr ":" expr -> inline_if
 
-?inline_if: comparsion
-    | expr "?" expr ":" expr -> inline_if
+?or_op: xor_op
+    | or_op "|" xor_op -> or_
 
-?comparsion: binary_op
-    | expr ">" expr -> gt
-    | expr "<" expr -> lt
-    | expr ">=" expr -> ge
-    | expr "<=" expr -> le
-    | expr "==" expr -> eq
-    | expr "!=" expr -> ne
+?xor_op: and_op
+    | xor_op "^" and_op -> xor
 
-?binary_op: sum
-    | binary_op "&" expr -> and
-    | binary_op "|" expr -> or
-    | binary_op "^" expr -> xor
+?and_op: equality
+    | and_op "&" equality -> and_
+
+?equality: comparsion
+    | equality "==" comparsion -> eq
+    | equality "!=" comparsion -> ne
+
+?comparsion: sum
+    | comparsion ">" sum -> gt
+    | comparsion "<" sum -> lt
+    | comparsion ">=" sum -> ge
+    | comparsion "<=" sum -> le
 
 ?sum: product
     | sum "+" product -> add
     | sum "-" product -> sub
 
 ?product: exp
-    | product "*" atom -> mul
-    | product "/" atom -> div
-    | product "%" atom -> mod
+    | product "*" exp -> mul
+    | product "/" exp -> div
+    | product "%" exp -> mod
 
 ?exp: atom
     | exp "**" atom -> pow
@@ -51,7 +55,7 @@ start: expr
     | NAME -> variable
     | "-" atom -> neg
     | "+" atom -> pos
-    | "!" atom -> not
+    | "!" atom -> not_
     | "(" expr ")" -> group
     | NAME "(" [expr ("," expr)*]  ")" -> func
 
@@ -124,7 +128,7 @@ class CalculatorEvalTransformer(Transformer):
   def pow(self, args): return args[0] ** args[1]
   def and_(self, args): return 1.0 if args[0] > 0.5 and args[1] > 0.5 else 0.0
   def or_(self, args): return 1.0 if args[0] > 0.5 or args[1] > 0.5 else 0.0
-  def xor(self, args): return 1.0 if args[0] > 0.5 != args[1] > 0.5 else 0.0
+  def xor(self, args): return 1.0 if (args[0] > 0.5) != (args[1] > 0.5) else 0.0
   def gt(self, args): return 1.0 if args[0] > args[1] else 0.0
   def lt(self, args): return 1.0 if args[0] < args[1] else 0.0
   def ge(self, args): return 1.0 if args[0] >= args[1] else 0.0
-- 
2.43.0


From 2b7307db29c1cc390b4ae033fb0ffe219399f1ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:06 +0000
Subject: [PATCH 059/139] fix: values for which a formula cannot be computed do
 not end the calculator

---
 streamtasks/system/tasks/calculator.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/streamtasks/system/tasks/calculator.py b/streamtasks/system/tasks/calculator.py
index ddd9e91..e532b9e 100644
--- a/streamtasks/system/tasks/calculator.py
+++ b/streamtasks/system/tasks/calculator.py
@@ -12,6 +12,7 @@ from pydantic import BaseModel, ValidationError, model_validator
 from typing import Any
 import math
 from lark import Lark, ParseTree, Transformer
+from lark.exceptions import VisitError
 import re
 
 CalculatorGrammar = Lark(r"""
@@ -237,7 +238,7 @@ class CalculatorTask(Task):
           message = NumberMessage.model_validate(data.data)
           self.var_values[var_name] = message.value
           await self.send_value(message.timestamp)
-        except ValidationError: pass
+        except (ValidationError, VisitError): pass # NOTE: the formula may not be computable for all values
 
   async def send_value(self, timestamp: int):
     result: float = CalculatorEvalTransformer(CalculatorEvalContext(self.var_values)).transform(self.formula_ast)
-- 
2.43.0


From fecb301f62dd476ea71056dee4d904026752317c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:36 +0000
Subject: [PATCH 060/139] fix: timestamps that no message can carry are invalid
 instead of ending the task

---
 streamtasks/message/types.py | 12 ++++++++----
 streamtasks/message/utils.py |  4 ++--
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/streamtasks/message/types.py b/streamtasks/message/types.py
index 981e9b7..2443eea 100644
--- a/streamtasks/message/types.py
+++ b/streamtasks/message/types.py
@@ -1,7 +1,11 @@
-from pydantic import BaseModel
+from typing import Annotated
+from pydantic import BaseModel, Field
+
+# NOTE: a message can only carry 64 bit integers
+Timestamp = Annotated[int, Field(ge=-2**63, lt=2**64)]
 
 class TimestampMessage(BaseModel):
-  timestamp: int
+  timestamp: Timestamp
 
 class IdMessage(BaseModel):
   id: str
@@ -13,9 +17,9 @@ class IdChuckMessage(IdMessage):
   data: bytes
 
 class NumberMessage(TimestampMessage):
-  timestamp: int
+  timestamp: Timestamp
   value: float
 
 class TextMessage(TimestampMessage):
-  timestamp: int
+  timestamp: Timestamp
   value: str
diff --git a/streamtasks/message/utils.py b/streamtasks/message/utils.py
index b2e999c..61db627 100644
--- a/streamtasks/message/utils.py
+++ b/streamtasks/message/utils.py
@@ -7,8 +7,8 @@ def get_timestamp_from_message(data: RawData) -> int:
   if isinstance(content, dict) and "timestamp" in content: timestamp = content["timestamp"]
   elif hasattr(content, "timestamp") and isinstance(content.timestamp, int): timestamp = content.timestamp
   else: raise ValueError(f"could not get timestamp from message: {data}")
-  if isinstance(timestamp, int): return timestamp
-  if isinstance(timestamp, float) and math.isfinite(timestamp): return int(timestamp)
+  if isinstance(timestamp, float) and math.isfinite(timestamp): timestamp = int(timestamp)
+  if isinstance(timestamp, int) and -2**63 <= timestamp < 2**64: return timestamp # NOTE: a message can only carry 64 bit integers
   raise ValueError(f"could not get timestamp from message: {data}")
 
 def set_timestamp_on_message(data: RawData, timestamp: int):
-- 
2.43.0


From 550f7be1abe72187ab9232a376321f383c80ec88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:36 +0000
Subject: [PATCH 061/139] fix: gate and message detector do not miss a change
 that happens while sending

---
 streamtasks/system/tasks/gate.py            | 3 ++-
 streamtasks/system/tasks/messagedetector.py | 4 +++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/streamtasks/system/tasks/gate.py b/streamtasks/system/tasks/gate.py
index b58289e..fa72146 100644
--- a/streamtasks/system/tasks/gate.py
+++ b/streamtasks/system/tasks/gate.py
@@ -82,7 +82,8 @@ class GateTask(Task):
   async def run_out_pauser(self):
     while True:
       await self.out_topic.set_paused(self.state.get_output_paused(self.fail_mode))
-      await self.state.wait_change()
+      # NOTE: the state may have changed while sending
+      if self.state.get_output_paused(self.fail_mode) == self.out_topic.is_paused: await self.state.wait_change()
   async def run_in_recv(self):
     while True:
       data = await self.in_topic.recv_data_control()
diff --git a/streamtasks/system/tasks/messagedetector.py b/streamtasks/system/tasks/messagedetector.py
index 7e2c499..b757b74 100644
--- a/streamtasks/system/tasks/messagedetector.py
+++ b/streamtasks/system/tasks/messagedetector.py
@@ -83,7 +83,9 @@ class MessageDetectorTask(Task):
 
   async def run_updater(self):
     while True:
-      await self.signal_topic.send(RawData(NumberMessage(timestamp=self.time_sync.time, value=float(self.state.signal)).model_dump()))
+      signal = self.state.signal
+      await self.signal_topic.send(RawData(NumberMessage(timestamp=self.time_sync.time, value=float(signal)).model_dump()))
+      if signal != self.state.signal: continue # NOTE: the state may have changed while sending
       try: await asyncio.wait_for(self.state.wait_change(), timeout=self.config.repeat_interval or None)
       except asyncio.TimeoutError: pass
 
-- 
2.43.0


From 4de91d5d03e593c829a3deadc0582db6ad10d8a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:36 +0000
Subject: [PATCH 062/139] fix: the string matcher finds a text in any line

---
 streamtasks/system/tasks/stringmatcher.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/streamtasks/system/tasks/stringmatcher.py b/streamtasks/system/tasks/stringmatcher.py
index b7b06a6..81b846d 100644
--- a/streamtasks/system/tasks/stringmatcher.py
+++ b/streamtasks/system/tasks/stringmatcher.py
@@ -25,7 +25,7 @@ class StringMatcherTask(Task):
     self.in_topic = self.client.in_topic(config.in_topic)
 
     pattern = config.pattern
-    if not config.is_regex: pattern = "^.*(" + re.escape(pattern) + ").*$"
+    if not config.is_regex: pattern = "(?s:.*)" + re.escape(pattern)
 
     flags = reduce(lambda pv, cv: pv | cv, [ re.RegexFlag._member_map_[f].value for f in config.flags.upper() if f in re.RegexFlag._member_map_ ], 0)
     self.regex = re.compile(pattern, flags)
-- 
2.43.0


From 9bb2adde2be86560cb36480f80b80c57b8c1edce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:03 +0000
Subject: [PATCH 063/139] fix: a template that does not fit the values does not
 end the text formatter

---
 streamtasks/system/tasks/textformatter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/streamtasks/system/tasks/textformatter.py b/streamtasks/system/tasks/textformatter.py
index 5196c8c..f1067ba 100644
--- a/streamtasks/system/tasks/textformatter.py
+++ b/streamtasks/system/tasks/textformatter.py
@@ -7,7 +7,7 @@ from streamtasks.net.serialization import RawData
 from streamtasks.message.types import TextMessage
 from streamtasks.net.messages import TopicControlData
 from streamtasks.system.task import Task, TaskHost
-from pydantic import BaseModel, ValidationError
+from pydantic import BaseModel
 from typing import Any
 
 class TextFormatterVariableConfigBase(BaseModel):
@@ -68,7 +68,7 @@ class TextFormatterTask(Task):
           message = TextMessage.model_validate(data.data)
           self.var_values[var_name] = message.value
           await self.send_value(message.timestamp)
-        except ValidationError: pass
+        except (ValueError, LookupError, AttributeError, TypeError): pass # NOTE: invalid message or the template does not fit the values
 
   async def send_value(self, timestamp: int):
     result = self.config.template.format_map(self.var_values)
-- 
2.43.0


From 65eff842b8790b6c705e64e646dba6e04c90266c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:23 +0000
Subject: [PATCH 064/139] fix: text that arrives while the string concatenator
 sends is not lost

---
 streamtasks/system/tasks/stringconcatenator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/streamtasks/system/tasks/stringconcatenator.py b/streamtasks/system/tasks/stringconcatenator.py
index da614d5..b3b6437 100644
--- a/streamtasks/system/tasks/stringconcatenator.py
+++ b/streamtasks/system/tasks/stringconcatenator.py
@@ -48,8 +48,8 @@ class StringConcatenatorTask(Task):
         else:
           message = NumberMessage.model_validate(data.data)
           if last_control <= 0.5 and message.value > 0.5 and len(self.value) > 0:
-            await self.out_topic.send(RawData(TextMessage(timestamp=message.timestamp, value=self.value).model_dump()))
-            self.value = ""
+            value, self.value = self.value, "" # NOTE: more text may arrive while sending
+            await self.out_topic.send(RawData(TextMessage(timestamp=message.timestamp, value=value).model_dump()))
           last_control = message.value
       except ValidationError: pass
 
-- 
2.43.0


From accaf8e644a9e2292109f00f50e17990d16ad116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:38 +0000
Subject: [PATCH 065/139] fix: messages that are not mappings can be copied,
 and do not end the timestamp updater or a playback

---
 streamtasks/net/serialization.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/streamtasks/net/serialization.py b/streamtasks/net/serialization.py
index 0d80f0e..3364873 100644
--- a/streamtasks/net/serialization.py
+++ b/streamtasks/net/serialization.py
@@ -42,7 +42,9 @@ class RawData:
     self.deserialize()
     self._raw = None
   def copy(self): return RawData(memoryview(self.serialize()))
-  def shallow_copy(self): return RawData({ **self.data })
+  def shallow_copy(self):
+    data = self.data
+    return RawData({ **data }) if isinstance(data, dict) else self.copy()
 
 def to_raw_data(data: Any) -> RawData:
   if isinstance(data, RawData): return data
-- 
2.43.0


From 17049dd7c65ceda6a370e597953388b01f2ab75c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:38 +0000
Subject: [PATCH 066/139] fix: a timestamp that no message can carry is refused
 instead of ending the task

---
 streamtasks/message/utils.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/streamtasks/message/utils.py b/streamtasks/message/utils.py
index 61db627..377e95e 100644
--- a/streamtasks/message/utils.py
+++ b/streamtasks/message/utils.py
@@ -12,6 +12,7 @@ def get_timestamp_from_message(data: RawData) -> int:
   raise ValueError(f"could not get timestamp from message: {data}")
 
 def set_timestamp_on_message(data: RawData, timestamp: int):
+  if not -2**63 <= timestamp < 2**64: raise ValueError(f"timestamp {timestamp} can not be carried by a message")
   data.update()
   content = data.data
   if isinstance(content, dict) and "timestamp" in content: content["timestamp"] = timestamp
-- 
2.43.0


From 4a044cba89ef6280f13df760a33eb6faf4adbc51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:38 +0000
Subject: [PATCH 067/139] fix: the time buffer does not miss updates while
 sending, and releases nothing early when stopped

---
 streamtasks/system/tasks/timebuffer.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/streamtasks/system/tasks/timebuffer.py b/streamtasks/system/tasks/timebuffer.py
index 92e6206..f686c95 100644
--- a/streamtasks/system/tasks/timebuffer.py
+++ b/streamtasks/system/tasks/timebuffer.py
@@ -25,6 +25,7 @@ class TimeBufferTask(Task):
     self.config = config
 
     self.update_trigger = AsyncTrigger()
+    self.updates = 0
     self.message_queue = RawDataBuffer()
     self.paused = False
 
@@ -39,11 +40,15 @@ class TimeBufferTask(Task):
       data = await self.in_topic.recv_data_control()
       if isinstance(data, TopicControlData): self.paused = data.paused
       else: self.message_queue.append(data)
+      self.updates += 1
       self.update_trigger.trigger()
 
+  async def wait_update(self, updates: int):
+    if self.updates == updates: await self.update_trigger.wait()
+
   async def run_sender_message(self):
     while True:
-      await self.update_trigger.wait()
+      updates = self.updates # NOTE: more may be received while sending
 
       while len(self.message_queue) > 1:
         next_message = self.message_queue[0]
@@ -61,10 +66,11 @@ class TimeBufferTask(Task):
 
       if len(self.message_queue) == 1 and self.paused: await self.out_topic.send(self.message_queue.popleft())
       await self.out_topic.set_paused(self.paused and len(self.message_queue) == 0)
+      await self.wait_update(updates)
 
   async def run_sender_clock(self):
     while True:
-      if len(self.message_queue) == 0: await self.update_trigger.wait()
+      updates = self.updates
       await self.out_topic.set_paused(self.paused and len(self.message_queue) == 0)
 
       if len(self.message_queue) > 0:
@@ -74,7 +80,8 @@ class TimeBufferTask(Task):
           pending_ms = self.config.size - (get_timestamp_ms() - next_timestamp)
           if pending_ms > 0: await asyncio.sleep(pending_ms / 1000.)
         except ValueError: pass
-        finally: await self.out_topic.send(self.message_queue.popleft())
+        await self.out_topic.send(self.message_queue.popleft())
+      else: await self.wait_update(updates)
 
 class TimeBufferTaskHost(TaskHost):
   @property
-- 
2.43.0


From 528bade5b15e32061f16a96a3bbfe8cae73a9fd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:38 +0000
Subject: [PATCH 068/139] fix: a looping playback can be stopped, and stopping
 leaves the output paused

---
 streamtasks/system/tasks/replaybuffer.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/streamtasks/system/tasks/replaybuffer.py b/streamtasks/system/tasks/replaybuffer.py
index dc43f7a..ba840e1 100644
--- a/streamtasks/system/tasks/replaybuffer.py
+++ b/streamtasks/system/tasks/replaybuffer.py
@@ -73,21 +73,20 @@ class ReplayBufferTask(Task):
         except ValueError: pass
         await self.out_topic.send(data)
       if not self.config.loop: break
+      await asyncio.sleep(0.001) # NOTE: a recording takes time, so that it can be stopped
     await self.out_topic.set_paused(True)
 
   async def update_playing_state(self):
     if self.playing and self.play_task is None and len(self.buffer) > 0: self.play_task = asyncio.create_task(self.play())
     if not self.playing:
-      await self.out_topic.set_paused(True)
       await self.stop_play()
+      if not self.playing: await self.out_topic.set_paused(True)
 
   async def stop_play(self):
-    if self.play_task is not None:
-      if not self.play_task.done():
-        self.play_task.cancel()
-        try: await self.play_task
-        except asyncio.CancelledError: pass
-      self.play_task = None
+    play_task, self.play_task = self.play_task, None # NOTE: a new playback may start while waiting
+    if play_task is not None and not play_task.done():
+      play_task.cancel()
+      await asyncio.wait([play_task])
 
 class ReplayBufferTaskHost(TaskHost):
   @property
-- 
2.43.0


From 9ee31b6981f8d44143f818a22b7beb2330e500e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:05 +0000
Subject: [PATCH 069/139] fix: a pause state whose sending was cancelled is
 sent again

---
 streamtasks/client/topic.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/streamtasks/client/topic.py b/streamtasks/client/topic.py
index ceefbf2..27b2d39 100644
--- a/streamtasks/client/topic.py
+++ b/streamtasks/client/topic.py
@@ -210,6 +210,7 @@ class OutTopic(_TopicBase):
     super().__init__(client, topic)
     self._receiver = _OutTopicReceiver(client, topic)
     self._is_paused: bool = False
+    self._is_paused_unknown: bool = False
     self._a_is_requested = AsyncBool()
     self._receiver_task: Optional[asyncio.Task] = None
 
@@ -232,9 +233,12 @@ class OutTopic(_TopicBase):
 
   async def send(self, data: RawData): await self._client.send_stream_data(self._topic, data)
   async def set_paused(self, paused: bool):
-    if paused != self._is_paused:
-      self._is_paused = paused
-      await self._client.send_stream_control(self._topic, TopicControlData(paused=paused))
+    if paused != self._is_paused or self._is_paused_unknown:
+      self._is_paused, self._is_paused_unknown = paused, False
+      try: await self._client.send_stream_control(self._topic, TopicControlData(paused=paused))
+      except BaseException:
+        self._is_paused_unknown = True # NOTE: cancelled or failed, it may or may not have been sent
+        raise
 
   async def _set_registered(self, registered: bool):
     if registered: await self._client.register_out_topics([ self._topic ])
-- 
2.43.0


From 48594ccd732a6cd482b53539696ea2e0c04b78da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:15 +0000
Subject: [PATCH 070/139] fix: audio chunkers give out full chunks, with times
 that do not drift

---
 streamtasks/media/util.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/streamtasks/media/util.py b/streamtasks/media/util.py
index 75732a7..7340d93 100644
--- a/streamtasks/media/util.py
+++ b/streamtasks/media/util.py
@@ -142,10 +142,11 @@ class AudioChunker:
     current_timestamp = timestamp - self.buffer_size * 1000 // self.sample_rate
     self.buffer = buf.flatten() if self.buffer is None else np.concatenate((self.buffer, buf.flatten()))
 
-    while self.buffer.size > self.chunk_size:
-      yield (self.buffer[:self.chunk_size], current_timestamp)
+    emitted_samples = 0
+    while self.buffer.size >= self.chunk_size:
+      yield (self.buffer[:self.chunk_size], current_timestamp + emitted_samples * 1000 // self.sample_rate)
       self.buffer = self.buffer[self.chunk_size:]
-      current_timestamp += self.buffer_duration
+      emitted_samples += self.chunk_size
 
 class PaddedAudioChunker:
   def __init__(self, chunk_size: int, sample_rate: int, padding: int) -> None:
@@ -163,12 +164,13 @@ class PaddedAudioChunker:
     current_timestamp = timestamp - (self.buffer_size - self.padding) * 1000 // self.sample_rate
     self.buffer = buf.flatten() if self.buffer is None else np.concatenate((self.buffer, buf.flatten()))
 
-    while self.buffer.size > self.process_buffer_size:
-      yield (self.buffer[:self.process_buffer_size], current_timestamp)
+    emitted_samples = 0
+    while self.buffer.size >= self.process_buffer_size:
+      yield (self.buffer[:self.process_buffer_size], current_timestamp + emitted_samples * 1000 // self.sample_rate)
       self.buffer = self.buffer[self.chunk_size:]
-      current_timestamp += self.buffer_duration
+      emitted_samples += self.chunk_size
 
-  def strip_padding(self, buf: np.ndarray): return buf[self.padding:-self.padding]
+  def strip_padding(self, buf: np.ndarray): return buf[self.padding:buf.shape[0] - self.padding]
 
 class AudioSmoother:
   def __init__(self, overlap: int) -> None:
-- 
2.43.0


From 75bb884f62275a48c71d49640d0390e33f97e7d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:43 +0000
Subject: [PATCH 071/139] fix: audio sequencer places buffers by their own
 time; u8 audio is unsigned

---
 streamtasks/media/audio.py | 4 ++--
 streamtasks/media/util.py  | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/streamtasks/media/audio.py b/streamtasks/media/audio.py
index 93ddaf6..ca767cc 100644
--- a/streamtasks/media/audio.py
+++ b/streamtasks/media/audio.py
@@ -23,8 +23,8 @@ _SAMPLE_FORMAT_NP_2_AV_INFO: dict[str, tuple[bool, type[np.dtype]]] = {
   "s32p": (True, np.int32),
   "s64": (False, np.int64),
   "s64p": (True, np.int64),
-  "u8": (False, np.int8),
-  "u8p": (True, np.int8),
+  "u8": (False, np.uint8),
+  "u8p": (True, np.uint8),
 }
 
 def get_audio_bytes_per_time_sample(sample_format: str, channels: int): # time sample != sample, time sample has all channels
diff --git a/streamtasks/media/util.py b/streamtasks/media/util.py
index 7340d93..9a10e08 100644
--- a/streamtasks/media/util.py
+++ b/streamtasks/media/util.py
@@ -235,7 +235,7 @@ class AudioSequencer:
       self._sample_buffer = samples
       self._buffer_start_time = time
     else:
-      self._desync_time += time - self.end_time
+      self._desync_time = time - self.end_time
       next_sample_count = self._sample_buffer.shape[0] + samples.shape[0]
       desync_sample_count: int = round(abs(self._desync_time) * self._sample_rate)
       if DEBUG_MIXER(): ddebug_value("track desync time", id(self), float(self._desync_time))
-- 
2.43.0


From 117d43fd4f58d4868ba7acfb2f823737c0437e42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:43 +0000
Subject: [PATCH 072/139] fix: audio of the wrong size does not end the mixer,
 volume scaler or volume meter

---
 streamtasks/system/tasks/media/audiomixer.py        | 2 +-
 streamtasks/system/tasks/media/audiovolumemeter.py  | 2 +-
 streamtasks/system/tasks/media/audiovolumescaler.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/streamtasks/system/tasks/media/audiomixer.py b/streamtasks/system/tasks/media/audiomixer.py
index 628cfe8..dae4f14 100644
--- a/streamtasks/system/tasks/media/audiomixer.py
+++ b/streamtasks/system/tasks/media/audiomixer.py
@@ -94,7 +94,7 @@ class AudioMixerTask(Task):
             ddebug_value("track sample rate", id(track.sequencer), sample_count * 1000 / (message.timestamp - t0))
           track.sequencer.insert(Fraction(message.timestamp, 1000), samples)
           await self.send_next()
-      except ValidationError: pass
+      except (ValidationError, ValueError): pass
 
   async def send_next(self):
     if any(True for track in self.audio_tracks if not track.is_paused and not track.sequencer.started): return # not ready yet
diff --git a/streamtasks/system/tasks/media/audiovolumemeter.py b/streamtasks/system/tasks/media/audiovolumemeter.py
index 93627c6..9d69d36 100644
--- a/streamtasks/system/tasks/media/audiovolumemeter.py
+++ b/streamtasks/system/tasks/media/audiovolumemeter.py
@@ -65,7 +65,7 @@ class AudioVolumeMeterTask(SyncTask):
         message = self.message_queue.get(timeout=0.5)
         for chunk, timestamp in chunker.next(audio_buffer_to_ndarray(message.data, self.config.sample_format)[0], message.timestamp):
           self.send_data(self.out_topic, RawData(NumberMessage(timestamp=timestamp, value=np.sqrt(np.mean(np.abs(chunk) / self.max_value))).model_dump()))
-      except queue.Empty: pass
+      except (queue.Empty, ValueError): pass
 
 class AudioVolumeMeterTaskHost(TaskHost):
   @property
diff --git a/streamtasks/system/tasks/media/audiovolumescaler.py b/streamtasks/system/tasks/media/audiovolumescaler.py
index 8c417bd..129e204 100644
--- a/streamtasks/system/tasks/media/audiovolumescaler.py
+++ b/streamtasks/system/tasks/media/audiovolumescaler.py
@@ -75,7 +75,7 @@ class AudioVolumeScalerTask(SyncTask):
         samples = audio_buffer_to_samples(message.data, sample_format=self.config.sample_format, channels=self.config.channels)
         samples = np.clip(samples * self.scale, samples_dtype_min_max[0], samples_dtype_min_max[1]).astype(samples_dtype)
         self.send_data(self.out_topic, RawData(TimestampChuckMessage(timestamp=message.timestamp, data=samples.tobytes("C")).model_dump()))
-      except queue.Empty: pass
+      except (queue.Empty, ValueError): pass
 
   async def _run_recv_scale(self):
     while True:
-- 
2.43.0


From ee648a2dd1bd06be79a0f0e308f6beeb93fdf8e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:43 +0000
Subject: [PATCH 073/139] fix: volume of the loudest integer samples

---
 streamtasks/system/tasks/media/audiovolumemeter.py  | 2 +-
 streamtasks/system/tasks/media/audiovolumescaler.py | 4 +++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/streamtasks/system/tasks/media/audiovolumemeter.py b/streamtasks/system/tasks/media/audiovolumemeter.py
index 9d69d36..4d51dc3 100644
--- a/streamtasks/system/tasks/media/audiovolumemeter.py
+++ b/streamtasks/system/tasks/media/audiovolumemeter.py
@@ -64,7 +64,7 @@ class AudioVolumeMeterTask(SyncTask):
       try:
         message = self.message_queue.get(timeout=0.5)
         for chunk, timestamp in chunker.next(audio_buffer_to_ndarray(message.data, self.config.sample_format)[0], message.timestamp):
-          self.send_data(self.out_topic, RawData(NumberMessage(timestamp=timestamp, value=np.sqrt(np.mean(np.abs(chunk) / self.max_value))).model_dump()))
+          self.send_data(self.out_topic, RawData(NumberMessage(timestamp=timestamp, value=np.sqrt(np.mean(np.abs(chunk.astype(np.float64)) / self.max_value))).model_dump()))
       except (queue.Empty, ValueError): pass
 
 class AudioVolumeMeterTaskHost(TaskHost):
diff --git a/streamtasks/system/tasks/media/audiovolumescaler.py b/streamtasks/system/tasks/media/audiovolumescaler.py
index 129e204..4a3afad 100644
--- a/streamtasks/system/tasks/media/audiovolumescaler.py
+++ b/streamtasks/system/tasks/media/audiovolumescaler.py
@@ -17,7 +17,9 @@ from streamtasks.utils import context_task
 def get_dtype_min_max(dtype: np.dtype):
   if np.issubdtype(dtype, np.integer):
     info = np.iinfo(dtype)
-    return info.min, info.max
+    max_value = info.max
+    if int(float(max_value)) > info.max: max_value = float(np.nextafter(float(max_value), 0)) # the largest float that fits
+    return info.min, max_value
   else: return (-1, 1)
 
 class AudioVolumeScalerConfigBase(BaseModel):
-- 
2.43.0


From 5f8c7aa823647bf6cf3bc59d8ad8a19e05620ccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:43 +0000
Subject: [PATCH 074/139] fix: one-byte pixel images of width or height 1 keep
 their shape

---
 streamtasks/media/video.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/streamtasks/media/video.py b/streamtasks/media/video.py
index da0150c..c3f2f1d 100644
--- a/streamtasks/media/video.py
+++ b/streamtasks/media/video.py
@@ -16,7 +16,7 @@ from streamtasks.utils import hertz_to_fintervall
 # TODO: endianness
 def video_buffer_to_ndarray(buf: ByteString, width: int, height: int):
   bitmap = np.frombuffer(buf, dtype=np.uint8).reshape((height, width, -1))
-  if bitmap.shape[-1] == 1: bitmap = bitmap.squeeze()
+  if bitmap.shape[-1] == 1: bitmap = bitmap.squeeze(axis=-1)
   return bitmap
 
 class VideoFrame(Frame[av.VideoFrame]):
-- 
2.43.0


From a7869b7d7b437b157f7fd5d50d5d302fa414fecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:15 +0000
Subject: [PATCH 075/139] fix: blending images stays within their whole pixels

---
 streamtasks/media/video_perf_all.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/streamtasks/media/video_perf_all.cpp b/streamtasks/media/video_perf_all.cpp
index ce8c713..683a28a 100644
--- a/streamtasks/media/video_perf_all.cpp
+++ b/streamtasks/media/video_perf_all.cpp
@@ -8,7 +8,6 @@ namespace py = pybind11;
 
 py::bytes merge_images(std::vector<py::bytes> images, bool alpha_front) {
     size_t image_count = images.size();
-    assert(image_count > 0);
 
     std::vector<uint8_t*> image_data;
     size_t image_size = std::numeric_limits<size_t>::max();
@@ -19,6 +18,9 @@ py::bytes merge_images(std::vector<py::bytes> images, bool alpha_front) {
         image_data.push_back((uint8_t*)v.data());
     }
     
+    if (image_count == 0) image_size = 0;
+    image_size -= image_size % ALPHA_PIXEL_SIZE; // only whole pixels
+
     std::string out_str(image_size, '\0');
     uint8_t* out_data = (uint8_t*)out_str.data();
 
-- 
2.43.0


From 3f316f61ec9b5e104522e96f177219abc0ed6159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:41 +0000
Subject: [PATCH 076/139] fix: images of the wrong size do not end the video
 layout

---
 streamtasks/system/tasks/media/videolayout.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/streamtasks/system/tasks/media/videolayout.py b/streamtasks/system/tasks/media/videolayout.py
index 36344db..44686d9 100644
--- a/streamtasks/system/tasks/media/videolayout.py
+++ b/streamtasks/system/tasks/media/videolayout.py
@@ -81,6 +81,7 @@ class VideoLayoutTask(SyncTask):
     while not self.stop_event.is_set():
       try:
         message = self.message_queue.get(timeout=timeout)
+        if len(message.data) != self.config.in_width * self.config.in_height * 4: raise ValueError("Invalid image size!")
         arr = video_buffer_to_ndarray(message.data, self.config.in_width, self.config.in_height)
         arr = cv2.resize(arr, (self.config.place_width, self.config.place_height), interpolation=cv2.INTER_LINEAR)
         arr = arr[:self.config.apply_height,:self.config.apply_width,:]
@@ -88,7 +89,7 @@ class VideoLayoutTask(SyncTask):
         out_data = np.zeros((self.config.out_height, self.config.out_width, 4), dtype=np.uint8)
         out_data[self.config.place_top_offset:self.config.place_top_offset + arr.shape[0], self.config.place_left_offset:self.config.place_left_offset + arr.shape[1]] = arr
         self.send_data(self.out_topic, RawData(TimestampChuckMessage(timestamp=message.timestamp, data=out_data.tobytes("C")).model_dump()))
-      except queue.Empty: pass
+      except (queue.Empty, ValueError): pass
 
 class VideoLayoutTaskHost(TaskHost):
   @property
-- 
2.43.0


From 5ce55acb95f080bad4be593bb17929b3ea9188aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:41 +0000
Subject: [PATCH 077/139] fix: the video mixer uses its background color

---
 streamtasks/system/tasks/media/videomixer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/streamtasks/system/tasks/media/videomixer.py b/streamtasks/system/tasks/media/videomixer.py
index d97ab30..de16d90 100644
--- a/streamtasks/system/tasks/media/videomixer.py
+++ b/streamtasks/system/tasks/media/videomixer.py
@@ -121,10 +121,11 @@ class VideoMixerTask(SyncTask):
 
   def run_sync(self):
     timeout = 2 / self.config.rate
+    background = np.tile(self.config.bgcolor, self.config.width * self.config.height).tobytes()
     while not self.stop_event.is_set():
       try:
         job = self.job_queue.get(timeout=timeout)
-        result = merge_images([ frame for frame in job.frames ], self.config.alpha_front)
+        result = merge_images([ background, *job.frames ], self.config.alpha_front)
         self.send_data(self.out_topic, RawData(TimestampChuckMessage(timestamp=job.timestamp, data=result).model_dump()))
       except queue.Empty: pass
 
-- 
2.43.0


From e8312dfa4c5c88560d133d797aa897295860cce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:09 +0000
Subject: [PATCH 078/139] fix: packets keep a decode time of zero and exact
 timestamps

---
 streamtasks/media/packet.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/streamtasks/media/packet.py b/streamtasks/media/packet.py
index b3caefe..4e16f09 100644
--- a/streamtasks/media/packet.py
+++ b/streamtasks/media/packet.py
@@ -27,10 +27,10 @@ class MediaPacket:
   @staticmethod
   def from_av_packet(packet: av.Packet, time_base: Fraction):
     if packet.time_base is None or packet.pts is None: raise ValueError("Expected time_base and pts on av.Packet!")
-    time_base_factor = float(packet.time_base / time_base)
-    rel_dts = int((packet.pts - (packet.dts or packet.pts)) * time_base_factor)
-    pts = int(packet.pts * time_base_factor)
-    return MediaPacket(bytes(packet), pts, rel_dts, packet.is_keyframe)
+    time_base_factor = packet.time_base / time_base
+    pts = round(packet.pts * time_base_factor)
+    dts = pts if packet.dts is None else round(packet.dts * time_base_factor)
+    return MediaPacket(bytes(packet), pts, pts - dts, packet.is_keyframe)
 
 class MediaMessage(TimestampMessage):
   packet: MediaPacket
-- 
2.43.0


From 793aad7ce6ee153ed5cb6d5cb59e8deda68d4081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:32 +0000
Subject: [PATCH 079/139] fix: fractional frame rates work and do not drift

---
 streamtasks/media/container.py                     | 2 +-
 streamtasks/media/video.py                         | 8 ++++----
 streamtasks/system/tasks/media/videoreformatter.py | 2 +-
 streamtasks/utils.py                               | 5 ++++-
 4 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/streamtasks/media/container.py b/streamtasks/media/container.py
index b63ffde..df85709 100644
--- a/streamtasks/media/container.py
+++ b/streamtasks/media/container.py
@@ -172,7 +172,7 @@ class OutputContainer:
   def add_video_stream(self, codec_info: VideoCodecInfo):
     time_base = codec_info.time_base
     if time_base is None: raise ValueError("time_base must not be None")
-    stream = self._container.add_stream(codec_name=codec_info.codec, rate=codec_info.frame_rate, width=codec_info.width, height=codec_info.height, format=codec_info.to_av_format(), options=codec_info.options)
+    stream = self._container.add_stream(codec_name=codec_info.codec, rate=1 / time_base, width=codec_info.width, height=codec_info.height, format=codec_info.to_av_format(), options=codec_info.options)
     return AVOutputStream(self._ctx, time_base, stream)
 
   def add_audio_stream(self, codec_info: AudioCodecInfo):
diff --git a/streamtasks/media/video.py b/streamtasks/media/video.py
index c3f2f1d..3e12951 100644
--- a/streamtasks/media/video.py
+++ b/streamtasks/media/video.py
@@ -86,13 +86,13 @@ class VideoCodecInfo(CodecInfo[VideoFrame]):
 
   def compatible_with(self, other: 'CodecInfo') -> bool:
     if not isinstance(other, VideoCodecInfo): return False
-    return self.codec_id == other.codec_id and self.frame_rate == other.frame_rate and self.width == other.width and self.height == other.height and self.pixel_format == other.pixel_format
+    return self.codec_id == other.codec_id and self.time_base == other.time_base and self.width == other.width and self.height == other.height and self.pixel_format == other.pixel_format
 
   def _get_av_codec_context(self, mode: Literal["w", "w"]):
     if mode not in ('r', 'w'): raise ValueError(f'Invalid mode: {mode}. Must be "r" or "w".')
     ctx: av.video.codeccontext.VideoCodecContext = av.video.codeccontext.VideoCodecContext.create(self.codec, mode)
     ctx.format = self.to_av_format()
-    ctx.framerate = self.frame_rate
+    ctx.framerate = 1 / self.time_base
 
     apply_options_to_codec_context(ctx, self.options)
 
@@ -133,7 +133,7 @@ class VideoReformatter(Reformatter[VideoFrame]):
     self.to_codec = to_codec
     self.from_codec = from_codec
     self.reformatter = av.video.reformatter.VideoReformatter()
-    self.frame_duation = Fraction(to_codec.frame_rate / from_codec.frame_rate)
+    self.frame_duation = from_codec.time_base / to_codec.time_base
     self.rel_frame_counter = Fraction(0)
     self.min_pts = -2**31
 
@@ -150,7 +150,7 @@ class VideoReformatter(Reformatter[VideoFrame]):
     out_frame = self.reformatter.reformat(frame.frame, width=self.to_codec.width, height=self.to_codec.height, format=self.to_codec.pixel_format)
     time_base = frame.frame.time_base if frame.frame.time_base is not None else self.from_codec.time_base
 
-    pts = max(int((time_base * frame.frame.pts) * self.to_codec.frame_rate), self.min_pts)
+    pts = max(int((time_base * frame.frame.pts) / self.to_codec.time_base), self.min_pts)
     self.min_pts = pts + frame_count
 
     frames: list[VideoFrame] = []
diff --git a/streamtasks/system/tasks/media/videoreformatter.py b/streamtasks/system/tasks/media/videoreformatter.py
index fb7aa7c..daff2e7 100644
--- a/streamtasks/system/tasks/media/videoreformatter.py
+++ b/streamtasks/system/tasks/media/videoreformatter.py
@@ -48,7 +48,7 @@ class VideoReformatterTask(Task):
             message = TimestampChuckMessage.model_validate(data.data)
             if t0 is None: t0 = message.timestamp
             frame = VideoFrame.from_buffer(message.data, self.config.in_width, self.config.in_height, self.config.in_pixel_format)
-            frame.set_ts(Fraction(message.timestamp - t0, 1000), Fraction(1, self.config.in_rate))
+            frame.set_ts(Fraction(message.timestamp - t0, 1000), self.reformatter.from_codec.time_base)
             for nframe in await self.reformatter.reformat(frame):
               await self.out_topic.send(RawData(TimestampChuckMessage(timestamp=int(nframe.dtime * 1000) + t0, data=nframe.to_bytes()).model_dump()))
         except (ValidationError, ValueError): pass
diff --git a/streamtasks/utils.py b/streamtasks/utils.py
index 372b8ce..c579700 100644
--- a/streamtasks/utils.py
+++ b/streamtasks/utils.py
@@ -347,4 +347,7 @@ def make_json_key(k: Any):
   k = make_json_serializable(k)
   return repr(k) if isinstance(k, (dict, list)) else k
 
-def hertz_to_fintervall(f: int | float): return Fraction(1, int(f)) if int(f) == f else Fraction(1 / f)
+def hertz_to_fintervall(f: int | float):
+  # NOTE: the limits keep the interval exact for fractional rates (e.g. 30000 / 1001) and small enough for av
+  if f < 1: return Fraction(1 / f).limit_denominator(10**6)
+  return 1 / Fraction(f).limit_denominator(10**6)
-- 
2.43.0


From ce97b523bbd7a7f878b20ee08d9c6abbd51f6bcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:32 +0000
Subject: [PATCH 080/139] fix: the frame rate of an input stream is that of the
 stream

---
 streamtasks/media/container.py | 7 +++++--
 streamtasks/media/video.py     | 4 ++--
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/streamtasks/media/container.py b/streamtasks/media/container.py
index df85709..8cda05a 100644
--- a/streamtasks/media/container.py
+++ b/streamtasks/media/container.py
@@ -67,14 +67,17 @@ class AVInputStream:
     self.out_time_base = target_codec.time_base
     self.stream_time_base = self.out_time_base
     try:
-      codec_info = CodecInfo.from_codec_context(stream.codec_context)
+      codec_info = self.codec_info
       if force_transcode or not target_codec.compatible_with(codec_info):
         self._transcoder = AVTranscoder(Decoder(codec_info, codec_context=stream.codec_context), target_codec.get_encoder())
         self.stream_time_base = self._transcoder.decoder.time_base
     except TypeError: pass # NOTE: some contexts dont have all the codec info
 
   @property
-  def codec_info(self) -> CodecInfo: return CodecInfo.from_codec_context(self._stream.codec_context)
+  def codec_info(self) -> CodecInfo:
+    # NOTE: the codec context of a video stream may have no or the wrong rate
+    if self._stream.type == "video": return VideoCodecInfo.from_codec_context(self._stream.codec_context, self._stream.guessed_rate)
+    return CodecInfo.from_codec_context(self._stream.codec_context)
 
   def convert_position(self, position: int, target_time: Fraction): return int((self.out_time_base * position) / target_time)
 
diff --git a/streamtasks/media/video.py b/streamtasks/media/video.py
index 3e12951..0eee410 100644
--- a/streamtasks/media/video.py
+++ b/streamtasks/media/video.py
@@ -101,9 +101,9 @@ class VideoCodecInfo(CodecInfo[VideoFrame]):
     return ctx
 
   @staticmethod
-  def from_codec_context(ctx: av.video.codeccontext.VideoCodecContext):
+  def from_codec_context(ctx: av.video.codeccontext.VideoCodecContext, frame_rate: Fraction | None = None):
     format = ctx.format
-    framerate = float(ctx.rate)
+    framerate = float(frame_rate or ctx.rate)
     return VideoCodecInfo(ctx.width, ctx.height, framerate, format.name, ctx.name, options_from_codec_context(ctx))
 
 def copy_av_video_frame(frame: av.VideoFrame) -> av.VideoFrame:
-- 
2.43.0


From 6f9f6ffb3421249b1ef6d51ff68752fa50e6154a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:32 +0000
Subject: [PATCH 081/139] fix: frames are copied line by line when their line
 sizes differ

---
 streamtasks/media/video.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/streamtasks/media/video.py b/streamtasks/media/video.py
index 0eee410..ab11877 100644
--- a/streamtasks/media/video.py
+++ b/streamtasks/media/video.py
@@ -116,7 +116,11 @@ def copy_av_video_frame(frame: av.VideoFrame) -> av.VideoFrame:
   new_frame.color_range = frame.color_range
   assert len(frame.planes) == len(new_frame.planes)
   for a, b in zip(new_frame.planes, frame.planes):
-    ctypes.memmove(a.buffer_ptr, b.buffer_ptr, min(a.buffer_size, b.buffer_size))
+    if a.line_size == b.line_size: ctypes.memmove(a.buffer_ptr, b.buffer_ptr, min(a.buffer_size, b.buffer_size))
+    else: # the padding of the lines may differ
+      line_size = min(a.line_size, b.line_size)
+      for i in range(min(a.buffer_size // a.line_size, b.buffer_size // b.line_size)):
+        ctypes.memmove(a.buffer_ptr + i * a.line_size, b.buffer_ptr + i * b.line_size, line_size)
   return new_frame
 
 class FrameReformatter:
-- 
2.43.0


From 514785bd64b364a671be8ee08ec32e45e9bca3a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:32 +0000
Subject: [PATCH 082/139] fix: demuxing packets without a decode time

---
 streamtasks/media/container.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/streamtasks/media/container.py b/streamtasks/media/container.py
index 8cda05a..e6662ad 100644
--- a/streamtasks/media/container.py
+++ b/streamtasks/media/container.py
@@ -46,7 +46,7 @@ class _Demuxer(AsyncMPProducer[av.Packet]):
       try:
         av_packet = next(demux_iter)
         if av_packet.size == 0 and av_packet.dts is None and av_packet.pts is None: raise EOFError()
-        assert av_packet.dts <= av_packet.pts, "dts must be lower than pts while demuxing"
+        assert av_packet.dts is None or av_packet.pts is None or av_packet.dts <= av_packet.pts, "dts must be lower than pts while demuxing"
         self.send_message(av_packet)
       except StopIteration: raise EOFError()
       except TimeoutError: pass
-- 
2.43.0


From b698c4b4e3c5a029d023bbebfbc5a35063fbff9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:32 +0000
Subject: [PATCH 083/139] fix: frame timestamps are rounded to the nearest tick

---
 streamtasks/media/codec.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/streamtasks/media/codec.py b/streamtasks/media/codec.py
index ef9bfc3..69f6835 100644
--- a/streamtasks/media/codec.py
+++ b/streamtasks/media/codec.py
@@ -27,7 +27,7 @@ class Frame(ABC, Generic[T]):
     else: return self.frame.time_base * self.frame.pts
 
   def set_ts(self, time: Fraction, time_base: Fraction):
-    ts = int(time / time_base)
+    ts = round(time / time_base)
     self.frame.time_base = time_base
     self.frame.dts = ts
     self.frame.pts = ts
-- 
2.43.0


From 36baa218cd40bf63edd29138eddf04fb6b23801b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:32 +0000
Subject: [PATCH 084/139] fix: the options of a codec are kept

---
 streamtasks/media/util.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/streamtasks/media/util.py b/streamtasks/media/util.py
index 9a10e08..b574b5e 100644
--- a/streamtasks/media/util.py
+++ b/streamtasks/media/util.py
@@ -115,6 +115,7 @@ def apply_options_to_codec_context(ctx: av.codec.context.CodecContext, options:
     "p": "profile"
   }
 
+  options = dict(options)
   for k, attr_name in int_castings.items():
     if (value := options.pop(k, None)) is not None:
       setattr(ctx, attr_name, int(value))
-- 
2.43.0


From 76d856e4028dce05f8b45a2829d4f709ce19be05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:33 +0000
Subject: [PATCH 085/139] fix: bad frames and packets do not end the media
 tasks

---
 streamtasks/system/tasks/media/audiodecoder.py       | 2 +-
 streamtasks/system/tasks/media/audioencoder.py       | 2 +-
 streamtasks/system/tasks/media/videoactivitymeter.py | 2 +-
 streamtasks/system/tasks/media/videodecoder.py       | 2 +-
 streamtasks/system/tasks/media/videoencoder.py       | 2 +-
 5 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/streamtasks/system/tasks/media/audiodecoder.py b/streamtasks/system/tasks/media/audiodecoder.py
index ec09aaa..41e723f 100644
--- a/streamtasks/system/tasks/media/audiodecoder.py
+++ b/streamtasks/system/tasks/media/audiodecoder.py
@@ -54,7 +54,7 @@ class AudioDecoderTask(Task):
             for frame in frames: # TODO: endianness
               if DEBUG_MEDIA(): ddebug_value("decoder dtime", float(frame.dtime))
               await self.out_topic.send(RawData(TimestampChuckMessage(timestamp=self.t0 + int(frame.dtime * 1000), data=frame.to_ndarray().tobytes("C")).model_dump()))
-          except ValidationError: pass
+          except (ValidationError, ValueError): pass
     finally:
       self.decoder.close()
 
diff --git a/streamtasks/system/tasks/media/audioencoder.py b/streamtasks/system/tasks/media/audioencoder.py
index ab220ad..07ed34f 100644
--- a/streamtasks/system/tasks/media/audioencoder.py
+++ b/streamtasks/system/tasks/media/audioencoder.py
@@ -69,7 +69,7 @@ class AudioEncoderTask(SyncTask):
         for packet in packets:
           self.send_data(self.out_topic, RawData(MediaMessage(timestamp=int(self.t0 + packet.dts * self.time_base * 1000), packet=packet).model_dump()))
         self.frame_data_queue.task_done()
-      except queue.Empty: pass
+      except (queue.Empty, ValueError): pass
 
 class AudioEncoderTaskHost(TaskHost):
   @property
diff --git a/streamtasks/system/tasks/media/videoactivitymeter.py b/streamtasks/system/tasks/media/videoactivitymeter.py
index 5ca58b0..6d76a63 100644
--- a/streamtasks/system/tasks/media/videoactivitymeter.py
+++ b/streamtasks/system/tasks/media/videoactivitymeter.py
@@ -62,7 +62,7 @@ class VideoActivityMeterTask(SyncTask):
         if last_bitmap is not None:
           self.send_data(self.out_topic, RawData(NumberMessage(timestamp=message.timestamp, value=np.abs(last_bitmap - bitmap).flatten().mean()).model_dump()))
         last_bitmap = bitmap
-      except queue.Empty: pass
+      except (queue.Empty, ValueError): pass
 
 class VideoActivityMeterTaskHost(TaskHost):
   @property
diff --git a/streamtasks/system/tasks/media/videodecoder.py b/streamtasks/system/tasks/media/videodecoder.py
index b6528de..6b590dc 100644
--- a/streamtasks/system/tasks/media/videodecoder.py
+++ b/streamtasks/system/tasks/media/videodecoder.py
@@ -55,7 +55,7 @@ class VideoDecoderTask(Task):
             for frame in frames: # TODO: endianness
               bitmap = frame.convert(width=self.config.width, height=self.config.height, pixel_format=self.config.out_pixel_format).to_ndarray()
               await self.out_topic.send(RawData(TimestampChuckMessage(timestamp=self.t0 + int(frame.dtime * 1000), data=bitmap.tobytes("C")).model_dump()))
-          except ValidationError: pass
+          except (ValidationError, ValueError): pass
     finally:
       self.decoder.close()
 
diff --git a/streamtasks/system/tasks/media/videoencoder.py b/streamtasks/system/tasks/media/videoencoder.py
index 3e9fccb..14105b0 100644
--- a/streamtasks/system/tasks/media/videoencoder.py
+++ b/streamtasks/system/tasks/media/videoencoder.py
@@ -77,7 +77,7 @@ class VideoEncoderTask(SyncTask):
         for packet in packets:
           self.send_data(self.out_topic, RawData(MediaMessage(timestamp=int(self.t0 + packet.dts * self.time_base * 1000), packet=packet).model_dump()))
         self.frame_data_queue.task_done()
-      except queue.Empty: pass
+      except (queue.Empty, ValueError): pass
 
 class VideoEncoderTaskHost(TaskHost):
   @property
-- 
2.43.0


From 94db13c1f64ba654c4bfc11d6049f22ed8b6d9bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:33 +0000
Subject: [PATCH 086/139] fix: the video activity meter does not wrap around

---
 streamtasks/system/tasks/media/videoactivitymeter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/streamtasks/system/tasks/media/videoactivitymeter.py b/streamtasks/system/tasks/media/videoactivitymeter.py
index 6d76a63..ef51740 100644
--- a/streamtasks/system/tasks/media/videoactivitymeter.py
+++ b/streamtasks/system/tasks/media/videoactivitymeter.py
@@ -60,7 +60,7 @@ class VideoActivityMeterTask(SyncTask):
         message = self.message_queue.get(timeout=timeout)
         bitmap = video_buffer_to_ndarray(message.data, self.config.width, self.config.height)
         if last_bitmap is not None:
-          self.send_data(self.out_topic, RawData(NumberMessage(timestamp=message.timestamp, value=np.abs(last_bitmap - bitmap).flatten().mean()).model_dump()))
+          self.send_data(self.out_topic, RawData(NumberMessage(timestamp=message.timestamp, value=np.abs(last_bitmap.astype(np.int16) - bitmap).flatten().mean()).model_dump()))
         last_bitmap = bitmap
       except (queue.Empty, ValueError): pass
 
-- 
2.43.0


From 6130418208d786d702d6d28e9ef428062a21618b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:32 +0000
Subject: [PATCH 087/139] fix: frames flushed from a decoder have a time base

---
 streamtasks/media/codec.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/streamtasks/media/codec.py b/streamtasks/media/codec.py
index 69f6835..2c22486 100644
--- a/streamtasks/media/codec.py
+++ b/streamtasks/media/codec.py
@@ -91,7 +91,11 @@ class Decoder(Generic[F]):
     return [ Frame.from_av_frame(frame) for frame in frames ]
 
   def close(self): self.codec_context.close()
-  def _decode(self, packet: av.packet.Packet) -> list[F]: return self.codec_context.decode(packet)
+  def _decode(self, packet: av.packet.Packet) -> list[F]:
+    frames = self.codec_context.decode(packet)
+    for frame in frames: # NOTE: flushed frames have no time base
+      if frame.time_base is None: frame.time_base = self.time_base
+    return frames
 
 class Reformatter(Generic[F]):
   async def reformat(self, frame: F) -> list[F]: pass
-- 
2.43.0


From 06bbe99665b998a64087dfb3d18738f81925ecc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:01 +0000
Subject: [PATCH 088/139] fix: raw audio is muxed with its duration

---
 streamtasks/media/container.py | 10 +++++++++-
 streamtasks/media/util.py      |  4 ++++
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/streamtasks/media/container.py b/streamtasks/media/container.py
index e6662ad..c85a089 100644
--- a/streamtasks/media/container.py
+++ b/streamtasks/media/container.py
@@ -11,6 +11,7 @@ from streamtasks.env import DEBUG_MEDIA
 from streamtasks.media.audio import AudioCodecInfo
 from streamtasks.media.codec import AVTranscoder, CodecInfo, Decoder
 from streamtasks.media.packet import MediaPacket
+from streamtasks.media.util import av_get_bits_per_sample
 from streamtasks.media.video import VideoCodecInfo
 from streamtasks.utils import AsyncConsumer, AsyncMPProducer, AsyncProducer, AsyncTrigger
 
@@ -137,6 +138,13 @@ class AVOutputStream:
   @property
   def ready_for_packet(self): return self._ctx.is_min(self._sync_channel)
 
+  def _get_audio_packet_duration(self, packet: MediaPacket) -> int:
+    ctx = self._stream.codec_context
+    if ctx.frame_size: return int(ctx.frame_size)
+    # NOTE: raw audio codecs have no frame size
+    bits_per_sample = av_get_bits_per_sample(ctx.codec.id) * ctx.channels
+    return len(packet.data) * 8 // bits_per_sample if bits_per_sample else 0
+
   async def mux(self, packet: MediaPacket):
     packet = dataclasses.replace(packet)
     packet.dts = self._dts_counter
@@ -156,7 +164,7 @@ class AVOutputStream:
       await loop.run_in_executor(None, self._stream.container.mux, av_packet)
       assert av_packet.dts <= av_packet.pts, "dts must be lower than pts after muxing"
       if self._stream.type == "audio":
-        self._dts_counter += int(self._stream.codec_context.frame_size)
+        self._dts_counter += self._get_audio_packet_duration(packet)
       else:
         self._dts_counter += 1
       self._ctx.set_sync_channel_time(self._sync_channel, self._time_base * self._dts_counter)
diff --git a/streamtasks/media/util.py b/streamtasks/media/util.py
index b574b5e..8a86683 100644
--- a/streamtasks/media/util.py
+++ b/streamtasks/media/util.py
@@ -22,6 +22,10 @@ avcodec_get_name = libavcodec.avcodec_get_name
 avcodec_get_name.argtypes = [ctypes.c_int]
 avcodec_get_name.restype = ctypes.c_char_p
 
+av_get_bits_per_sample = libavcodec.av_get_bits_per_sample
+av_get_bits_per_sample.argtypes = [ctypes.c_int]
+av_get_bits_per_sample.restype = ctypes.c_int
+
 av_get_pix_fmt_name = libavutil.av_get_pix_fmt_name
 av_get_pix_fmt_name.argtypes = [ctypes.c_int]
 av_get_pix_fmt_name.restype = ctypes.c_char_p
-- 
2.43.0


From b910e482a1ec60e18c1d5cbd59eef4d54643adc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:25 +0000
Subject: [PATCH 089/139] fix: empty audio messages do not end the encoder and
 resampler

---
 streamtasks/media/audio.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/streamtasks/media/audio.py b/streamtasks/media/audio.py
index ca767cc..fc6c6a1 100644
--- a/streamtasks/media/audio.py
+++ b/streamtasks/media/audio.py
@@ -59,6 +59,7 @@ class AudioFrame(Frame[av.AudioFrame]):
   @staticmethod
   def from_buffer(buf: ByteString, sample_format: str, channels: int, sample_rate: int):
     arr, is_planar = audio_buffer_to_ndarray(buf, sample_format)
+    if arr.size == 0: raise ValueError("Audio buffer is empty!")
     if is_planar: arr = arr.reshape((channels, -1))
     else: arr = arr.reshape((1, -1))
     return AudioFrame.from_ndarray(arr, sample_format, channels, sample_rate)
-- 
2.43.0


From 93cc4b512612d76d7eca95b3ba12999f6929d067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:09 +0000
Subject: [PATCH 090/139] fix: codecs are not closed while in use

---
 streamtasks/media/codec.py | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/streamtasks/media/codec.py b/streamtasks/media/codec.py
index 2c22486..90ebe93 100644
--- a/streamtasks/media/codec.py
+++ b/streamtasks/media/codec.py
@@ -7,6 +7,7 @@ import av.video
 from streamtasks.media.packet import MediaPacket
 import av
 import asyncio
+import threading
 
 from streamtasks.utils import hertz_to_fintervall
 
@@ -52,6 +53,8 @@ class Encoder(Generic[F]):
     self.codec_info = codec_info
     self.codec_context = codec_info._get_av_codec_context("w")
     self.time_base = codec_info.time_base
+    self._lock = threading.Lock() # NOTE: the context must not be closed while a thread is using it
+    self._closed = False
 
   def __del__(self): self.close()
 
@@ -69,8 +72,15 @@ class Encoder(Generic[F]):
 
   def flush_sync(self): return self._encode(None)
 
-  def close(self): self.codec_context.close(strict=False)
-  def _encode(self, frame: F | None): return [ MediaPacket.from_av_packet(packet, self.time_base) for packet in self.codec_context.encode(None if frame is None else frame.frame) ]
+  def close(self):
+    with self._lock:
+      self._closed = True
+      self.codec_context.close(strict=False)
+
+  def _encode(self, frame: F | None):
+    with self._lock:
+      if self._closed: return []
+      return [ MediaPacket.from_av_packet(packet, self.time_base) for packet in self.codec_context.encode(None if frame is None else frame.frame) ]
 
 
 class Decoder(Generic[F]):
@@ -78,6 +88,8 @@ class Decoder(Generic[F]):
     self.codec_info = codec_info
     self.codec_context = codec_context or codec_info._get_av_codec_context("r")
     self.time_base = codec_info.time_base
+    self._lock = threading.Lock() # NOTE: the context must not be closed while a thread is using it
+    self._closed = False
 
   async def decode(self, packet: MediaPacket) -> list[F]:
     loop = asyncio.get_running_loop()
@@ -90,9 +102,15 @@ class Decoder(Generic[F]):
     frames = await loop.run_in_executor(None, self._decode, None)
     return [ Frame.from_av_frame(frame) for frame in frames ]
 
-  def close(self): self.codec_context.close()
+  def close(self):
+    with self._lock:
+      self._closed = True
+      self.codec_context.close(strict=False)
+
   def _decode(self, packet: av.packet.Packet) -> list[F]:
-    frames = self.codec_context.decode(packet)
+    with self._lock:
+      if self._closed: return []
+      frames = self.codec_context.decode(packet)
     for frame in frames: # NOTE: flushed frames have no time base
       if frame.time_base is None: frame.time_base = self.time_base
     return frames
-- 
2.43.0


From a6839d302ac5284ffacff593d3fa16a5da0f184d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:15 +0000
Subject: [PATCH 091/139] fix: containers are not closed while in use

---
 streamtasks/media/container.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/streamtasks/media/container.py b/streamtasks/media/container.py
index c85a089..c838a1f 100644
--- a/streamtasks/media/container.py
+++ b/streamtasks/media/container.py
@@ -1,6 +1,7 @@
 import dataclasses
 from fractions import Fraction
 import functools
+import threading
 from typing import BinaryIO
 import av.container
 import av.stream
@@ -18,6 +19,8 @@ from streamtasks.utils import AsyncConsumer, AsyncMPProducer, AsyncProducer, Asy
 class _StreamContext:
   def __init__(self) -> None:
     self.lock = asyncio.Lock()
+    self.container_lock = threading.Lock() # NOTE: the container must not be closed while a thread is using it
+    self.closed = False
     self._sync_update_trigger = AsyncTrigger()
     self._sync_channels: dict[int, Fraction] = {}
 
@@ -161,7 +164,7 @@ class AVOutputStream:
     loop = asyncio.get_running_loop()
     async with self._ctx.lock:
       assert av_packet.dts <= av_packet.pts, "dts must be lower than pts before muxing"
-      await loop.run_in_executor(None, self._stream.container.mux, av_packet)
+      await loop.run_in_executor(None, self._mux_sync, av_packet)
       assert av_packet.dts <= av_packet.pts, "dts must be lower than pts after muxing"
       if self._stream.type == "audio":
         self._dts_counter += self._get_audio_packet_duration(packet)
@@ -169,6 +172,10 @@ class AVOutputStream:
         self._dts_counter += 1
       self._ctx.set_sync_channel_time(self._sync_channel, self._time_base * self._dts_counter)
 
+  def _mux_sync(self, av_packet: av.Packet):
+    with self._ctx.container_lock:
+      if not self._ctx.closed: self._stream.container.mux(av_packet)
+
 class OutputContainer:
   def __init__(self, container: av.container.OutputContainer):
     self._container: av.OutputContainer = container
@@ -178,7 +185,13 @@ class OutputContainer:
 
   async def close(self):
     await self._ctx.lock.acquire()
-    self._container.close()
+    loop = asyncio.get_running_loop()
+    await loop.run_in_executor(None, self._close_sync)
+
+  def _close_sync(self):
+    with self._ctx.container_lock:
+      self._ctx.closed = True
+      self._container.close()
 
   def add_video_stream(self, codec_info: VideoCodecInfo):
     time_base = codec_info.time_base
-- 
2.43.0


From 8cc764e999a92abac7cb393d08cd3de57f237b32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:15 +0000
Subject: [PATCH 092/139] fix: the output container task ends its streams when
 it is stopped

---
 streamtasks/system/tasks/media/outputcontainer.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/streamtasks/system/tasks/media/outputcontainer.py b/streamtasks/system/tasks/media/outputcontainer.py
index b9362e2..db69696 100644
--- a/streamtasks/system/tasks/media/outputcontainer.py
+++ b/streamtasks/system/tasks/media/outputcontainer.py
@@ -145,6 +145,7 @@ class OutputContainerTask(Task):
         await self.client.stop_wait()
 
       container: OutputContainer | None = None
+      tasks: list[asyncio.Task] = []
       container = await OutputContainer.open(destination, **self.config.container_options)
       streams: dict[int, AVOutputStream] = {}
       streams.update({ cfg.in_topic: container.add_video_stream(cfg.to_codec_info()) for cfg in self.config.video_tracks })
@@ -153,11 +154,12 @@ class OutputContainerTask(Task):
       tasks = [ asyncio.create_task(self._run_stream(stream, in_topic_id)) for in_topic_id, stream in streams.items() ]
       # TODO add barrier here
       self.client.start()
-      done, pending = await asyncio.wait(tasks, return_when="FIRST_EXCEPTION")
-      for t in pending: t.cancel()
+      done, _ = await asyncio.wait(tasks, return_when="FIRST_EXCEPTION")
       for t in done: await t
     except asyncio.CancelledError: pass
     finally:
+      for t in tasks: t.cancel()
+      await asyncio.gather(*tasks, return_exceptions=True)
       if container is not None: await container.close()
 
 class OutputContainerTaskHost(TaskHost):
-- 
2.43.0


From 9322e5d4adbd39af233bdea514a50b1514ae5400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:51 +0000
Subject: [PATCH 093/139] fix: function tasks can take a timestamp

---
 streamtasks/system/fntask.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/streamtasks/system/fntask.py b/streamtasks/system/fntask.py
index 86b52a4..d9b8efd 100644
--- a/streamtasks/system/fntask.py
+++ b/streamtasks/system/fntask.py
@@ -331,7 +331,7 @@ class FnTaskConfig:
     if "config" in params: config_type = params.pop("config").annotation
     if "state" in params: state_type = params.pop("state").annotation
     if "timestamp" in params:
-      if not typing.get_origin(params.pop("timestamp").annotation) is int: raise ValueError("timestamp must be of type int!")
+      if params.pop("timestamp").annotation is not int: raise ValueError("timestamp must be of type int!")
       has_timestamp = True
 
     inputs = [ FnTaskInputConfig.from_parameter(param) for param in params.values() ]
-- 
2.43.0


From e59a3b70de48d84dfec8f31d6e9586643a0ccbbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:51 +0000
Subject: [PATCH 094/139] fix: the state type of a function task is validated
 instead of its config type

---
 streamtasks/system/fntask.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/streamtasks/system/fntask.py b/streamtasks/system/fntask.py
index d9b8efd..d20737c 100644
--- a/streamtasks/system/fntask.py
+++ b/streamtasks/system/fntask.py
@@ -295,7 +295,7 @@ class FnTaskConfig:
         raise ValueError("The config class needs to have a constructor allowing the creation of an instance without any parameters.")
       self.config_type_adapter # make sure this can be created
 
-    if self.state_type is not None and not _validate_object_create_empty(self.config_type):
+    if self.state_type is not None and not _validate_object_create_empty(self.state_type):
       raise ValueError("The state class needs to have a constructor allowing the creation of an instance without any parameters.")
 
   async def execute(self, timestamp: int, params: dict[str, Any], state: Any, config: Any) -> tuple:
-- 
2.43.0


From 9fdc538ad2468e43524c097b8d8688fb357dbede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:51 +0000
Subject: [PATCH 095/139] fix: function tasks without outputs can return

---
 streamtasks/system/fntask.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/streamtasks/system/fntask.py b/streamtasks/system/fntask.py
index d20737c..18fb30f 100644
--- a/streamtasks/system/fntask.py
+++ b/streamtasks/system/fntask.py
@@ -312,6 +312,7 @@ class FnTaskConfig:
       if self.thread_safe: result = await loop.run_in_executor(None, fn)
       else: result = fn()
 
+    if len(self.outputs) == 0: return ()
     if isinstance(result, tuple): return result
     else: return (result,)
 
-- 
2.43.0


From 6af4796f1c11803f0b8da292e07001262ddf7db3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:51 +0000
Subject: [PATCH 096/139] fix: the config of a function task can be a pydantic
 model

---
 streamtasks/system/fntask.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/streamtasks/system/fntask.py b/streamtasks/system/fntask.py
index 18fb30f..2d04f14 100644
--- a/streamtasks/system/fntask.py
+++ b/streamtasks/system/fntask.py
@@ -67,8 +67,10 @@ def _pydantic_type_from_schema(schema: dict):
 def _pydantic_schema_to_editor_fields(schema: dict):
   fields = []
   inner_schema = schema.get("schema", {})
-  for field in inner_schema.get("fields", []):
-    field_name = field["name"]
+  inner_fields = inner_schema.get("fields", [])
+  # NOTE: the fields of models are a dict by name, the fields of dataclasses a list
+  named_fields = inner_fields.items() if isinstance(inner_fields, dict) else [ (field["name"], field) for field in inner_fields ]
+  for field_name, field in named_fields:
     field_type_name = _pydantic_type_from_schema(field)
     if field_type_name == "int": fields.append(EditorFields.number(field_name, is_int=True))
     if field_type_name == "float": fields.append(EditorFields.number(field_name))
-- 
2.43.0


From 66eb467d768dc4b7956a9155c2fa912311ce5bf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:51 +0000
Subject: [PATCH 097/139] fix: every type that can be created empty is a state
 or config type

---
 streamtasks/system/fntask.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/streamtasks/system/fntask.py b/streamtasks/system/fntask.py
index 2d04f14..00c608f 100644
--- a/streamtasks/system/fntask.py
+++ b/streamtasks/system/fntask.py
@@ -55,8 +55,9 @@ _DATA_TO_VALUE: dict[type, Callable[[Any], tuple[int, Any]]] = {
 }
 
 def _validate_object_create_empty(obj_type: type[object]):
-  sig = inspect.signature(obj_type)
-  return all(p.default is not inspect._empty for name, p in sig.parameters.items() if name != "self")
+  try: sig = inspect.signature(obj_type)
+  except ValueError: return True # NOTE: some builtin types have no signature
+  return all(p.default is not inspect._empty or p.kind in (p.VAR_POSITIONAL, p.VAR_KEYWORD) for name, p in sig.parameters.items() if name != "self")
 def _input_name_to_input_key(name: str): return "_in_tid_" + name
 def _output_index_to_input_key(idx: int): return "_out_tid_" + str(idx)
 def _validate_io_type(t: type):
-- 
2.43.0


From c310affb5926b7fc6abaf0621c723c848654b18e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:28 +0000
Subject: [PATCH 098/139] fix: invalid urls are refused by the connection
 manager before they are stored

---
 streamtasks/system/connection_manager.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/streamtasks/system/connection_manager.py b/streamtasks/system/connection_manager.py
index 2a309ba..cf118b7 100644
--- a/streamtasks/system/connection_manager.py
+++ b/streamtasks/system/connection_manager.py
@@ -10,7 +10,7 @@ from typing import Generic, TypeVar
 from pydantic import BaseModel, TypeAdapter, ValidationError
 from streamtasks.asgi import ASGIAppRunner, asgi_default_http_error_handler
 from streamtasks.asgiserver import ASGIRouter, ASGIServer, HTTPContext, WebsocketContext, http_context_handler, websocket_context_handler
-from streamtasks.connection import AutoReconnector, ServerBase, connect, create_server
+from streamtasks.connection import AutoReconnector, ServerBase, connect, create_server, extract_connection_data_from_url
 from streamtasks.env import NODE_NAME, get_data_sub_dir
 from streamtasks.net import EndpointOrAddress
 from streamtasks.services.constants import NetworkAddressNames
@@ -46,7 +46,7 @@ class UrlData(Generic[T]):
     if len(purl.scheme) == 0: return self.url
     return urllib.parse.urlunparse(urllib.parse.ParseResult(
       scheme=purl.scheme,
-      netloc=(purl.hostname or "") + (":" + str(purl.port) if purl.port else ""),
+      netloc=purl.netloc.rpartition("@")[2],
       path=purl.path,
       params="",
       query="",
@@ -215,6 +215,7 @@ class ConnectionManager(TaskWebPathHandler):
     await ASGIAppRunner(self.client, app).run()
 
   async def create_connection_url_data(self, url: str):
+    extract_connection_data_from_url(url) # raises if the url is invalid
     w = AutoReconnector(connect_fn=functools.partial(connect, url=url))
     await self.switch.add_link(await w.create_link())
     return ConnectionUrlData(url=url, worker=w, change_trigger=self._change_trigger_connections)
-- 
2.43.0


From b3d4086fcecab310f8867823d451f9b84b61a05c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:28 +0000
Subject: [PATCH 099/139] fix: the connection manager stops its servers

---
 streamtasks/system/connection_manager.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/streamtasks/system/connection_manager.py b/streamtasks/system/connection_manager.py
index cf118b7..4d36fa5 100644
--- a/streamtasks/system/connection_manager.py
+++ b/streamtasks/system/connection_manager.py
@@ -125,7 +125,7 @@ class ConnectionManager(TaskWebPathHandler):
       for url_data in itertools.chain(self._connection_url_data, self._server_url_data): url_data.start()
       await self.run_web_server()
     finally:
-      for data in itertools.chain(self._connection_url_data, self._connection_url_data): await data.stop()
+      for data in itertools.chain(self._connection_url_data, self._server_url_data): await data.stop()
 
   async def run_web_server(self):
     app = ASGIServer()
-- 
2.43.0


From bdff9795aa02d41bec57a06754cd4257b45bed1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:28 +0000
Subject: [PATCH 100/139] fix: failed servers and connections can be listed and
 removed

---
 streamtasks/system/connection_manager.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/streamtasks/system/connection_manager.py b/streamtasks/system/connection_manager.py
index 4d36fa5..e41c4e2 100644
--- a/streamtasks/system/connection_manager.py
+++ b/streamtasks/system/connection_manager.py
@@ -4,6 +4,7 @@ import functools
 import hashlib
 import itertools
 import json
+import logging
 import os
 import re
 from typing import Generic, TypeVar
@@ -59,8 +60,14 @@ class UrlData(Generic[T]):
   def start(self):
     if self.task is not None: return
     self.task = asyncio.create_task(self.run())
+    self.task.add_done_callback(lambda _: self.change_trigger.trigger())
+
+  async def run(self):
+    change_task = asyncio.create_task(self.change_handler())
+    try: await self.worker.run()
+    except Exception as e: logging.error(f"connection worker failed: {e!r}")
+    finally: change_task.cancel()
 
-  async def run(self): await asyncio.gather(self.worker.run(), self.change_handler())
   async def stop(self):
     if self.task is None: return None
     self.task.cancel()
-- 
2.43.0


From aeb199267685b6d50dfb022fc88558b9211cd2cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:28 +0000
Subject: [PATCH 101/139] fix: refused duplicates leave no link in the
 connection manager

---
 streamtasks/system/connection_manager.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/streamtasks/system/connection_manager.py b/streamtasks/system/connection_manager.py
index e41c4e2..16183c8 100644
--- a/streamtasks/system/connection_manager.py
+++ b/streamtasks/system/connection_manager.py
@@ -165,8 +165,8 @@ class ConnectionManager(TaskWebPathHandler):
     @http_context_handler
     async def _(ctx: HTTPContext):
       req = UrlCreateModel.model_validate_json(await ctx.receive_json_raw())
+      if any(True for connection in self._connection_url_data if connection.url == req.url): return await ctx.respond_status(400)
       data = await self.create_connection_url_data(req.url)
-      if any(True for connection in self._connection_url_data if connection.id == data.id): return await ctx.respond_status(400)
       data.start()
       self._connection_url_data.append(data)
       self.update_connection_urls()
@@ -191,8 +191,8 @@ class ConnectionManager(TaskWebPathHandler):
     @http_context_handler
     async def _(ctx: HTTPContext):
       req = UrlCreateModel.model_validate_json(await ctx.receive_json_raw())
+      if any(True for server in self._server_url_data if server.url == req.url): return await ctx.respond_status(400)
       data = await self.create_server_url_data(req.url)
-      if any(True for server in self._server_url_data if server.id == data.id): return await ctx.respond_status(400)
       data.start()
       self._server_url_data.append(data)
       self.update_server_urls()
-- 
2.43.0


From d4b84de0341f816d0862b39a8a912d0cb70db519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:28 +0000
Subject: [PATCH 102/139] fix: acknowledged connections and servers are written
 to the file

---
 streamtasks/system/connection_manager.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/streamtasks/system/connection_manager.py b/streamtasks/system/connection_manager.py
index 16183c8..558283f 100644
--- a/streamtasks/system/connection_manager.py
+++ b/streamtasks/system/connection_manager.py
@@ -103,7 +103,7 @@ class UrlCreateModel(BaseModel):
 class ConnectionManager(TaskWebPathHandler):
   def __init__(self, register_endpoits: list[EndpointOrAddress] = [NetworkAddressNames.TASK_MANAGER_WEB]):
     super().__init__(f"/connections/{get_url_node_name()}/", PathRegistrationFrontend(path="std:connectionmanager", label=f"Connections ({NODE_NAME()})"), register_endpoits)
-    self.db = dbm.open(os.path.join(get_data_sub_dir("user-data"), "connections.db"), flag="c")
+    self.open_db()
     self._connection_url_data: list[ConnectionUrlData] = []
     self._server_url_data: list[ServerUrlData] = []
     self._change_trigger_servers = AsyncTrigger()
@@ -111,12 +111,18 @@ class ConnectionManager(TaskWebPathHandler):
 
   def __del__(self): self.db.close()
 
+  def open_db(self): self.db = dbm.open(os.path.join(get_data_sub_dir("user-data"), "connections.db"), flag="c")
+  def sync_db(self): # not every kind of dbm can sync
+    self.db.close()
+    self.open_db()
+
   def get_connection_urls(self) -> list[str]:
     try: return URLListAdapter.validate_json(self.db.get("connection", b"[]"))
     except ValidationError: return []
 
   def update_connection_urls(self):
     self.db["connection"] = json.dumps([ data.url for data in self._connection_url_data ]).encode("utf-8")
+    self.sync_db()
 
   def get_server_urls(self) -> list[str]:
     try: return URLListAdapter.validate_json(self.db.get("server", b"[]"))
@@ -124,6 +130,7 @@ class ConnectionManager(TaskWebPathHandler):
 
   def update_server_urls(self):
     self.db["server"] = json.dumps([ data.url for data in self._server_url_data ]).encode("utf-8")
+    self.sync_db()
 
   async def run_inner(self):
     try:
-- 
2.43.0


From ecdba07e6b1a9db4e6306a2000b645dbbb0a7173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:28 +0000
Subject: [PATCH 103/139] fix: changes of connections during an announcement
 are announced

---
 streamtasks/system/connection_manager.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/streamtasks/system/connection_manager.py b/streamtasks/system/connection_manager.py
index 558283f..88576f7 100644
--- a/streamtasks/system/connection_manager.py
+++ b/streamtasks/system/connection_manager.py
@@ -206,13 +206,17 @@ class ConnectionManager(TaskWebPathHandler):
       await ctx.respond_json(data.to_json_data())
 
     async def _ws_server_change_handler(ctx: WebsocketContext, receive_disconnect_task: asyncio.Task):
+      changed = self._change_trigger_servers.wait()
       while ctx.connected:
-        await wait_with_dependencies(self._change_trigger_servers.wait(), [receive_disconnect_task])
+        await wait_with_dependencies(changed, [receive_disconnect_task])
+        changed = self._change_trigger_servers.wait() # changes while sending are announced too
         await ctx.send_message("server")
 
     async def _ws_connection_change_handler(ctx: WebsocketContext, receive_disconnect_task: asyncio.Task):
+      changed = self._change_trigger_connections.wait()
       while ctx.connected:
-        await wait_with_dependencies(self._change_trigger_connections.wait(), [receive_disconnect_task])
+        await wait_with_dependencies(changed, [receive_disconnect_task])
+        changed = self._change_trigger_connections.wait() # changes while sending are announced too
         await ctx.send_message("connection")
 
     @router.websocket_route("/on-change")
-- 
2.43.0


From 7117bf8ce9feea4fe19e0340f45140abb6e635e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:28 +0000
Subject: [PATCH 104/139] fix: websocket connections to IPv6 addresses

---
 streamtasks/connection.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/streamtasks/connection.py b/streamtasks/connection.py
index a1df621..000c315 100644
--- a/streamtasks/connection.py
+++ b/streamtasks/connection.py
@@ -52,7 +52,8 @@ class WebsocketConnectionData(NetworkConnectionData):
   @property
   def uri(self):
     scheme = "wss" if self.secure else "ws"
-    return f"{scheme}://{self.hostname}:{self.port}"
+    hostname = f"[{self.hostname}]" if ":" in self.hostname else self.hostname
+    return f"{scheme}://{hostname}:{self.port}"
 
 class AutoReconnector(Worker):
   def __init__(self, connect_fn: Callable[[], Awaitable[Link]], delay: float = 1):
-- 
2.43.0


From 35bcc5ffc14f87b2e0a0a5d485529d44f86a2940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:28 +0000
Subject: [PATCH 105/139] fix: node urls keep the case of the node name

---
 streamtasks/connection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/streamtasks/connection.py b/streamtasks/connection.py
index 000c315..79eb05f 100644
--- a/streamtasks/connection.py
+++ b/streamtasks/connection.py
@@ -317,7 +317,7 @@ def extract_connection_data_from_url(url: str | None):
 
   match purl.scheme:
     case "": return UnixConnectionData(path=get_node_socket_path(url), cost=DEFAULT_COSTS.NODE, handshake_data={})
-    case "node": return UnixConnectionData(path=get_node_socket_path(purl.hostname or None), cost=cost or DEFAULT_COSTS.NODE, handshake_data=handshake_data)
+    case "node": return UnixConnectionData(path=get_node_socket_path(purl.netloc.rpartition("@")[2] or None), cost=cost or DEFAULT_COSTS.NODE, handshake_data=handshake_data)
     case "unix": return UnixConnectionData(path=purl.path, cost=cost or DEFAULT_COSTS.UNIX, handshake_data=handshake_data)
     case "tcp": return TCPConnectionData(hostname=purl.hostname, port=purl.port, cost=cost or DEFAULT_COSTS.TCP, handshake_data=handshake_data)
     case "ws": return WebsocketConnectionData(hostname=purl.hostname, port=purl.port, cost=cost or DEFAULT_COSTS.WEBSOCKET, handshake_data=handshake_data, secure=False)
-- 
2.43.0


From 381634e66da11ce496de078f57c3955a8f569db0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:28 +0000
Subject: [PATCH 106/139] fix: connections that close while they are added are
 not counted forever

---
 streamtasks/connection.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/streamtasks/connection.py b/streamtasks/connection.py
index 79eb05f..2ef8361 100644
--- a/streamtasks/connection.py
+++ b/streamtasks/connection.py
@@ -230,6 +230,7 @@ class StreamServerBase(ServerBase):
       await self.switch.add_link(link)
       self.on_connected()
       link.on_closed.append(self.on_disconnected)
+      if link.closed: self.on_disconnected() # closed while it was added
     except BaseException as e: logging.warning(f"Failed to initialize connection. Error: {e}")
 
   async def serve(self, server: asyncio.Server):
@@ -273,6 +274,7 @@ class WebsocketServer(ServerBase):
       self.on_connected()
       link.on_closed.append(self.on_disconnected)
       link.on_closed.append(close_event.set)
+      if link.closed: return self.on_disconnected() # closed while it was added
       await close_event.wait()
     except BaseException as e: logging.warning(f"Failed to initialize connection. Error: {e}")
 
-- 
2.43.0


From 7dc377b9027396f10946772a9e9e9e34834d26d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:24 +0000
Subject: [PATCH 107/139] fix: connections being set up do not outlive their
 server

---
 streamtasks/connection.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/streamtasks/connection.py b/streamtasks/connection.py
index 2ef8361..b6c34a1 100644
--- a/streamtasks/connection.py
+++ b/streamtasks/connection.py
@@ -222,7 +222,14 @@ class ServerBase(Worker):
     self._connection_count_trigger.trigger()
 
 class StreamServerBase(ServerBase):
+  def __init__(self, cost: int, handshake_data: dict):
+    super().__init__(cost, handshake_data)
+    self._connecting_tasks: set[asyncio.Task] = set()
+
   async def on_connection(self, reader: asyncio.StreamReader, writer: asyncio.StreamWriter):
+    if not self.running: return writer.close()
+    task = asyncio.current_task()
+    self._connecting_tasks.add(task)
     try:
       connection = RawStreamConnection(reader, writer)
       await connection.init_server(self.handshake_data)
@@ -232,10 +239,13 @@ class StreamServerBase(ServerBase):
       link.on_closed.append(self.on_disconnected)
       if link.closed: self.on_disconnected() # closed while it was added
     except BaseException as e: logging.warning(f"Failed to initialize connection. Error: {e}")
+    finally: self._connecting_tasks.discard(task)
 
   async def serve(self, server: asyncio.Server):
     try: await asyncio.Future()
-    finally: server.close() # the open connections are closed by the shutdown, waiting for them here would never end
+    finally:
+      server.close() # the open connections are closed by the shutdown, waiting for them here would never end
+      for task in self._connecting_tasks: task.cancel() # would be added after the shutdown
 
 class RawWebsocketConnection(RawConnection):
   def __init__(self, socket: websockets.WebSocketCommonProtocol) -> None:
-- 
2.43.0


From 469942781d0b8f79bd12c18adbfdde97e853df94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:30 +0000
Subject: [PATCH 108/139] fix: a task host that registers again is served as
 registered

---
 streamtasks/system/task_web.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/streamtasks/system/task_web.py b/streamtasks/system/task_web.py
index 3a119a4..930edf6 100644
--- a/streamtasks/system/task_web.py
+++ b/streamtasks/system/task_web.py
@@ -209,7 +209,6 @@ class TaskWebBackend(Worker):
     super().__init__()
     self.task_manager_address_name = task_manager_address_name
     self.address_name = address_name
-    self.task_host_asgi_handlers: dict[str, ASGIHandler] = {}
     self.task_asgi_handlers: dict[UUID4, ASGIHandler] = {}
     self.deployment_task_listeners: dict[UUID4, asyncio.Task] = {}
     self.deployment_locks: dict[UUID4, asyncio.Lock] = {}
@@ -510,10 +509,8 @@ class TaskWebBackend(Worker):
           yield (task_id, task_instance)
 
   async def get_task_host_asgi_handler(self, id: str) -> ASGIHandler:
-    if (router := self.task_host_asgi_handlers.get(id, None)) is None:
-      reg: TaskHostRegistration = await self.tm_client.get_task_host(id)
-      self.task_host_asgi_handlers[id] = router = self._metadata_to_router(reg.metadata)
-    return router
+    reg: TaskHostRegistration = await self.tm_client.get_task_host(id)
+    return self._metadata_to_router(reg.metadata)
 
   async def get_task_asgi_handler(self, id: UUID4) -> ASGIHandler:
     if (router := self.task_asgi_handlers.get(id, None)) is None:
-- 
2.43.0


From 0a67f978c899a1f853d17e9425a3ecf978b03d72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:30 +0000
Subject: [PATCH 109/139] fix: pages of a task requested before its start do
 not stay empty

---
 streamtasks/system/task_web.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/streamtasks/system/task_web.py b/streamtasks/system/task_web.py
index 930edf6..026dcbd 100644
--- a/streamtasks/system/task_web.py
+++ b/streamtasks/system/task_web.py
@@ -209,7 +209,6 @@ class TaskWebBackend(Worker):
     super().__init__()
     self.task_manager_address_name = task_manager_address_name
     self.address_name = address_name
-    self.task_asgi_handlers: dict[UUID4, ASGIHandler] = {}
     self.deployment_task_listeners: dict[UUID4, asyncio.Task] = {}
     self.deployment_locks: dict[UUID4, asyncio.Lock] = {}
     self.path_registrations: list[PathRegistration] = []
@@ -513,10 +512,8 @@ class TaskWebBackend(Worker):
     return self._metadata_to_router(reg.metadata)
 
   async def get_task_asgi_handler(self, id: UUID4) -> ASGIHandler:
-    if (router := self.task_asgi_handlers.get(id, None)) is None:
-      reg: TaskInstance = await self.tm_client.get_task(id)
-      self.task_asgi_handlers[id] = router = self._metadata_to_router(reg.metadata)
-    return router
+    reg: TaskInstance = await self.tm_client.get_task(id)
+    return self._metadata_to_router(reg.metadata)
 
   def _metadata_to_router(self, metadata: MetadataDict) -> ASGIHandler:
     router = ASGIRouter()
-- 
2.43.0


From 83491b96ee17e23a536c8cd592be7d310f0d1399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:30 +0000
Subject: [PATCH 110/139] fix: task host updates are announced as ready only
 once they are received

---
 streamtasks/system/task_web.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/streamtasks/system/task_web.py b/streamtasks/system/task_web.py
index 026dcbd..cfc0cd9 100644
--- a/streamtasks/system/task_web.py
+++ b/streamtasks/system/task_web.py
@@ -409,9 +409,9 @@ class TaskWebBackend(Worker):
     async def _(ctx: WebsocketContext):
       try:
         await ctx.accept()
-        await ctx.send_message("HELLO!")
         receive_disconnect_task = asyncio.create_task(ctx.receive_disconnect())
         async with BroadcastReceiver[tuple[str, RawData]](self.client, [TaskConstants.BC_TASK_HOST_REGISTERED, TaskConstants.BC_TASK_HOST_UNREGISTERED], self.task_manager_address_name) as receiver:
+          await ctx.send_message("HELLO!") # from here on all updates will be received
           while ctx.connected:
             ns, data = await wait_with_dependencies(receiver.get(), [receive_disconnect_task])
             pdata = ModelWithStrId.model_validate(data.data, strict=False)
-- 
2.43.0


From 5dc74678902359a00784e1222348e2564c5e4a8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:53 +0000
Subject: [PATCH 111/139] fix: task instance updates are accepted only once
 they are received

---
 streamtasks/system/task_web.py | 39 ++++++++++++++++++----------------
 1 file changed, 21 insertions(+), 18 deletions(-)

diff --git a/streamtasks/system/task_web.py b/streamtasks/system/task_web.py
index cfc0cd9..1a9c5ed 100644
--- a/streamtasks/system/task_web.py
+++ b/streamtasks/system/task_web.py
@@ -423,18 +423,17 @@ class TaskWebBackend(Worker):
     @router.websocket_route("/deployment/{deployment_id}/task-instances")
     @websocket_context_handler
     async def _(ctx: WebsocketContext):
-      try:
-        await ctx.accept()
+      deployment = self.store.get_running_deployment(UUID(ctx.params.get("deployment_id", "")))
+      async with self.deployment_task_instance_updates(deployment) as receive_update:
+        await ctx.accept() # from here on all updates will be received
         receive_disconnect_task = asyncio.create_task(ctx.receive_disconnect())
-        deployment = self.store.get_running_deployment(UUID(ctx.params.get("deployment_id", "")))
-        update_generator = self.receive_deployment_task_instance_updates(deployment)
-        while ctx.connected:
-          task_id, task_instance = await wait_with_dependencies(anext(update_generator), [receive_disconnect_task])
-          await ctx.send_message(UpdateTaskInstanceMessage(id=task_id, task_instance=task_instance).model_dump_json())
-      finally:
-        receive_disconnect_task.cancel()
-        await update_generator.aclose()
-        await ctx.close()
+        try:
+          while ctx.connected:
+            task_id, task_instance = await wait_with_dependencies(receive_update(), [receive_disconnect_task])
+            await ctx.send_message(UpdateTaskInstanceMessage(id=task_id, task_instance=task_instance).model_dump_json())
+        finally:
+          receive_disconnect_task.cancel()
+          await ctx.close()
 
     @router.websocket_route("/topic/{topic_id}")
     @websocket_context_handler
@@ -495,17 +494,21 @@ class TaskWebBackend(Worker):
     self.store.delete_running_deployment(running_deployment.id)
 
   async def run_deployment_task_listener(self, deployment: RunningDeployment):
-    async for task_id, task_instance in self.receive_deployment_task_instance_updates(deployment):
-      deployment.task_instances[task_id] = task_instance
+    async with self.deployment_task_instance_updates(deployment) as receive_update:
+      while True:
+        task_id, task_instance = await receive_update()
+        deployment.task_instances[task_id] = task_instance
 
-  async def receive_deployment_task_instance_updates(self, deployment: RunningDeployment):
+  @asynccontextmanager
+  async def deployment_task_instance_updates(self, deployment: RunningDeployment):
     task_instance_ids = [ ti.id for ti in deployment.task_instances.values() ]
     task_instance_id_map = { ti.id: task_id for task_id, ti in deployment.task_instances.items() }
     async with self.tm_client.task_receiver(task_instance_ids) as receiver:
-      while True:
-        task_instance = await receiver.get()
-        if (task_id := task_instance_id_map.get(task_instance.id, None)) is not None:
-          yield (task_id, task_instance)
+      async def receive_update():
+        while True:
+          task_instance = await receiver.get()
+          if (task_id := task_instance_id_map.get(task_instance.id, None)) is not None: return task_id, task_instance
+      yield receive_update
 
   async def get_task_host_asgi_handler(self, id: str) -> ASGIHandler:
     reg: TaskHostRegistration = await self.tm_client.get_task_host(id)
-- 
2.43.0


From 6fdf4b3d4566e9df7d3ad5c25c72952d05b464b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:58 +0000
Subject: [PATCH 112/139] fix: tasks that end as soon as they are started are
 not shown as running forever

---
 streamtasks/system/task_web.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/streamtasks/system/task_web.py b/streamtasks/system/task_web.py
index 1a9c5ed..406ccb0 100644
--- a/streamtasks/system/task_web.py
+++ b/streamtasks/system/task_web.py
@@ -287,11 +287,15 @@ class TaskWebBackend(Worker):
         try:
           running_deployment.topic_space_id, _ = await register_topic_space(self.client, topic_ids)
           await gather_all(schedule_task(task) for task in tasks)
+
+          listening = asyncio.Event()
+          self.deployment_task_listeners[deployment_id] = asyncio.create_task(self.run_deployment_task_listener(running_deployment, listening))
+          self.deployment_task_listeners[deployment_id].add_done_callback(lambda _: listening.set())
+          await listening.wait() # tasks may end as soon as they are started
         except BaseException:
           await self.stop_deployment(running_deployment)
           raise
 
-        self.deployment_task_listeners[deployment_id] = asyncio.create_task(self.run_deployment_task_listener(running_deployment))
         await ctx.respond_json_string((await self.store.get_deployment(deployment_id)).model_dump_json())
 
     @router.post("/api/deployment/{id}/start")
@@ -493,8 +497,9 @@ class TaskWebBackend(Worker):
     if (listener_task := self.deployment_task_listeners.pop(running_deployment.id, None)) is not None: listener_task.cancel()
     self.store.delete_running_deployment(running_deployment.id)
 
-  async def run_deployment_task_listener(self, deployment: RunningDeployment):
+  async def run_deployment_task_listener(self, deployment: RunningDeployment, listening: asyncio.Event):
     async with self.deployment_task_instance_updates(deployment) as receive_update:
+      listening.set()
       while True:
         task_id, task_instance = await receive_update()
         deployment.task_instances[task_id] = task_instance
-- 
2.43.0


From 107c9aa559e98744bed6e0a99544f49ebcb62f84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:13 +0000
Subject: [PATCH 113/139] fix: the media switch continues an input with a
 keyframe after leaving packets out

---
 streamtasks/system/tasks/media/mediaswitch.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/streamtasks/system/tasks/media/mediaswitch.py b/streamtasks/system/tasks/media/mediaswitch.py
index 1e062a7..e1d4ddd 100644
--- a/streamtasks/system/tasks/media/mediaswitch.py
+++ b/streamtasks/system/tasks/media/mediaswitch.py
@@ -25,6 +25,8 @@ class MediaSwitchTask(SwitchTask):
             except ValidationError: pass
           if idx == self._active_index:
             await self.out_topic.send(data)
+      elif idx == self._active_index and not isinstance(data, TopicControlData):
+        self._active_index = -1 # packets are missing, continue with the next keyframe
 
 class MediaSwitchTaskHost(TaskHost):
   @property
-- 
2.43.0


From b988e697d313aac53c51cb28d91a6c9b5ba6afe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:37 +0000
Subject: [PATCH 114/139] fix: pages of ui tasks are sent values that change
 while another value is being sent

---
 streamtasks/system/tasks/ui/controlbase.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/streamtasks/system/tasks/ui/controlbase.py b/streamtasks/system/tasks/ui/controlbase.py
index 30172f6..3d7ff85 100644
--- a/streamtasks/system/tasks/ui/controlbase.py
+++ b/streamtasks/system/tasks/ui/controlbase.py
@@ -86,11 +86,13 @@ class UIBaseTask(Task, Generic[C, V]):
     @router.websocket_route("/value")
     @websocket_context_handler
     async def _(ctx: WebsocketContext):
+      value_changed = self.wait_value_changed()
+      await ctx.accept()
+      receive_disconnect_task = asyncio.create_task(ctx.receive_disconnect())
       try:
-        await ctx.accept()
-        receive_disconnect_task = asyncio.create_task(ctx.receive_disconnect())
         while ctx.connected:
-          await wait_with_dependencies(self.wait_value_changed(), [receive_disconnect_task])
+          await wait_with_dependencies(value_changed, [receive_disconnect_task])
+          value_changed = self.wait_value_changed()
           await ctx.send_message(self._value.model_dump_json())
       finally:
         receive_disconnect_task.cancel()
-- 
2.43.0


From 260e819135d69902b925086198b1a80a6ab07b98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:37 +0000
Subject: [PATCH 115/139] fix: controls send values that are set while another
 value is being sent

---
 streamtasks/system/tasks/ui/controlbase.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/streamtasks/system/tasks/ui/controlbase.py b/streamtasks/system/tasks/ui/controlbase.py
index 3d7ff85..084373b 100644
--- a/streamtasks/system/tasks/ui/controlbase.py
+++ b/streamtasks/system/tasks/ui/controlbase.py
@@ -114,8 +114,9 @@ class UIControlBaseTask(UIBaseTask[C2, V]):
 
   async def run_other(self) -> AsyncContextManager:
     while True:
+      value_changed = self.wait_value_changed()
       await self.send_value(self._value)
       try:
-        if self.config.repeat_interval > 0: await asyncio.wait_for(self.wait_value_changed(), self.config.repeat_interval)
-        else: await self.wait_value_changed()
+        if self.config.repeat_interval > 0: await asyncio.wait_for(value_changed, self.config.repeat_interval)
+        else: await value_changed
       except asyncio.TimeoutError: pass
-- 
2.43.0


From 8ebcda3b7c93d8ff1d1467dc7f6347fecec2f68b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:37 +0000
Subject: [PATCH 116/139] fix: the value of a ui task is valid json if it is
 not a finite number

---
 streamtasks/system/tasks/ui/controlbase.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/streamtasks/system/tasks/ui/controlbase.py b/streamtasks/system/tasks/ui/controlbase.py
index 084373b..8682e2d 100644
--- a/streamtasks/system/tasks/ui/controlbase.py
+++ b/streamtasks/system/tasks/ui/controlbase.py
@@ -71,7 +71,7 @@ class UIBaseTask(Task, Generic[C, V]):
 
     @router.get("/value")
     @http_context_handler
-    async def _(ctx: HTTPContext): await ctx.respond_json(self._value.model_dump())
+    async def _(ctx: HTTPContext): await ctx.respond_json_string(self._value.model_dump_json())
 
     @router.get("/config")
     @http_context_handler
-- 
2.43.0


From 9cd753934584dc10add1c2faeeb6e3b061d31eda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:51 +0000
Subject: [PATCH 117/139] fix: a text display with a maximum length of 0 does
 not collect text without limit

---
 streamtasks/system/tasks/ui/textdisplay.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/streamtasks/system/tasks/ui/textdisplay.py b/streamtasks/system/tasks/ui/textdisplay.py
index a39065f..6d5ae2f 100644
--- a/streamtasks/system/tasks/ui/textdisplay.py
+++ b/streamtasks/system/tasks/ui/textdisplay.py
@@ -37,7 +37,7 @@ class TextDisplayTask(UIBaseTask[TextDisplayConfig, TextDisplayValue]):
         message = TextMessage.model_validate(data.data)
         if self.config.append: new_text = self.value.value + self.config.seperator + message.value
         else: new_text = message.value
-        if self.config.max_length != -1: new_text = new_text[-self.config.max_length:]
+        if self.config.max_length != -1: new_text = new_text[max(0, len(new_text) - self.config.max_length):]
         self.value = TextDisplayValue(value=new_text)
       except ValidationError: pass
 
-- 
2.43.0


From f5c22139850d224bc2c6dcca195917fd6446feb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:51 +0000
Subject: [PATCH 118/139] fix: frequency displays do not end if the bin size
 does not divide the number of frequencies

---
 streamtasks/system/tasks/ui/audiofrequencydisplay.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/streamtasks/system/tasks/ui/audiofrequencydisplay.py b/streamtasks/system/tasks/ui/audiofrequencydisplay.py
index a941a01..5da5379 100644
--- a/streamtasks/system/tasks/ui/audiofrequencydisplay.py
+++ b/streamtasks/system/tasks/ui/audiofrequencydisplay.py
@@ -45,7 +45,7 @@ class AudioFrequencyDisplayTask(UIBaseTask[AudioFrequencyDisplayConfig, AudioFre
         for chunk, _ in chunker.next(new_samples, 0):
           freqs = np.abs(np.fft.fft(chunk)[:chunk.size // 2])
           expected_len = math.ceil(freqs.size / self.config.bin_size) * self.config.bin_size
-          freq_bins = np.pad(freqs, (expected_len - freqs.size)).reshape((-1, self.config.bin_size)).sum(-1)
+          freq_bins = np.pad(freqs, (0, expected_len - freqs.size)).reshape((-1, self.config.bin_size)).sum(-1)
           freq_bins = freq_bins / freq_bins.max()
           self.value = AudioFrequencyDisplayValue(freq_bins=list(freq_bins))
       except ValidationError: pass
-- 
2.43.0


From 63d221082eaf9121b8750af43f442c097164bf57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:51 +0000
Subject: [PATCH 119/139] fix: frequency displays show silence as silence

---
 streamtasks/system/tasks/ui/audiofrequencydisplay.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/streamtasks/system/tasks/ui/audiofrequencydisplay.py b/streamtasks/system/tasks/ui/audiofrequencydisplay.py
index 5da5379..a037522 100644
--- a/streamtasks/system/tasks/ui/audiofrequencydisplay.py
+++ b/streamtasks/system/tasks/ui/audiofrequencydisplay.py
@@ -46,7 +46,7 @@ class AudioFrequencyDisplayTask(UIBaseTask[AudioFrequencyDisplayConfig, AudioFre
           freqs = np.abs(np.fft.fft(chunk)[:chunk.size // 2])
           expected_len = math.ceil(freqs.size / self.config.bin_size) * self.config.bin_size
           freq_bins = np.pad(freqs, (0, expected_len - freqs.size)).reshape((-1, self.config.bin_size)).sum(-1)
-          freq_bins = freq_bins / freq_bins.max()
+          freq_bins = freq_bins / (freq_bins.max() or 1)
           self.value = AudioFrequencyDisplayValue(freq_bins=list(freq_bins))
       except ValidationError: pass
 
-- 
2.43.0


From 71e988ccabfd5ec55fe63686815c5b8bcdf43efc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:51 +0000
Subject: [PATCH 120/139] fix: web viewers show the configured url also if it
 contains characters with a meaning in html

---
 streamtasks/system/tasks/ui/webviewer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/streamtasks/system/tasks/ui/webviewer.py b/streamtasks/system/tasks/ui/webviewer.py
index 9e28f00..fc15712 100644
--- a/streamtasks/system/tasks/ui/webviewer.py
+++ b/streamtasks/system/tasks/ui/webviewer.py
@@ -1,3 +1,4 @@
+import html
 from typing import Any
 from pydantic import BaseModel
 from streamtasks.asgi import ASGIAppRunner, asgi_default_http_error_handler
@@ -34,7 +35,7 @@ def make_html(url: str):
     </style>
   </head>
   <body>
-    <iframe src="{url}" allowfullscreen></iframe>
+    <iframe src="{html.escape(url)}" allowfullscreen></iframe>
   </body>
   </html>
   """
-- 
2.43.0


From 7806cf7d9c44c77e1da600ed5272cd64ff3a3148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:10 +0000
Subject: [PATCH 121/139] fix: selecting a video decoder in the editor sets the
 decoder, not an unknown option

---
 streamtasks/system/tasks/media/videodecoder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/streamtasks/system/tasks/media/videodecoder.py b/streamtasks/system/tasks/media/videodecoder.py
index 6b590dc..4ccb65f 100644
--- a/streamtasks/system/tasks/media/videodecoder.py
+++ b/streamtasks/system/tasks/media/videodecoder.py
@@ -71,7 +71,7 @@ class VideoDecoderTaskHost(TaskHost):
     editor_fields=[
       MediaEditorFields.pixel_format("in_pixel_format", "input pixel format"),
       MediaEditorFields.pixel_format("out_pixel_format", "output pixel format"),
-      MediaEditorFields.video_codec("r", codec_key="decoder"),
+      MediaEditorFields.video_codec("r", coder_key="decoder"),
       MediaEditorFields.pixel_size("width"),
       MediaEditorFields.pixel_size("height"),
       MediaEditorFields.frame_rate(),
-- 
2.43.0


From e6e43d9e637dd4a10c27d7d386f4b918f96e2f28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:11 +0000
Subject: [PATCH 122/139] fix: a task host leaves only after its unregistration
 has arrived

---
 streamtasks/system/task.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/streamtasks/system/task.py b/streamtasks/system/task.py
index 809358b..873216b 100644
--- a/streamtasks/system/task.py
+++ b/streamtasks/system/task.py
@@ -185,6 +185,8 @@ class TaskHost(Worker):
   async def unregister(self, endpoint: EndpointOrAddress = NetworkAddressNames.TASK_MANAGER):
     self._registered_at_endpoints = [ ep for ep in self._registered_at_endpoints if ep!= endpoint ]
     await send_signal(self.client, endpoint, TaskConstants.SD_UNREGISTER_TASK_HOST, ModelWithStrId(id=self.id).model_dump())
+    try: await self.client.fetch(endpoint, TaskConstants.FD_TM_GET_TASK_HOST, ModelWithStrId(id=self.id).model_dump())
+    except FetchError: pass # once this is answered, everything sent before has arrived
 
   async def run(self):
     try:
-- 
2.43.0


From 6f0c88b42ab4037d9a6da6920b8f588ff4fb121c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:48 +0000
Subject: [PATCH 123/139] fix: a task host that does not answer no longer
 blocks the task manager for ever

---
 streamtasks/system/task.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/streamtasks/system/task.py b/streamtasks/system/task.py
index 873216b..8409744 100644
--- a/streamtasks/system/task.py
+++ b/streamtasks/system/task.py
@@ -385,8 +385,10 @@ class TaskManager(Worker):
           config=body.config
         )
 
-        task_start_result = await self.client.fetch(task_host.address, TaskConstants.FD_TASK_START, task_start_request.model_dump())
-        task_start_result: TaskStartResponse = TaskStartResponse.model_validate(task_start_result)
+        try:
+          task_start_result = await asyncio.wait_for(self.client.fetch(task_host.address, TaskConstants.FD_TASK_START, task_start_request.model_dump()), 10) # NOTE: the task host may be gone
+          task_start_result: TaskStartResponse = TaskStartResponse.model_validate(task_start_result)
+        except asyncio.TimeoutError: task_start_result = TaskStartResponse(id=task_instance.id, metadata={}, error="The task host did not respond!")
 
         task_instance.metadata=task_start_result.metadata
         if task_start_result.error is not None:
@@ -407,9 +409,10 @@ class TaskManager(Worker):
         task_inst = self.tasks[body.id]
         task_host = self.task_hosts[task_inst.host_id]
         tc_req = TaskCancelRequest(id=task_inst.id)
-        task_cancel_result = await self.client.fetch(task_host.address, TaskConstants.FD_TASK_CANCEL, tc_req.model_dump())
+        task_cancel_result = await asyncio.wait_for(self.client.fetch(task_host.address, TaskConstants.FD_TASK_CANCEL, tc_req.model_dump()), 10)
         if task_cancel_result != "OK": raise Exception("Failed to cancel task!")
         await req.respond("OK")
+      except asyncio.TimeoutError: await req.respond_error(new_fetch_body_general_error("The task host did not respond!"))
       except FetchError as e: await req.respond_error(e.body)
       except KeyError as e: await req.respond_error(new_fetch_body_not_found(str(e)))
       except ValidationError as e: await req.respond_error(new_fetch_body_bad_request(str(e)))
-- 
2.43.0


From 0eca561c55c6cb1ec1c421eb16d774a0e81ebcc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:10 +0000
Subject: [PATCH 124/139] fix: a request to an ASGI endpoint that is gone is
 answered with an error

---
 streamtasks/asgi.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/streamtasks/asgi.py b/streamtasks/asgi.py
index a676ef9..d32ece8 100644
--- a/streamtasks/asgi.py
+++ b/streamtasks/asgi.py
@@ -203,10 +203,10 @@ class ASGIProxyApp:
     port = self._client.get_free_port()
     receiver = ASGIEventReceiver(self._client, port)
     async with receiver: # NOTE: must be enabled before sending init message, otherwise events will be lost
-      init_respose_raw = await self._client.fetch(self._remote_endpoint, ASGIConstants.FD_DESCRIPTOR, ASGIInitRequest(
+      init_respose_raw = await asyncio.wait_for(self._client.fetch(self._remote_endpoint, ASGIConstants.FD_DESCRIPTOR, ASGIInitRequest(
         address=self._client.address,
         port=port,
-        scope=ser_scope).model_dump())
+        scope=ser_scope).model_dump()), 10) # NOTE: the remote may be gone
       init_respose = ASGIInitResponse.model_validate(init_respose_raw)
 
       sender = ASGIEventSender(self._client, (self._remote_endpoint[0], init_respose.port))
-- 
2.43.0


From b1a0219c01acb11df662626a7fa80f7824ebfe0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:51 +0000
Subject: [PATCH 125/139] fix: a named output takes over a topic that an
 earlier one has left paused

---
 streamtasks/system/tasks/namedoutput.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/streamtasks/system/tasks/namedoutput.py b/streamtasks/system/tasks/namedoutput.py
index 6613579..386f807 100644
--- a/streamtasks/system/tasks/namedoutput.py
+++ b/streamtasks/system/tasks/namedoutput.py
@@ -31,6 +31,7 @@ class NamedOutputTask(Task):
     out_topic = self.client.out_topic(NamedTopicResolvedResponseModel.model_validate(response).topic)
 
     async with self.in_topic, self.in_topic.RegisterContext(), out_topic, out_topic.RegisterContext():
+      await self.client.send_stream_control(out_topic.topic, TopicControlData(paused=out_topic.is_paused)) # NOTE: an earlier output may have left it paused
       while True:
         data = await self.in_topic.recv_data_control()
         if isinstance(data, TopicControlData): await out_topic.set_paused(data.paused)
-- 
2.43.0


From c59e118b81753aa24e227d1c5f419a8e59930e24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:04 +0000
Subject: [PATCH 126/139] fix: screen capture takes the configured size
 wherever it starts

---
 streamtasks/system/tasks/media/screencapture.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/streamtasks/system/tasks/media/screencapture.py b/streamtasks/system/tasks/media/screencapture.py
index ed58ffd..2ab3d05 100644
--- a/streamtasks/system/tasks/media/screencapture.py
+++ b/streamtasks/system/tasks/media/screencapture.py
@@ -45,7 +45,7 @@ class ScreenCaptureTask(SyncTask):
       while not self.stop_event.is_set():
         wait_dur = ((frame_count + 1) * frame_time + start_time) - time.time()
         if wait_dur > 0: time.sleep(wait_dur)
-        img = sct.grab((self.config.left_offset, self.config.top_offset, self.config.width, self.config.height))
+        img = sct.grab((self.config.left_offset, self.config.top_offset, self.config.left_offset + self.config.width, self.config.top_offset + self.config.height))
         if self.config.set_alpha != 0:
           arr = np.ndarray((self.config.height* self.config.width, 4), dtype=np.uint8, buffer=memoryview(img.raw))
           arr[:,3] = self.config.set_alpha
-- 
2.43.0


From e50ee4e168e50d07baa9a888b37282956c275c29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:04 +0000
Subject: [PATCH 127/139] fix: u8 audio is recorded and played as unsigned
 samples

---
 streamtasks/system/tasks/media/pa_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/streamtasks/system/tasks/media/pa_utils.py b/streamtasks/system/tasks/media/pa_utils.py
index 5934564..ea11766 100644
--- a/streamtasks/system/tasks/media/pa_utils.py
+++ b/streamtasks/system/tasks/media/pa_utils.py
@@ -1,6 +1,6 @@
 SAMPLE_FORMAT_2_PA_TYPE: dict[str, int] = {
   "flt": "float32",
-  "u8": "int8",
+  "u8": "uint8",
   "s16": "int16",
   "s32": "int32",
 }
-- 
2.43.0


From 4ec84a89ddac8b9cecc8dc0f4cbf951a3d44eae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:04 +0000
Subject: [PATCH 128/139] fix: audio output survives malformed audio

---
 streamtasks/system/tasks/media/audiooutput.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/streamtasks/system/tasks/media/audiooutput.py b/streamtasks/system/tasks/media/audiooutput.py
index 5eebf72..cd2f8e5 100644
--- a/streamtasks/system/tasks/media/audiooutput.py
+++ b/streamtasks/system/tasks/media/audiooutput.py
@@ -57,7 +57,7 @@ class AudioOutputTask(SyncTask):
         try:
           message = self.message_queue.get(timeout=0.5)
           stream.write(message.data)
-        except queue.Empty: pass
+        except (queue.Empty, ValueError): pass
     finally: stream.close()
 
 class AudioOutputTaskHost(TaskHost):
-- 
2.43.0


From a51bc630f94f2fc7c66d29106df30c62488e2e96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:04 +0000
Subject: [PATCH 129/139] fix: a failing audio input closes its stream

---
 streamtasks/system/tasks/media/audioinput.py | 22 ++++++++++----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/streamtasks/system/tasks/media/audioinput.py b/streamtasks/system/tasks/media/audioinput.py
index f2d3781..d000acd 100644
--- a/streamtasks/system/tasks/media/audioinput.py
+++ b/streamtasks/system/tasks/media/audioinput.py
@@ -44,18 +44,18 @@ class AudioInputTask(SyncTask):
       device=device,
       channels=self.config.channels,
       dtype=SAMPLE_FORMAT_2_PA_TYPE[self.config.sample_format])
-    stream.start()
-    min_next_timestamp = 0
+    try:
+      stream.start()
+      min_next_timestamp = 0
 
-    while not self.stop_event.is_set():
-      data, _ = stream.read(self.config.buffer_size)
-      data = bytes(data)
-      timestamp = max(get_timestamp_ms(), min_next_timestamp)
-      frame_duration = len(data) * 1000 // self.bytes_per_second
-      min_next_timestamp = timestamp + frame_duration
-      self.send_data(self.out_topic, RawData(TimestampChuckMessage(timestamp=timestamp, data=data).model_dump()))
-
-    stream.close()
+      while not self.stop_event.is_set():
+        data, _ = stream.read(self.config.buffer_size)
+        data = bytes(data)
+        timestamp = max(get_timestamp_ms(), min_next_timestamp)
+        frame_duration = len(data) * 1000 // self.bytes_per_second
+        min_next_timestamp = timestamp + frame_duration
+        self.send_data(self.out_topic, RawData(TimestampChuckMessage(timestamp=timestamp, data=data).model_dump()))
+    finally: stream.close()
 
 class AudioInputTaskHost(TaskHost):
   @property
-- 
2.43.0


From 74f5bf7eb7e9ecb0929eff276cb8ee5d5ca75675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:04 +0000
Subject: [PATCH 130/139] fix: audio models survive malformed audio

---
 streamtasks/system/tasks/inference/asrspeechrecognition.py      | 2 +-
 streamtasks/system/tasks/inference/smespeechenhancement.py      | 2 +-
 streamtasks/system/tasks/inference/waveformspeechenhancement.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/streamtasks/system/tasks/inference/asrspeechrecognition.py b/streamtasks/system/tasks/inference/asrspeechrecognition.py
index 4465e7f..4090566 100644
--- a/streamtasks/system/tasks/inference/asrspeechrecognition.py
+++ b/streamtasks/system/tasks/inference/asrspeechrecognition.py
@@ -66,7 +66,7 @@ class ASRSpeechRecognitionTask(SyncTask):
             samples = torch.from_numpy(chunk.reshape((1, -1)).copy())
             result: list[str] = model.transcribe_chunk(streaming_context, samples)
             if len(result[0]) > 0: self.send_data(self.out_topic, RawData(TextMessage(timestamp=timestamp, value=result[0].lower()).model_dump()))
-        except queue.Empty: pass
+        except (queue.Empty, ValueError): pass
     finally:
       if model: del model
 
diff --git a/streamtasks/system/tasks/inference/smespeechenhancement.py b/streamtasks/system/tasks/inference/smespeechenhancement.py
index 8568a61..8a2af3d 100644
--- a/streamtasks/system/tasks/inference/smespeechenhancement.py
+++ b/streamtasks/system/tasks/inference/smespeechenhancement.py
@@ -70,7 +70,7 @@ class SMESpeechEnhancementTask(SyncTask):
           result = result * (np.abs(chunk).mean() / result.abs().mean().item()) # scale to prevent volume changes
           out_samples: np.ndarray = chunker.strip_padding(decracker.smooth(result.cpu().numpy()))
           self.send_data(self.out_topic, RawData(TimestampChuckMessage(timestamp=timestamp, data=out_samples.tobytes("C")).model_dump()))
-      except queue.Empty: pass
+      except (queue.Empty, ValueError): pass
 
 class SMESpeechEnhancementTaskHost(TaskHost):
   @property
diff --git a/streamtasks/system/tasks/inference/waveformspeechenhancement.py b/streamtasks/system/tasks/inference/waveformspeechenhancement.py
index 85fb21a..b260086 100644
--- a/streamtasks/system/tasks/inference/waveformspeechenhancement.py
+++ b/streamtasks/system/tasks/inference/waveformspeechenhancement.py
@@ -70,7 +70,7 @@ class WaveformSpeechEnhancementTask(SyncTask):
           result = result * (np.abs(chunk).mean() / result.abs().mean().item()) # scale to prevent volume changes
           out_samples: np.ndarray = chunker.strip_padding(decracker.smooth(result.cpu().numpy()))
           self.send_data(self.out_topic, RawData(TimestampChuckMessage(timestamp=timestamp, data=out_samples.tobytes("C")).model_dump()))
-      except queue.Empty: pass
+      except (queue.Empty, ValueError): pass
 
 class WaveformSpeechEnhancementTaskHost(TaskHost):
   @property
-- 
2.43.0


From 8cf994edbd97c399737d9a6fcb4fa9c22ce67443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:04 +0000
Subject: [PATCH 131/139] fix: enhanced silence is silence

---
 streamtasks/system/tasks/inference/smespeechenhancement.py     | 3 ++-
 .../system/tasks/inference/waveformspeechenhancement.py        | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/streamtasks/system/tasks/inference/smespeechenhancement.py b/streamtasks/system/tasks/inference/smespeechenhancement.py
index 8a2af3d..efd7c86 100644
--- a/streamtasks/system/tasks/inference/smespeechenhancement.py
+++ b/streamtasks/system/tasks/inference/smespeechenhancement.py
@@ -67,7 +67,8 @@ class SMESpeechEnhancementTask(SyncTask):
         for chunk, timestamp in chunker.next(audio_buffer_to_ndarray(message.data, "flt")[0], message.timestamp):
           samples = torch.from_numpy(chunk.reshape((1, -1)).copy())
           result: torch.Tensor = model.enhance_batch(samples, torch.tensor([1.])).flatten()
-          result = result * (np.abs(chunk).mean() / result.abs().mean().item()) # scale to prevent volume changes
+          volume = result.abs().mean().item()
+          if volume > 0: result = result * (np.abs(chunk).mean() / volume) # scale to prevent volume changes
           out_samples: np.ndarray = chunker.strip_padding(decracker.smooth(result.cpu().numpy()))
           self.send_data(self.out_topic, RawData(TimestampChuckMessage(timestamp=timestamp, data=out_samples.tobytes("C")).model_dump()))
       except (queue.Empty, ValueError): pass
diff --git a/streamtasks/system/tasks/inference/waveformspeechenhancement.py b/streamtasks/system/tasks/inference/waveformspeechenhancement.py
index b260086..cef7ccc 100644
--- a/streamtasks/system/tasks/inference/waveformspeechenhancement.py
+++ b/streamtasks/system/tasks/inference/waveformspeechenhancement.py
@@ -67,7 +67,8 @@ class WaveformSpeechEnhancementTask(SyncTask):
         for chunk, timestamp in chunker.next(audio_buffer_to_ndarray(message.data, "flt")[0], message.timestamp):
           samples = torch.from_numpy(chunk.reshape((1, -1)).copy())
           result: torch.Tensor = model.enhance_batch(samples, torch.tensor([1.])).flatten()
-          result = result * (np.abs(chunk).mean() / result.abs().mean().item()) # scale to prevent volume changes
+          volume = result.abs().mean().item()
+          if volume > 0: result = result * (np.abs(chunk).mean() / volume) # scale to prevent volume changes
           out_samples: np.ndarray = chunker.strip_padding(decracker.smooth(result.cpu().numpy()))
           self.send_data(self.out_topic, RawData(TimestampChuckMessage(timestamp=timestamp, data=out_samples.tobytes("C")).model_dump()))
       except (queue.Empty, ValueError): pass
-- 
2.43.0


From 4d6d93cbbd0f31f350c5e6c53c01c4e87d430f72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:05 +0000
Subject: [PATCH 132/139] fix: the sentences of a text are spoken one after
 another

---
 streamtasks/system/tasks/inference/fastspeech2tts.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/streamtasks/system/tasks/inference/fastspeech2tts.py b/streamtasks/system/tasks/inference/fastspeech2tts.py
index 3eef5fc..d040599 100644
--- a/streamtasks/system/tasks/inference/fastspeech2tts.py
+++ b/streamtasks/system/tasks/inference/fastspeech2tts.py
@@ -81,7 +81,7 @@ class FastSpeech2TTSTask(SyncTask):
         for sentence in split_sentences(message.value, 200):
           mel_output, _, _, _ = fastspeech2.encode_text([sentence], pace=self.config.pace, pitch_rate=self.config.pitch, energy_rate=1.0)
           samples: np.ndarray = hifi_gan.decode_batch(mel_output).cpu().numpy().flatten()
-          self.send_data(self.out_topic, RawData(TimestampChuckMessage(timestamp=message.timestamp, data=samples.tobytes("C")).model_dump()))
+          self.send_data(self.out_topic, RawData(TimestampChuckMessage(timestamp=int(current_timestamp), data=samples.tobytes("C")).model_dump()))
           current_timestamp += samples.size * 1000 / _SAMPLE_RATE
       except (queue.Empty, RuntimeError): pass
 
-- 
2.43.0


From 4585104bb6fcfb78b9a6dbb00265361f91b43d5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:05 +0000
Subject: [PATCH 133/139] fix: text to speech uses the configured energy

---
 streamtasks/system/tasks/inference/fastspeech2tts.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/streamtasks/system/tasks/inference/fastspeech2tts.py b/streamtasks/system/tasks/inference/fastspeech2tts.py
index d040599..3666f86 100644
--- a/streamtasks/system/tasks/inference/fastspeech2tts.py
+++ b/streamtasks/system/tasks/inference/fastspeech2tts.py
@@ -79,7 +79,7 @@ class FastSpeech2TTSTask(SyncTask):
         message = self.message_queue.get(timeout=0.5)
         current_timestamp = message.timestamp
         for sentence in split_sentences(message.value, 200):
-          mel_output, _, _, _ = fastspeech2.encode_text([sentence], pace=self.config.pace, pitch_rate=self.config.pitch, energy_rate=1.0)
+          mel_output, _, _, _ = fastspeech2.encode_text([sentence], pace=self.config.pace, pitch_rate=self.config.pitch, energy_rate=self.config.energy)
           samples: np.ndarray = hifi_gan.decode_batch(mel_output).cpu().numpy().flatten()
           self.send_data(self.out_topic, RawData(TimestampChuckMessage(timestamp=int(current_timestamp), data=samples.tobytes("C")).model_dump()))
           current_timestamp += samples.size * 1000 / _SAMPLE_RATE
-- 
2.43.0


From bf5e0247e0b6c2433a7479d07bba67582ed8a0d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:05 +0000
Subject: [PATCH 134/139] fix: the text renderer finds every font it offers

---
 streamtasks/system/tasks/media/textrenderer.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/streamtasks/system/tasks/media/textrenderer.py b/streamtasks/system/tasks/media/textrenderer.py
index ae500b5..0bc2255 100644
--- a/streamtasks/system/tasks/media/textrenderer.py
+++ b/streamtasks/system/tasks/media/textrenderer.py
@@ -16,7 +16,7 @@ from streamtasks.system.tasks.media.utils import MediaEditorFields
 from streamtasks.utils import context_task
 from PIL import Image, ImageDraw, ImageFont
 
-def list_ttf_files():
+def find_ttf_files() -> dict[str, str]:
     font_paths = {
       'Linux': [
         '/usr/share/fonts/**/*.ttf',
@@ -32,7 +32,9 @@ def list_ttf_files():
         os.path.expanduser('~/Library/Fonts/**/*.ttf')
       ]
     }
-    return [ os.path.basename(file) for pattern in font_paths.get(platform.system(), []) for file in glob.glob(pattern, recursive=True) ]
+    return { os.path.basename(file): file for pattern in font_paths.get(platform.system(), []) for file in glob.glob(pattern, recursive=True) }
+
+def list_ttf_files(): return list(find_ttf_files())
 
 class TextRendererConfigBase(BaseModel):
   pixel_format: IOTypes.PixelFormat = "rgba"
@@ -78,7 +80,7 @@ class TextRendererTask(SyncTask):
 
   def run_sync(self):
     pil_mode = pixel_format_to_pil_mode(self.config.pixel_format)
-    font = ImageFont.truetype(self.config.font, size=self.config.font_size)
+    font = ImageFont.truetype(find_ttf_files().get(self.config.font, self.config.font), size=self.config.font_size)
     while not self.stop_event.is_set():
       try:
         message = self.message_queue.get(timeout=0.5)
-- 
2.43.0


From 772a69e528c38da1cc0a3c569686afa08c74e5b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:22 +0000
Subject: [PATCH 135/139] fix: a container task can be stopped while it
 resolves its secret

---
 streamtasks/system/tasks/media/inputcontainer.py  | 4 ++--
 streamtasks/system/tasks/media/outputcontainer.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/streamtasks/system/tasks/media/inputcontainer.py b/streamtasks/system/tasks/media/inputcontainer.py
index bc5c0a9..71ebbb0 100644
--- a/streamtasks/system/tasks/media/inputcontainer.py
+++ b/streamtasks/system/tasks/media/inputcontainer.py
@@ -81,6 +81,8 @@ class InputContainerTask(Task):
     except EOFError: pass
 
   async def run(self):
+    container: InputContainer | None = None
+    tasks: list[asyncio.Task] = []
     try:
       source = self.config.source
       if self.config.source_secret:
@@ -90,8 +92,6 @@ class InputContainerTask(Task):
         source += await secret_manager_client.resolve_secret(self.config.source_secret)
         await self.client.stop_wait()
 
-      container: InputContainer | None = None
-      tasks: list[asyncio.Task] = []
       container = await InputContainer.open(source, **self.config.container_options)
       tasks = [
         *(asyncio.create_task(self._run_stream(container.get_video_stream(idx, cfg.to_codec_info(), cfg.force_transcode), cfg.out_topic)) for idx, cfg in enumerate(self.config.video_tracks)),
diff --git a/streamtasks/system/tasks/media/outputcontainer.py b/streamtasks/system/tasks/media/outputcontainer.py
index db69696..49392a4 100644
--- a/streamtasks/system/tasks/media/outputcontainer.py
+++ b/streamtasks/system/tasks/media/outputcontainer.py
@@ -135,6 +135,8 @@ class OutputContainerTask(Task):
         except ValidationError: pass
 
   async def run(self):
+    container: OutputContainer | None = None
+    tasks: list[asyncio.Task] = []
     try:
       destination = self.config.destination
       if self.config.destination_secret:
@@ -144,8 +146,6 @@ class OutputContainerTask(Task):
         destination += await secret_manager_client.resolve_secret(self.config.destination_secret)
         await self.client.stop_wait()
 
-      container: OutputContainer | None = None
-      tasks: list[asyncio.Task] = []
       container = await OutputContainer.open(destination, **self.config.container_options)
       streams: dict[int, AVOutputStream] = {}
       streams.update({ cfg.in_topic: container.add_video_stream(cfg.to_codec_info()) for cfg in self.config.video_tracks })
-- 
2.43.0


From 503e4bf28001e73d5a67ffbd7961da14306ca884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:22 +0000
Subject: [PATCH 136/139] fix: the speech enhancement buffer is not empty

---
 streamtasks/system/tasks/inference/smespeechenhancement.py      | 2 +-
 streamtasks/system/tasks/inference/waveformspeechenhancement.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/streamtasks/system/tasks/inference/smespeechenhancement.py b/streamtasks/system/tasks/inference/smespeechenhancement.py
index efd7c86..5b352f9 100644
--- a/streamtasks/system/tasks/inference/smespeechenhancement.py
+++ b/streamtasks/system/tasks/inference/smespeechenhancement.py
@@ -83,7 +83,7 @@ class SMESpeechEnhancementTaskHost(TaskHost):
     editor_fields=[
       EditorFields.text(key="source", label="source (path or model name)"),
       EditorFields.text(key="device"),
-      EditorFields.integer(key="buffer_duration", unit="ms")
+      EditorFields.integer(key="buffer_duration", min_value=1, unit="ms")
     ]
   )
   async def create_task(self, config: Any, topic_space_id: int | None):
diff --git a/streamtasks/system/tasks/inference/waveformspeechenhancement.py b/streamtasks/system/tasks/inference/waveformspeechenhancement.py
index cef7ccc..27549b1 100644
--- a/streamtasks/system/tasks/inference/waveformspeechenhancement.py
+++ b/streamtasks/system/tasks/inference/waveformspeechenhancement.py
@@ -83,7 +83,7 @@ class WaveformSpeechEnhancementTaskHost(TaskHost):
     editor_fields=[
       EditorFields.text(key="source", label="source (path or model name)"),
       EditorFields.text(key="device"),
-      EditorFields.integer(key="buffer_duration", unit="ms")
+      EditorFields.integer(key="buffer_duration", min_value=1, unit="ms")
     ]
   )
   async def create_task(self, config: Any, topic_space_id: int | None):
-- 
2.43.0


From b5ec4d9a4ada598a746346ba572bb713637ba708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:22 +0000
Subject: [PATCH 137/139] fix: the editor of the text renderer offers no font
 size of 0

---
 streamtasks/system/tasks/media/textrenderer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/streamtasks/system/tasks/media/textrenderer.py b/streamtasks/system/tasks/media/textrenderer.py
index 0bc2255..7837867 100644
--- a/streamtasks/system/tasks/media/textrenderer.py
+++ b/streamtasks/system/tasks/media/textrenderer.py
@@ -105,7 +105,7 @@ class TextRendererTaskHost(TaskHost):
       MediaEditorFields.pixel_size("x"),
       MediaEditorFields.pixel_size("y"),
       EditorFields.select("font", [ (font_file, os.path.splitext(font_file)[0]) for font_file in list_ttf_files() ]),
-      MediaEditorFields.pixel_size("font_size"),
+      EditorFields.integer("font_size", min_value=1, unit="px"),
       EditorFields.color("font_color"),
     ]
   )
-- 
2.43.0


From 7c6e66097f168054e97b9445f3ad4e052fcaf961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:52 +0000
Subject: [PATCH 138/139] fix: the tasks of a task host that leaves are
 reported as stopped

---
 streamtasks/system/task.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/streamtasks/system/task.py b/streamtasks/system/task.py
index 8409744..c37712b 100644
--- a/streamtasks/system/task.py
+++ b/streamtasks/system/task.py
@@ -313,7 +313,12 @@ class TaskManager(Worker):
     async def _(message_data: Any):
       data = ModelWithStrId.model_validate(message_data)
       self.task_hosts.pop(data.id, None)
+      lost_tasks = [ task for task in self.tasks.values() if task.host_id == data.id ]
       self.tasks = { tid: task for tid, task in self.tasks.items() if task.host_id != data.id }
+      for task in lost_tasks:
+        if task.status is not TaskStatus.running: continue
+        task.status = TaskStatus.stopped # the task host did not wait for it
+        await self.bc_server.broadcast(get_namespace_by_task_id(task.id), RawData(task.model_dump()))
       await self.bc_server.broadcast(TaskConstants.BC_TASK_HOST_UNREGISTERED, RawData(data.model_dump()))
 
     await server.run()
-- 
2.43.0


From 06cae2eb482902fae407b3ee1dd918e8f7a3aee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:15 +0000
Subject: [PATCH 139/139] fix: the frequency display survives chunks which are
 no sound

---
 streamtasks/system/tasks/ui/audiofrequencydisplay.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/streamtasks/system/tasks/ui/audiofrequencydisplay.py b/streamtasks/system/tasks/ui/audiofrequencydisplay.py
index a037522..b463e9d 100644
--- a/streamtasks/system/tasks/ui/audiofrequencydisplay.py
+++ b/streamtasks/system/tasks/ui/audiofrequencydisplay.py
@@ -48,7 +48,7 @@ class AudioFrequencyDisplayTask(UIBaseTask[AudioFrequencyDisplayConfig, AudioFre
           freq_bins = np.pad(freqs, (0, expected_len - freqs.size)).reshape((-1, self.config.bin_size)).sum(-1)
           freq_bins = freq_bins / (freq_bins.max() or 1)
           self.value = AudioFrequencyDisplayValue(freq_bins=list(freq_bins))
-      except ValidationError: pass
+      except (ValidationError, ValueError): pass
 
 class AudioFrequencyDisplayTaskHost(TaskHost):
   @property
-- 
2.43.0

