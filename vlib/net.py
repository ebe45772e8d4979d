"""Networks of real switches and clients, joined by links of different kinds, with recording probes."""
import asyncio, collections, random, socket
from streamtasks.client import Client
from streamtasks.client.receiver import Receiver
from streamtasks.net import ConnectionClosedError, Link, Switch, TopicRemappingLink, create_queue_connection
from streamtasks.net.messages import (AddressedMessage, AddressesChangedMessage, InTopicsChangedMessage, Message, OutTopicsChangedMessage,
  TopicControlMessage, TopicDataMessage)
from streamtasks.net.serialization import RawData, deserialize_message, serialize_message
from vlib.vtime import settle

class VLink(Link):
  """In-process link with a random (virtual) delay per message; FIFO per direction."""
  def __init__(self, cost, rng, profile, raw, yields=0.0):
    super().__init__(cost)
    self.rng, self.profile, self.raw, self.yields = rng, profile, raw, yields
    self.q: asyncio.Queue = asyncio.Queue()
    self.peer: "VLink" = None
    self.last = 0.0
    self.lock = asyncio.Lock()
    self.pending = 0
    self.broken = False
  def delay(self):
    p = self.profile
    if p == "zero": return 0.0
    if p == "small": return self.rng.random() * 0.002
    if p == "big": return self.rng.random() * 0.2
    return self.rng.choice((0.0, 0.0, 0.0, self.rng.random() * 0.5))  # bursty
  async def _send(self, message):
    if self.broken: raise ConnectionClosedError("link broken")
    m = serialize_message(message) if self.raw else message
    if self.yields:  # like RawConnection: sends may suspend, but are served in the order of the calls
      async with self.lock:
        if self.yields == SLOW: await asyncio.sleep(self.rng.choice((0, 0, 0.001, 0.004)))
        elif self.rng.random() < self.yields: await asyncio.sleep(0)
        self._put(m)
        if self.yields == SLOW: await asyncio.sleep(self.rng.choice((0, 0, 0.001, 0.004))) # the other side reads slowly
    else: self._put(m)
  def _put(self, m):
    loop = asyncio.get_running_loop()
    d = self.delay()
    if d == 0.0 and self.pending == 0: self.peer.q.put_nowait(m)
    else:
      self.last = max(self.last + 1e-7, loop.time() + d)
      self.pending += 1
      loop.call_at(self.last, self._deliver, m)
  def _deliver(self, m):
    self.pending -= 1
    self.peer.q.put_nowait(m)
  async def _recv(self):
    m = await self.q.get()
    if m is _EOF: raise ConnectionClosedError("peer closed")
    return deserialize_message(m) if self.raw else m

_EOF = object()
SLOW = 2.0

def vlink_pair(rng, cost_a=1, cost_b=1, profile="small", raw=False, yields=0.0):
  a, b = VLink(cost_a, rng, profile, raw, yields), VLink(cost_b, rng, profile, raw, yields)
  a.peer, b.peer = b, a
  a.on_closed.append(b.close)
  b.on_closed.append(a.close)
  return a, b

async def sock_pair(rng, cost_a=1, cost_b=1):
  from streamtasks.connection import RawConnectionLink, RawStreamConnection
  sa, sb = socket.socketpair()
  ra = await asyncio.open_connection(sock=sa)
  rb = await asyncio.open_connection(sock=sb)
  return RawConnectionLink(RawStreamConnection(*ra), cost_a), RawConnectionLink(RawStreamConnection(*rb), cost_b)

KINDS = ("queue", "rawqueue", "v-zero", "v-small", "v-big", "v-burst", "sock", "y-zero", "y-small", "y-burst")
BIG_COSTS = (25, 100, 150, 1000, 70000, 2**33) # the cost can be set in the url of a connection
YIELD = ("y-zero", "y-small", "y-burst", "queue")

async def make_pair(rng, kind, max_cost=4):
  """Returns (link_a, link_b, cost_seen_by_a, cost_seen_by_b)."""
  ca, cb = rng.randint(1, max_cost), rng.randint(1, max_cost)
  if rng.random() < 0.1: ca, cb = rng.choice(BIG_COSTS), rng.choice(BIG_COSTS)
  if kind == "queue": a, b = create_queue_connection(False); return a, b, 1, 1
  if kind == "rawqueue": a, b = create_queue_connection(True); return a, b, 1, 1
  if kind == "sock": a, b = await sock_pair(rng, ca, cb); return a, b, ca, cb
  a, b = vlink_pair(rng, ca, cb, kind[2:], raw=rng.random() < 0.5, yields={"y": 0.5, "b": SLOW}.get(kind[0], 0.0))
  return a, b, ca, cb

class WireTap:
  """Records the messages a link delivers (wraps the public recv of this link instance)."""
  def __init__(self, link):
    self.msgs = []
    orig = link.recv
    async def recv():
      m = await orig()
      self.msgs.append(m)
      return m
    link.recv = recv

class AllReceiver(Receiver):
  """Records every message the client dispatches."""
  def __init__(self, client):
    super().__init__(client)
    self.got = []
  def on_message(self, message): self.got.append(message)

class Net:
  def __init__(self, ctx, kinds=KINDS):
    self.ctx, self.rng, self.kinds = ctx, ctx.rng, kinds
    self.switches: list[Switch] = []
    self.adj: dict[int, list[tuple[int, int]]] = collections.defaultdict(list)  # i -> [(j, cost seen by i of messages from j)]
    self.edges = []       # (i, j, link_i, link_j)
    self.clients: list["NClient"] = []
  def kind(self): return self.rng.choice(self.kinds)
  async def add_switch(self, parent=None, kind=None):
    i = len(self.switches)
    self.switches.append(Switch())
    if parent is not None: await self.join(parent, i, kind)
    return i
  async def join(self, i, j, kind=None):
    kind = kind or self.kind()
    a, b, ca, cb = await make_pair(self.rng, kind)
    order = [(self.switches[i], a), (self.switches[j], b)]
    if self.rng.random() < 0.5: order.reverse()
    for s, l in order: await s.add_link(l)
    self.edges.append((i, j, a, b))
    self.adj[i].append((j, ca)); self.adj[j].append((i, cb))
    self.ctx.op("join", i, j, kind, ca, cb)
  async def tree(self, n):
    await self.add_switch()
    for i in range(1, n): await self.add_switch(self.rng.randrange(i))
  def disconnect(self, i, j):
    self.adj[i] = [e for e in self.adj[i] if e[0] != j]
    self.adj[j] = [e for e in self.adj[j] if e[0] != i]
  def dist(self, src, dst):
    """Cost a switch `dst` attributes to something provided at switch `src` with local cost 0 (None if unreachable)."""
    best = {src: 0}
    todo = [src]
    while todo:
      i = todo.pop()
      for j, _ in self.adj[i]:
        c = next(c for k, c in self.adj[j] if k == i)
        if j not in best: best[j] = best[i] + c; todo.append(j)
    return best.get(dst)
  def reachable(self, i):
    seen, todo = {i}, [i]
    while todo:
      for j, _ in self.adj[todo.pop()]:
        if j not in seen: seen.add(j); todo.append(j)
    return seen
  async def add_client(self, sw=None, kind=None, address=None, remap=None):
    sw = self.rng.randrange(len(self.switches)) if sw is None else sw
    kind = kind or self.kind()
    c = NClient(self, len(self.clients), sw, kind)
    self.clients.append(c)
    await c.attach(remap)
    if address is not None:
      await c.client.set_address(address)
      c.address = address
    self.ctx.op("client", c.id, "at switch", sw, kind, c.cost, "address", address, "remap", remap)
    return c

class NClient:
  def __init__(self, net, id, sw, kind):
    self.net, self.id, self.sw, self.kind = net, id, sw, kind
    self.alive, self.address = True, None
  async def attach(self, remap=None):
    a, b, ca, cb = await make_pair(self.net.rng, self.kind)
    self.link_sw, self.raw_link, self.cost = a, b, ca
    self.tap = WireTap(b)
    self.link = TopicRemappingLink(b, remap) if remap else b
    await self.net.switches[self.sw].add_link(a)
    self.client = Client(self.link)
    self.client.start()
    self.all = AllReceiver(self.client)
    await self.all.start_recv()
  def cost_at(self, sw):
    d = self.net.dist(self.sw, sw)
    return None if d is None else d + self.cost

class TopicSub:
  """A started InTopic of one client whose registration is toggled; records (time, item)."""
  def __init__(self, c: NClient, topic: int):
    self.c, self.topic = c, topic
    self.t = c.client.in_topic(topic)
    self.items = []
    self.registered = False
    self.task = None
  async def start(self):
    await self.t.start()
    self.task = asyncio.create_task(self._run())
  async def _run(self):
    while True: self.items.append(await self.t.recv_data_control())
  async def sub(self):
    await self.t.set_registered(True); self.registered = True
  async def unsub(self):
    await self.t.set_registered(False); self.registered = False

def payload(rng, tag):
  """A message payload carrying `tag` (a JSON-able list), in one of the shapes the code uses."""
  k = rng.randrange(5)
  if k == 0: return {"tag": tag, "timestamp": rng.randrange(1 << 40), "value": rng.random()}
  if k == 1: return {"tag": tag, "n": [1, {"a": None, "b": b"\x00\xff"}], "s": "ü" * rng.randrange(3)}
  if k == 2: return [tag, "x" * rng.randrange(300)]
  if k == 3: return {"tag": tag, "b": rng.randbytes(rng.choice((0, 1, 100, 5000)))}
  return {"tag": tag}

def tag_of(data): return tuple(data["tag"]) if isinstance(data, dict) else tuple(data[0])
