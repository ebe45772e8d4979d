"""C09: socket connections deliver the sent messages intact and in order."""
import asyncio, socket, struct
import websockets
from streamtasks.connection import RawConnectionLink, RawStreamConnection, RawWebsocketConnection
from streamtasks.net import ConnectionClosedError, Switch
from streamtasks.net.messages import AddressedMessage, TopicDataMessage
from streamtasks.net.serialization import RawData, deserialize_message, serialize_message
from vlib.core import family
from vlib.vtime import settle
from vlib.net import tag_of

SYNC = bytes(RawStreamConnection.SYNC_WORD)

class FakeTransport:
  def __init__(self): self.closed = False

class CaptureWriter:
  """Stands for the StreamWriter of a connection: keeps what is written, drains slowly, may break."""
  def __init__(self, rng, slow): self.rng, self.slow, self.buf, self.closed, self.broken = rng, slow, bytearray(), False, False
  def write(self, data): self.buf += data
  def writelines(self, ls):
    for x in ls: self.write(x)
  async def drain(self):
    if self.broken: raise ConnectionResetError("broken")
    if self.rng.random() < self.slow: await asyncio.sleep(self.rng.choice((0, 0.001, 0.05)))
  def close(self): self.closed = True
  def is_closing(self): return self.closed
  async def wait_closed(self): pass

def frames(buf):
  """Independent parser of a stray-free stream: list of (start, payload)."""
  out, i = [], 0
  while i < len(buf):
    if buf[i:i + 4] != SYNC: return out, i
    n, = struct.unpack("<L", buf[i + 4:i + 8])
    out.append((i, bytes(buf[i + 8:i + 8 + n])))
    i += 8 + n
  return out, i

def msg(rng, sender, seq, big):
  size = rng.choice((0, 1, 3, 50, 200, 255, 256) + ((5000, 65535, 65536, 70000, 200000) if big else ()))
  body = rng.randbytes(size) if rng.random() < 0.6 else (SYNC * (size // 4 + 1))[:size]
  d = {"tag": [sender, seq], "b": body}
  return TopicDataMessage(rng.randrange(1000), RawData(d)) if rng.random() < 0.5 else AddressedMessage(rng.randrange(1000), rng.randrange(200), RawData(d))

def stray(rng):
  """Bytes that do not contain the sync word, nor form one together with a following frame other than at its start."""
  while True:
    n = rng.choice((1, 1, 2, 3, 4, 7, 20))
    s = bytes(rng.choice((0xb8, 0x23, 0xa0, 0x6f, 0x00, 0xff, rng.randrange(256))) for _ in range(n))
    if rng.random() < 0.4: s = (SYNC[:rng.randint(1, 3)] * 3)[:n] if rng.random() < 0.5 else SYNC[:rng.randint(1, 3)]
    if (s + SYNC).find(SYNC) == len(s): return s

async def produce(ctx, w, link, big):
  """Concurrent (and sometimes cancelled) senders; returns sent messages and which may be missing."""
  rng = ctx.rng
  sent, optional = {}, set()
  async def sender(k, n):
    for i in range(n):
      m = msg(rng, k, i, big)
      sent[k, i] = bytes(serialize_message(m))
      if rng.random() < 0.15:
        optional.add((k, i))
        t = asyncio.create_task(link.send(m))
        await asyncio.sleep(rng.choice((0, 0, 0.001)))
        t.cancel()
        await asyncio.wait([t])
      else: await link.send(m)
      if rng.random() < 0.3: await asyncio.sleep(rng.choice((0, 0.001, 0.01)))
  await asyncio.gather(*(sender(k, rng.randint(1, 8)) for k in range(rng.randint(1, 4))))
  await settle(1)
  return sent, optional

@family("framing", quick=900, thorough=30000)
async def framing(ctx):
  rng = ctx.rng
  w = CaptureWriter(rng, rng.choice((0, 0.3, 0.9)))
  out = RawConnectionLink(RawStreamConnection(asyncio.StreamReader(), w), 1)
  sent, optional = await produce(ctx, w, out, rng.random() < 0.3)
  fr, end = frames(w.buf)
  ctx.check(end == len(w.buf), "malformed-stream", lambda: f"frame expected at {end} of {len(w.buf)}: {bytes(w.buf[end:end + 20])}")
  order = []
  for _, p in fr:
    d = deserialize_message(p).data.data
    k = tuple(d["tag"])
    ctx.check(k in sent and p == sent[k], "bytes-changed", lambda: f"frame {k}")
    order.append(k)
  ctx.check(len(set(order)) == len(order), "duplicate-frame", order)
  ctx.check(set(sent) - set(order) <= optional, "lost-frame", lambda: f"{set(sent) - set(order)}")
  for k in {x for x, _ in order}:
    seq = [i for x, i in order if x == k]
    ctx.check(seq == sorted(seq), "sender-order", seq)
  # deliver with arbitrary chunking, stray bytes and possibly a cut
  stream = bytearray(); ends = []
  strays = rng.random() < 0.6
  for _, p in fr:
    if strays and rng.random() < 0.4: s = stray(rng); stream += s; ctx.count("stray_runs"); ctx.op("stray", s.hex())
    stream += SYNC + struct.pack("<L", len(p)) + p
    ends.append(len(stream))
  cut = rng.random() < 0.4
  limit = rng.randint(0, len(stream)) if cut else len(stream)
  if cut: ctx.op("cut", limit, len(stream)); ctx.count("cuts")
  reader = asyncio.StreamReader(limit=rng.choice((64, 1024, 65536)))
  cw = CaptureWriter(rng, 0)
  link = RawConnectionLink(RawStreamConnection(reader, cw), 1)
  got = []
  closed = asyncio.Event()
  cancelling = rng.random() < 0.5
  async def receive():
    while True:
      try:
        if cancelling and rng.random() < 0.5:
          t = asyncio.create_task(link.recv())
          for _ in range(rng.choice((0, 1, 1, 2, 3))): await asyncio.sleep(0)
          if rng.random() < 0.3: await asyncio.sleep(rng.choice((0.001, 0.01)))
          t.cancel()
          ctx.count("recv_cancels")
          try: got.append(await t)
          except asyncio.CancelledError: await asyncio.sleep(0)
        else: got.append(await link.recv())
      except ConnectionClosedError: closed.set(); return
  rt = asyncio.create_task(receive())
  i = 0
  whole = rng.random() < 0.2
  while i < limit:
    n = limit if whole else rng.choice((1, 1, 2, 3, 4, 5, 8, 9, 30, 300, 5000))
    reader.feed_data(bytes(stream[i:min(limit, i + n)]))
    i += n
    ctx.count("chunks")
    if rng.random() < (0.02 if limit > 20000 else 0.5): await asyncio.sleep(rng.choice((0, 0, 0.001, 0.02)))
  await settle(1)
  want = [k for k, e in zip(order, ends) if e <= limit]
  def keys(): return [tuple(m.data.data["tag"]) for m in got]
  ctx.check(not closed.is_set(), "closed-early", lambda: f"link reported closed before the end of the stream; received {keys()} of {want}")
  ctx.check(keys() == want, "received", lambda: f"received {keys()} want {want} (sent order {order}, cut at {limit} of {len(stream)})")
  for m in got: ctx.check(bytes(serialize_message(m)) == sent[tuple(m.data.data["tag"])], "message-changed", lambda: f"{m!r:.200}")
  if rng.random() < 0.5: reader.feed_eof()
  else: reader.set_exception(ConnectionResetError("reset"))
  await settle(1)
  ctx.check(closed.is_set(), "not-closed", lambda: f"end of stream was not reported; got {keys()}")
  ctx.check(keys() == want, "partial-message", lambda: f"received {keys()} want {want}")
  rt.cancel()
  ctx.count("received", len(got))
  ctx.sigadd(tuple(order), limit, tuple(ends), len(got)); ctx.nontrivial = len(got) > 0
  ctx.summary = dict(frames=len(fr), stream=len(stream), limit=limit, got=len(got), ops=[repr(x) for x in ctx.log])

async def duplex(ctx, la, lb, end):
  """Two attached link ends with traffic in both directions; one side ends at some point."""
  rng = ctx.rng
  got = {0: [], 1: []}
  links = (la, lb)
  closed = [asyncio.Event(), asyncio.Event()]
  async def rx(i):
    while True:
      try: m = await links[i].recv()
      except ConnectionClosedError: closed[i].set(); return
      got[i].append(m)
      if rng.random() < 0.05: await asyncio.sleep(0.005)
  rts = [asyncio.create_task(rx(0)), asyncio.create_task(rx(1))]
  sent = {0: [], 1: []}
  failed = []
  async def tx(i, k, n):
    for j in range(n):
      size = rng.choice((0, 10, 1000, 70000, 300000, 2500000)) if rng.random() < 0.5 else 30
      m = TopicDataMessage(7, RawData({"tag": [i, k, j], "b": rng.randbytes(size)}))
      sent[i].append((i, k, j, bytes(serialize_message(m))))
      try: await links[i].send(m)
      except ConnectionClosedError: failed.append((i, k, j)); return
      if rng.random() < 0.2: await asyncio.sleep(0)
  txs = [asyncio.create_task(tx(i, k, rng.randint(2, 8))) for i in (0, 1) for k in range(rng.randint(1, 3))]
  cut = rng.random() < 0.5
  if cut:
    await asyncio.sleep(rng.choice((0, 0.001, 0.01)))
    side = rng.randrange(2)
    ctx.op("close", side); ctx.count("closed_under_traffic")
    links[side].close()
  await asyncio.wait(txs, timeout=20)
  ctx.check(all(t.done() for t in txs), "send-hangs", "a send did not end")
  for t in txs: t.result()
  if not cut:
    for _ in range(200):
      if all(len(got[1 - i]) == len(sent[i]) for i in (0, 1)): break
      await asyncio.sleep(0.01)
    ctx.check(not failed, "send-failed", failed)
    la.close()
  try: await asyncio.wait_for(asyncio.gather(*(c.wait() for c in closed)), 20)
  except asyncio.TimeoutError: ctx.fail("not-closed", f"after closing: {[c.is_set() for c in closed]}")
  for i in (0, 1):
    raws = {(a, k, j): r for a, k, j, r in sent[i]}
    keys = [tuple(m.data.data["tag"]) for m in got[1 - i]]
    ctx.check(len(set(keys)) == len(keys), "duplicate", keys)
    for m, key in zip(got[1 - i], keys): ctx.check(bytes(serialize_message(m)) == raws.get(key), "message-changed", key)
    for k in {x for _, x, _ in keys}:
      s = [j for _, x, j in keys if x == k]
      ctx.check(s == list(range(len(s))), "order", lambda: f"direction {i} sender {k}: {s}")
    if not cut: ctx.check(len(keys) == len(sent[i]), "lost", lambda: f"direction {i}: {len(keys)} of {len(sent[i])}")
    ctx.count("received", len(keys))
    ctx.sigadd(i, len(keys), tuple(len(r) for *_, r in sent[i]))
  for t in rts: t.cancel()
  ctx.nontrivial = bool(got[0] or got[1])
  ctx.summary = dict(cut=cut, sent=[len(sent[0]), len(sent[1])], got=[len(got[0]), len(got[1])], failed=len(failed))

@family("socketpair", quick=60, thorough=1200, loop="real")
async def socketpair(ctx):
  rng = ctx.rng
  sa, sb = socket.socketpair()
  for s in (sa, sb): s.setsockopt(socket.SOL_SOCKET, socket.SO_SNDBUF, rng.choice((4096, 65536, 1 << 20)))
  la = RawConnectionLink(RawStreamConnection(*await asyncio.open_connection(sock=sa)), 1)
  lb = RawConnectionLink(RawStreamConnection(*await asyncio.open_connection(sock=sb)), 1)
  await duplex(ctx, la, lb, None)

@family("transports", quick=48, thorough=900, loop="real")
async def transports(ctx):
  """The real servers and connect() of each transport, the links attached to nothing but the harness."""
  from streamtasks.connection import connect, create_server
  rng = ctx.rng
  kind = ("ws", "ws", "tcp", "unix")[ctx.index // 8 % 4]
  d = ctx.tmpdir()
  if kind == "unix": url = f"unix://{d}/s.sock"
  else:
    with socket.socket() as s: s.bind(("127.0.0.1", 0)); port = s.getsockname()[1]
    url = f"{kind}://127.0.0.1:{port}"
  server = create_server(url)
  accepted = asyncio.Queue()
  async def add_link(link): accepted.put_nowait(link)
  server.switch.add_link = add_link    # take the server side link instead of switching it
  st = asyncio.create_task(server.run())
  link = None
  for _ in range(400):
    try: link = await connect(url); break
    except (ConnectionError, OSError): await asyncio.sleep(0.005)
  ctx.check(link is not None, "cannot-connect", kind)
  peer = await asyncio.wait_for(accepted.get(), 10)
  ctx.count("kind:" + kind)
  await duplex(ctx, link, peer, None)
  st.cancel()
  await asyncio.wait([st], timeout=3)
