"""C04: addressed messages reach exactly the address owner, in order."""
import asyncio
from vlib.core import family
from vlib.net import *
from vlib.world import World

async def history(ctx, w, ops, kinds):
  rng = ctx.rng
  addrs = w.addresses
  sent = []       # dict(seq, sender, addr, port, must: cid|None, may: set, data)
  dirty = {a: set() for a in addrs}   # clients that owned the address since the last quiescence
  async def quiesce():
    await settle()
    for a in addrs: dirty[a] = {w.owner[a]} if a in w.owner else set()
    ctx.op("settle")
  def own(c, a):
    if a is None: return
    dirty[a].add(c.id)
    for m in pend:
      if m["addr"] == a: m["may"].add(c.id)
  stable = lambda a: a in w.owner and dirty[a] == {w.owner[a]} and a in settled_owner and settled_owner[a] == w.owner[a]
  settled_owner = {}
  async def q():
    await quiesce()
    settled_owner.clear(); settled_owner.update(w.owner)
    flush_must()
  pend = []
  def flush_must():
    for m in pend: m["done"] = True
    pend.clear()
  for k in range(ops):
    r = rng.random()
    c = rng.choice(w.clients)
    if r < 0.2:
      free = [a for a in addrs if a not in w.owner]
      a = rng.choice(free + [None]) if free else None
      if a is None and c.address is None: continue
      old = c.address
      # an address may only move at quiescence
      if a is not None and dirty[a]: await q()
      if old is not None: settled_owner.pop(old, None)
      for m in pend:
        if m["addr"] in (old, a): m["must"] = None
      await w.set_address(c, a)
      own(c, a)
    elif r < 0.70:
      for _ in range(rng.choice((1, 1, 3, 8))):
        a = rng.choice(addrs) if rng.random() < 0.9 else rng.choice((9999, 424242))
        port = rng.choice((1, 1, 2, 100, 101, 70000, 1 << 40))
        d = payload(rng, [c.id, len(sent)])
        m = dict(seq=len(sent), sender=c.id, addr=a, port=port, data=d, must=None, may=set(dirty.get(a, ())), done=False)
        if a in addrs and stable(a) and w.net.dist(c.sw, w.client(w.owner[a]).sw) is not None: m["must"] = w.owner[a]
        sent.append(m); pend.append(m)
        await c.client.send_to((a, port), RawData(d))
        ctx.count("sent")
        if m["must"] is not None: ctx.count("sent_owned")
        else: ctx.count("sent_other")
      ctx.op("send", c.id, len(sent))
    elif r < 0.82: await q()
    elif r < 0.9: await asyncio.sleep(rng.choice((0, 0.001, 0.05)))
    elif len(w.clients) < 9: await w.net.add_client()
  await q()
  for c in w.net.clients:
    last = {}
    seen = set()
    for msg in c.all.got:
      if not isinstance(msg, AddressedMessage): continue
      sender, seq = tag_of(msg.data.data)
      m = sent[seq]
      ctx.count("received")
      ctx.check(m["sender"] == sender and msg.data.data == m["data"], "content-changed", lambda: f"message {seq}: {msg.data.data!r:.300} want {m['data']!r:.300}")
      ctx.check(msg.address == m["addr"], "wrong-address", lambda: f"message {seq} to {m['addr']} delivered as {msg.address}")
      ctx.check(msg.port == m["port"], "wrong-port", lambda: f"message {seq} port {m['port']} delivered with {msg.port}")
      ctx.check(seq not in seen, "duplicate", lambda: f"message {seq} twice at client {c.id}")
      seen.add(seq)
      ctx.check(c.id in m["may"] or m["must"] == c.id, "misdelivered", lambda: f"message {seq} to address {m['addr']} (owners then {m['may']}) delivered to client {c.id}")
      ctx.check(last.get((sender, m["addr"]), -1) < seq, "reordered", lambda: f"client {c.id}: message {seq} of {sender} after {last[sender, m['addr']]}")
      last[sender, m["addr"]] = seq
      m.setdefault("got", []).append(c.id)
  for m in sent:
    got = m.get("got", [])
    ctx.check(len(got) <= 1, "duplicate", lambda: f"message {m['seq']} delivered to {got}")
    if m["must"] is not None: ctx.check(got == [m["must"]], "lost", lambda: f"message {m['seq']} to address {m['addr']} owned by {m['must']} delivered to {got}")
  ctx.sigadd(tuple((m["sender"], m["addr"], m["port"], tuple(m.get("got", ()))) for m in sent))
  ctx.nontrivial = any(m["must"] is not None for m in sent)
  ctx.summary = dict(history=[repr(x) for x in ctx.log[:60]], counters=dict(ctx.counters))

def fam(name, quick, thorough, kinds, sw, cl, ops):
  @family(name, quick, thorough)
  async def _(ctx):
    r = ctx.rng
    w = World(ctx, kinds, r.randint(*sw), r.randint(*cl), [], range(500, 500 + r.randint(1, 5)))
    await w.build()
    await history(ctx, w, r.randint(*ops), kinds)

fam("tree", 800, 30000, KINDS[:6], (1, 5), (2, 6), (20, 80))
fam("yielding_links", 300, 10000, YIELD, (1, 5), (2, 6), (20, 80))
fam("sockets", 80, 1500, ("sock", "v-small"), (1, 3), (2, 4), (15, 40))

@family("names", quick=150, thorough=4000)
async def names(ctx):
  """Sending to a name reaches the address it resolves to."""
  from streamtasks.services.discovery import DiscoveryWorker
  from streamtasks.client.discovery import address_name_context
  rng = ctx.rng
  w = World(ctx, KINDS[:6], rng.randint(1, 4), rng.randint(2, 5), [], [])
  await w.build()
  dw = DiscoveryWorker()
  await w.net.switches[0].add_link(await dw.create_link())
  t = asyncio.create_task(dw.run())
  await settle()
  owners, keep = {}, []
  for i, c in enumerate(w.clients):
    await c.client.request_address()
    if rng.random() < 0.7:
      keep.append(address_name_context(c.client, f"n{i}"))
      await keep[-1].__aenter__()
      owners[f"n{i}"] = c
  await settle()
  sent = []
  for k in range(rng.randint(3, 12)):
    if not owners: break
    n = rng.choice(list(owners))
    s = rng.choice(w.clients)
    if s is owners[n]: continue
    await s.client.send_to((n, 7), RawData({"tag": [s.id, k]}))
    sent.append((owners[n].id, s.id, k)); ctx.count("sent_owned"); ctx.count("sent")
  await settle()
  got = []
  for c in w.clients:
    for m in c.all.got:
      if isinstance(m, AddressedMessage) and m.port == 7: got.append((c.id, *tag_of(m.data.data))); ctx.count("received")
  ctx.check(sorted(got) == sorted(sent), "named-delivery", lambda: f"got {got} sent {sent}")
  ctx.sigadd(tuple(sent)); ctx.nontrivial = bool(sent)
  for k in keep: await k.__aexit__(None, None, None)
  t.cancel()

@family("shared", quick=300, thorough=12000)
async def shared(ctx):
  """Several clients holding one address (a node that moved while its old link is still up): one of the nearest gets each message."""
  rng = ctx.rng
  w = World(ctx, KINDS[:6], rng.randint(1, 4), rng.randint(4, 7), [], [500, 501])
  await w.build()
  sent, holds = [], {}
  for k in range(rng.randint(8, 30)):
    x = rng.random()
    cl = w.clients
    c = rng.choice(cl)
    if x < 0.55:
      a = rng.choice((500, 500, 501, None))
      await c.client.set_address(a)
      if a is None: holds.pop(c.id, None)
      else: holds[c.id] = a
      ctx.op("address", c.id, a)
    elif x < 0.65 and len(cl) > 3:
      w.detach(c); holds.pop(c.id, None)
    elif x < 0.75 and len(cl) < 7: await w.net.add_client()
    await settle()
    for a in (500, 501):
      near = [c for c in w.clients if holds.get(c.id) == a]
      senders = [c for c in w.clients if holds.get(c.id) != a]
      if not senders: continue
      s = rng.choice(senders)
      cost = {c.id: c.cost_at(s.sw) for c in near}
      best = [i for i in cost if cost[i] == min(cost.values())]
      m = dict(seq=len(sent), sender=s.id, addr=a, best=best, cost=cost)
      sent.append(m)
      await s.client.send_to((a, 9), RawData({"tag": [s.id, m["seq"]]}))
      ctx.count("sent"); ctx.count("sent_owned" if best else "sent_other")
      if len(near) > 1: ctx.count("sent_shared")
      ctx.op("send", s.id, a, best)
    await settle() # nothing moves while a message is under way
  got = {}
  for c in w.net.clients:
    for msg in c.all.got:
      if isinstance(msg, AddressedMessage): ctx.count("received"); got.setdefault(tag_of(msg.data.data)[1], []).append(c.id)
  for m in sent:
    g = got.get(m["seq"], [])
    if not m["best"]: ctx.check(not g, "misdelivered", lambda: f"{m}: delivered to {g}")
    else:
      ctx.check(len(g) > 0, "lost", lambda: f"{m}: not delivered")
      ctx.check(len(g) < 2, "duplicate", lambda: f"{m}: delivered to {g}")
      ctx.check(g[0] in m["best"], "not-the-nearest", lambda: f"{m}: delivered to {g}")
  ctx.sigadd(tuple((m["sender"], m["addr"], tuple(m["best"])) for m in sent))
  ctx.nontrivial = ctx.counters.get("sent_shared", 0) > 0
  ctx.summary = dict(history=[repr(x) for x in ctx.log[:60]], counters=dict(ctx.counters))
