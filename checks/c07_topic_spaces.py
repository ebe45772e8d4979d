"""C07: topic-space links translate ids completely in both directions and isolate spaces."""
import asyncio
from streamtasks.net.messages import OutTopicsChangedRecvMessage, TopicControlData, TopicControlMessage, TopicMessage
from streamtasks.services.discovery import DiscoveryWorker
from streamtasks.client.discovery import register_topic_space, get_topic_space
from vlib.core import family
from vlib.net import *

def random_map(rng, ext):
  """An injective total id map given as the explicit part; returns (map, usable internal ids)."""
  ids = list(range(1, 13))
  k = rng.randrange(4)
  if k == 0:   # a permutation of the external ids themselves
    p = ext[:]; rng.shuffle(p)
    m = dict(zip(ext, p)); return m, {m[i]: i for i in m}
  if k == 1:   # some external ids are reached unmapped
    m = {i: e for i, e in zip(rng.sample(ids, len(ext)), ext) if rng.random() < 0.6}
    inv = {e: i for i, e in m.items()}
    for e in ext: inv.setdefault(e, e)
    return m, inv
  if k == 2:   # a map with entries nobody uses, internal ids that collide with other external ids
    rest = [x for x in range(900, 900 + len(ext))]
    m = {}
    p = ext[:]; rng.shuffle(p)
    for a, b in zip(ext, rest): m[a] = b           # internal ids equal to external ids mean something else
    for i, e in zip(rng.sample(ids, len(ext)), p): m[i] = e
    return m, {e: i for i, e in m.items() if e in ext}
  m = dict(zip(rng.sample(ids, len(ext)), ext))
  return m, {e: i for i, e in m.items()}

class Party:
  """A client (mapped or not) speaking external topic ids through its own internal ones."""
  def __init__(self, c, inv, ext):
    self.c, self.inv, self.rev = c, inv, {i: e for e, i in inv.items()}
    self.outs, self.ins = {}, {}
    self.ext = ext
  async def out(self, e):
    if e not in self.outs:
      self.outs[e] = o = self.c.client.out_topic(self.inv[e]); await o.start()
    return self.outs[e]
  async def sub(self, e):
    if e not in self.ins:
      self.ins[e] = s = TopicSub(self.c, self.inv[e]); await s.start()
    return self.ins[e]

@family("translate", quick=400, thorough=15000)
async def translate(ctx):
  rng = ctx.rng
  net = Net(ctx, KINDS[:6])
  await net.tree(rng.randint(1, 3))
  ext = [101, 102, 103, 104][:rng.randint(1, 4)]
  parties = []
  for _ in range(rng.randint(2, 5)):
    if rng.random() < 0.75:
      m, inv = random_map(rng, ext)
    else: m, inv = None, {e: e for e in ext}
    c = await net.add_client(remap=m)
    parties.append(Party(c, inv, ext))
    ctx.op("map", c.id, m)
  prov, state = {}, {}
  sentlog, seq = {e: [] for e in ext}, 0
  expect = {}                 # (party, ext) -> expected items
  for step in range(rng.randint(4, 14)):
    for _ in range(rng.randint(1, 4)):
      p, e = rng.choice(parties), rng.choice(ext)
      r = rng.random()
      if r < 0.35:
        if prov.get(e) is p:
          await p.outs[e].set_registered(False); del prov[e]; ctx.op("unprovide", p.c.id, e)
        elif e not in prov and not (e in p.ins and p.ins[e].registered) and e not in state:
          await (await p.out(e)).set_registered(True); prov[e] = p; ctx.op("provide", p.c.id, e)
      elif r < 0.85 and prov.get(e) is not p:
        s = await p.sub(e)
        ctx.op("toggle", p.c.id, e, not s.registered)
        await (s.unsub() if s.registered else s.sub())
      elif prov.get(e) is p:
        v = rng.random() < 0.5
        if p.outs[e].is_paused != v: state[e] = (p, v)
        ctx.op("pause", e, v)
        await p.outs[e].set_paused(v)
    await settle()
    ctx.op("settle")
    for e in ext:
      if e not in prov: continue
      p = prov[e]
      want = any(q.ins[e].registered for q in parties if q is not p and e in q.ins)
      ctx.check(p.outs[e].is_requested == want, "demand", lambda: f"ext topic {e}: provider {p.c.id} requested={p.outs[e].is_requested} want {want}")
      ctx.count("demand_true" if want else "demand_false")
      marks = {q: len(q.ins[e].items) for q in parties if e in q.ins}
      allm = {q: len(q.c.all.got) for q in parties}
      batch = []
      for _ in range(rng.randint(1, 3)):
        seq += 1
        d = payload(rng, [e, seq]); batch.append(d)
        await p.outs[e].send(RawData(d))
      v = not p.outs[e].is_paused
      state[e] = (p, v)
      await p.outs[e].set_paused(v)
      await settle()
      for q in parties:
        got = [m for m in q.c.all.got[allm[q]:] if isinstance(m, TopicMessage)]
        if q is not p and e in q.ins and q.ins[e].registered:
          items = q.ins[e].items[marks[q]:]
          ctx.check([i.data if isinstance(i, RawData) else i.paused for i in items] == batch + [v], "delivery", lambda: f"ext {e} = {q.inv[e]} at {q.c.id}: got {[i.data if isinstance(i, RawData) else i for i in items]!r:.300} want {batch!r:.300} {v}")
          ctx.check(q.ins[e].t.is_paused == v, "pause", f"ext {e} at {q.c.id}")
          ctx.check([m.topic for m in got] == [q.inv[e]] * (len(batch) + 1), "wrong-id", lambda: f"ext {e} at {q.c.id}: dispatched topics {[m.topic for m in got]} want {q.inv[e]}")
          ctx.count("delivered", len(batch)); ctx.count("translated" if q.inv[e] != e or p.inv[e] != e else "plain")
        else: ctx.check(not got, "leaked", lambda: f"ext {e} at unsubscribed {q.c.id}: {got!r:.300}")
    # what each client can learn about providers, in its own ids
    for q in parties:
      table = {}
      for m in q.c.all.got:
        if isinstance(m, OutTopicsChangedRecvMessage):
          for x in m.remove: table.pop(x.id, None)
          for x in m.add: table[x.id] = x.cost
      want = {q.inv[e]: p.c.cost_at(q.c.sw) + q.c.raw_link._cost for e, p in prov.items() if p is not q}
      ctx.check(table == want, "advertised", lambda: f"client {q.c.id} map {q.inv}: advertised {table} want {want}")
      ctx.count("tables")
  ctx.sigadd(tuple(map(repr, ctx.log)))
  ctx.nontrivial = ctx.counters.get("translated", 0) > 0
  ctx.summary = dict(history=[repr(x) for x in ctx.log[:60]], counters=dict(ctx.counters))

def effective(items):
  """Data with the pause state it was received in, and the final state (replays may repeat a state)."""
  cur, out = None, []
  for k, v in items:
    if k == "c": cur = v
    else: out.append((cur, v))
  return out, cur

@family("spaces", quick=120, thorough=4000)
async def spaces(ctx):
  """The same program deployed in several topic spaces through TaskHost.create_link."""
  from streamtasks.system.task import TaskHost
  rng = ctx.rng
  net = Net(ctx, ("queue", "v-zero", "v-small", "rawqueue"))
  await net.tree(rng.randint(1, 3))
  dw = DiscoveryWorker()
  await net.switches[0].add_link(await dw.create_link())
  t0 = asyncio.create_task(dw.run())
  class Host(TaskHost):
    async def create_task(self, config, topic_space_id): raise NotImplementedError
  hosts = []
  for _ in range(rng.randint(1, 2)):
    h = Host()
    a, b, *_ = await make_pair(rng, net.kind())
    await net.switches[rng.randrange(len(net.switches))].add_link(a)
    await h.switch.add_link(b)
    hosts.append((h, asyncio.create_task(h.run())))
  ctlc = (await net.add_client()).client
  await settle()
  await ctlc.request_address()
  internal = rng.sample(range(1, 30), rng.randint(1, 3))
  insts = []
  class C0: pass
  for k in range(rng.randint(2, 4)):
    sid, mp = await register_topic_space(ctlc, set(internal))
    ctx.check(set(mp) == set(internal) and len(set(mp.values())) == len(internal), "space-map", mp)
    side = {}
    for role in ("pub", "sub", "sub2"):
      h = rng.choice(hosts)[0]
      cl = await h.create_client(sid)
      cl.start()
      side[role] = cl
    insts.append((sid, mp, side))
    ctx.op("space", sid, mp)
  vals = [v for _, mp, _ in insts for v in mp.values()]
  ctx.check(len(set(vals)) == len(vals), "spaces-share-topics", vals)
  outs, ins = {}, {}
  for k, (sid, mp, side) in enumerate(insts):
    for t in internal:
      outs[k, t] = o = side["pub"].out_topic(t)
      await o.start(); await o.set_registered(True)
      for role in ("sub", "sub2"):
        c0 = C0(); c0.client = side[role]
        ins[k, t, role] = s = TopicSub(c0, t)
        await s.start()
  on, paused, want = set(), {}, {key: [] for key in ins}
  for _ in range(rng.randint(5, 25)):
    k, t = rng.randrange(len(insts)), rng.choice(internal)
    r = rng.random()
    if r < 0.5:
      key = (k, t, rng.choice(("sub", "sub2")))
      if key in on: on.discard(key); await ins[key].unsub()
      else:
        on.add(key); await ins[key].sub()
        if (k, t) in paused: want[key].append(("c", paused[k, t]))
      await settle()
      for (k2, t2), o in outs.items():
        w = any(x[:2] == (k2, t2) for x in on)
        ctx.check(o.is_requested == w, "demand-leaks-between-spaces", lambda: f"space {k2} topic {t2}: requested {o.is_requested}, its subscribers {[x for x in on if x[:2] == (k2, t2)]}")
        ctx.count("demand_true" if w else "demand_false")
    elif r < 0.8:
      d = payload(rng, [k, t, rng.randrange(10**6)])
      await outs[k, t].send(RawData(d))
      for key in on:
        if key[:2] == (k, t): want[key].append(("d", d))
      await settle(); ctx.count("published")
    else:
      v = not paused.get((k, t), False)
      paused[k, t] = v
      await outs[k, t].set_paused(v)
      for key in on:
        if key[:2] == (k, t): want[key].append(("c", v))
      await settle()
    for key, s in ins.items():
      got = [("d", i.data) if isinstance(i, RawData) else ("c", i.paused) for i in s.items]
      ctx.check(effective(got) == effective(want[key]), "space-observations", lambda: f"space {key}: got {got!r:.400} want {want[key]!r:.400}")
    ctx.count("observations", len(ins))
  ctx.sigadd(tuple((k, tuple(map(repr, v))) for k, v in want.items()))
  ctx.nontrivial = any(want.values())
  ctx.summary = dict(spaces=[mp for _, mp, _ in insts], published=ctx.counters.get("published", 0), delivered=sum(map(len, want.values())))
  for _, t in hosts: t.cancel()
  t0.cancel()
