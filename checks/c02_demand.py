"""C02: a provider is asked for data exactly while some client subscribes."""
import asyncio
from vlib.core import family
from vlib.net import *
from vlib.world import World

async def history(ctx, w, ops, faults, multi, max_clients):
  rng = ctx.rng
  checks = 0
  for _ in range(ops):
    r = rng.random()
    cl = w.clients
    c = rng.choice(cl) if cl else None
    t = rng.choice(w.topics)
    if r < 0.34 and c:
      on = (c.id, t) not in w.subscribed
      if (c.id, t) in w.provided: continue
      await w.subscribe(c, t, on)
    elif r < 0.54 and c:
      on = (c.id, t) not in w.provided
      if on and ((c.id, t) in w.subscribed or (w.providers(t) and not multi)): continue
      await w.provide(c, t, on)
    elif r < 0.60 and c and faults and len(cl) > 1: w.detach(c)
    elif r < 0.66 and len(cl) < max_clients: await w.net.add_client()
    elif r < 0.70 and faults: w.split()
    elif r < 0.75 and faults: await settle(); await w.rejoin()
    elif r < 0.82: await asyncio.sleep(rng.choice((0, 0.001, 0.05)))
    elif r < 0.92:
      await settle()
      w.check_demand(); checks += 1
      ctx.op("checked")
  await settle()
  w.check_demand()
  # served again: every demanded topic with a live provider still carries data end to end
  for t in w.topics:
    ps = w.providers(t)
    if len(ps) != 1: continue
    p = ps[0]
    marks = {s.id: len(s.all.got) for s in w.clients}
    await w.outs[p.id, t].send(RawData({"tag": [t, 0]}))
    await settle()
    for s in w.subscribers(t):
      if s is p or w.net.dist(p.sw, s.sw) is None: continue
      n = sum(1 for m in s.all.got[marks[s.id]:] if isinstance(m, TopicDataMessage) and m.topic == t)
      ctx.check(n == 1, "not-served", f"topic {t} provider {p.id} subscriber {s.id} received {n}")
      ctx.count("served")
  ctx.sigadd(tuple(x[:4] for x in ctx.log))
  ctx.nontrivial = ctx.counters.get("requested", 0) > 0 and ctx.counters.get("unrequested", 0) > 0
  ctx.summary = dict(history=[repr(x) for x in ctx.log[:70]], counters=dict(ctx.counters))

def fam(name, quick, thorough, kinds, sw, cl, topics, ops, faults, multi):
  @family(name, quick, thorough)
  async def _(ctx):
    r = ctx.rng
    w = World(ctx, kinds, r.randint(*sw), r.randint(*cl), range(60, 60 + r.randint(*topics)))
    await w.build()
    await history(ctx, w, r.randint(*ops), faults, multi, cl[1] + 3)

fam("single_provider", 500, 20000, KINDS[:6], (1, 5), (2, 6), (1, 4), (20, 80), False, False)
fam("single_provider_faults", 500, 20000, KINDS[:6], (1, 5), (2, 6), (1, 4), (20, 80), True, False)
fam("multi_provider", 500, 20000, KINDS[:6], (1, 4), (3, 6), (1, 2), (20, 80), False, True)
fam("multi_provider_faults", 500, 20000, KINDS[:6], (1, 5), (3, 6), (1, 2), (20, 80), True, True)
fam("sockets", 80, 1500, ("sock", "v-small"), (1, 3), (2, 4), (1, 2), (15, 40), True, True)
fam("yielding_links", 400, 10000, YIELD, (1, 4), (3, 6), (1, 3), (20, 80), True, True)
