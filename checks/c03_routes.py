"""C03: advertised routes converge to the live providers at least cost."""
import asyncio
from vlib.core import family
from vlib.net import *
from vlib.world import World

async def history(ctx, w, ops, faults, max_clients):
  rng = ctx.rng
  for i in range(len(w.net.switches)): await w.add_probe(i)
  for _ in range(ops):
    r = rng.random()
    cl = w.clients
    c = rng.choice(cl) if cl else None
    t = rng.choice(w.topics)
    if r < 0.34 and c: await w.provide(c, t, (c.id, t) not in w.provided)
    elif r < 0.50 and c and w.addresses:
      free = [a for a in w.addresses if a not in w.owner]
      a = rng.choice(free + [None]) if free else None
      if a is None and c.address is None: continue
      await w.set_address(c, a)
    elif r < 0.57 and c:
      if (c.id, t) not in w.provided or True: await w.subscribe(c, t, (c.id, t) not in w.subscribed)
    elif r < 0.63 and c and faults and len(cl) > 1: w.detach(c)
    elif r < 0.70 and len(cl) < max_clients: await w.net.add_client()
    elif r < 0.74 and faults: w.split()
    elif r < 0.79 and faults: await settle(); await w.rejoin()
    elif r < 0.82 and len(w.probes) < 14: await w.add_probe(rng.randrange(len(w.net.switches)))
    elif r < 0.88: await asyncio.sleep(rng.choice((0, 0.001, 0.05)))
    elif r < 0.95:
      await settle()
      w.check_routes()
      ctx.op("checked")
  await settle()
  w.check_routes()
  for i in range(len(w.net.switches)): await w.add_probe(i)   # what a newcomer is told
  await settle()
  w.check_routes()
  ctx.sigadd(tuple(x[:4] for x in ctx.log))
  ctx.nontrivial = ctx.counters.get("routes", 0) > 5
  ctx.summary = dict(history=[repr(x) for x in ctx.log[:70]], counters=dict(ctx.counters))

def fam(name, quick, thorough, kinds, sw, cl, topics, ops, faults):
  @family(name, quick, thorough)
  async def _(ctx):
    r = ctx.rng
    w = World(ctx, kinds, r.randint(*sw), r.randint(*cl), range(60, 60 + r.randint(*topics)), range(500, 504))
    await w.build()
    await history(ctx, w, r.randint(*ops), faults, cl[1] + 3)

fam("register", 500, 20000, KINDS[:6], (1, 5), (2, 6), (1, 5), (20, 80), False)
fam("faults", 700, 25000, KINDS[:6], (1, 6), (2, 6), (1, 5), (20, 90), True)
fam("few_ids", 500, 15000, ("queue", "v-burst", "v-big"), (2, 4), (3, 6), (1, 1), (30, 120), True)
fam("sockets", 80, 1500, ("sock", "v-small"), (1, 3), (2, 4), (1, 2), (15, 40), True)
fam("yielding_links", 300, 10000, YIELD, (1, 5), (2, 6), (1, 4), (20, 80), True)
