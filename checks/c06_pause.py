"""C06: subscribers always learn a topic's current pause state, in order with its data."""
import asyncio
from streamtasks.net.messages import TopicControlData
from vlib.core import family
from vlib.net import *
from vlib.world import World

async def scenario(ctx, kinds, n_switch, n_client, ops, splits):
  rng = ctx.rng
  topics = list(range(60, 60 + rng.randint(1, 3)))
  w = World(ctx, kinds, n_switch, n_client, topics)
  await w.build()
  prov = {}
  sent = {t: [] for t in topics}      # ("c", paused) | ("d", seq, paused at publication)
  state = {t: False for t in topics}
  for t in topics:
    prov[t] = rng.choice(w.clients)
    await w.provide(prov[t], t, True)
  early = rng.random() < 0.3
  if not early: await settle()
  mark = {}                            # (cid, topic) -> (items seen, sent items) at the last quiescent point, None if not exact
  split_since = False
  base = {}     # (cid, topic) -> (first item to judge, state then); None while an unsubscription may still be in flight
  def view(s):
    out = []
    for it in s.items:
      if isinstance(it, TopicControlData): out.append(("c", it.paused))
      else: d = it.data; out.append(("d", *tag_of(d)[1:]))
    return out
  def judge(cid, t):
    """Data must be received in the pause state it was published in."""
    if base.get((cid, t)) is None: return
    i, cur = base[cid, t]
    v = view(w.subs[cid, t])
    for it in v[i:]:
      if it[0] == "c": cur = it[1]
      else:
        ctx.check(cur == it[2], "data-out-of-order-with-pause", lambda: f"topic {t} subscriber {cid}: data published with paused={it[2]} received in state {cur}: {v[i:]}")
        ctx.count("data_checked")
  async def quiesce():
    nonlocal split_since
    await settle()
    ctx.op("settle")
    for t in topics:
      o = w.outs[prov[t].id, t]
      ctx.check(o.is_paused == state[t], "provider-state", f"topic {t}: OutTopic.is_paused {o.is_paused} set {state[t]}")
      for c in w.clients:
        if (c.id, t) not in w.subs or c is prov[t]: continue
        s = w.subs[c.id, t]
        judge(c.id, t)
        base[c.id, t] = (len(s.items), s.t.is_paused)
        if not s.registered: mark.pop((c.id, t), None); continue
        if w.net.dist(prov[t].sw, c.sw) is None: mark.pop((c.id, t), None); continue
        ctx.check(s.t.is_paused == state[t], "pause-state", lambda: f"topic {t} subscriber {c.id} sees paused={s.t.is_paused} provider {prov[t].id} set {state[t]}; received {view(s)[-10:]}")
        ctx.count("state_checked")
        if state[t]: ctx.count("paused_seen")
        v = view(s)
        if (c.id, t) in mark and not split_since:
          a, b = mark[c.id, t]
          ctx.check(v[a:] == sent[t][b:], "sequence", lambda: f"topic {t} subscriber {c.id}: received {v[a:]} sent {sent[t][b:]}")
          ctx.count("windows_exact")
        mark[c.id, t] = (len(v), len(sent[t]))
    split_since = False
  for _ in range(ops):
    r = rng.random()
    t = rng.choice(topics)
    o = w.outs[prov[t].id, t]
    if r < 0.28:
      p = rng.random() < 0.5
      if p != state[t]: sent[t].append(("c", p)); state[t] = p
      ctx.op("pause", t, p)
      await o.set_paused(p)
      ctx.count("pause_calls")
    elif r < 0.48:
      for _ in range(rng.choice((1, 1, 2, 4))):
        k = ("d", len(sent[t]), state[t])
        sent[t].append(k)
        await o.send(RawData(payload(rng, [t, *k[1:]])))
        ctx.count("published")
      ctx.op("pub", t)
    elif r < 0.70:
      c = rng.choice(w.clients)
      if c is prov[t]: continue
      on = (c.id, t) not in w.subscribed
      mark.pop((c.id, t), None)
      if on and (c.id, t) not in w.subs: base[c.id, t] = (0, False)
      if not on:
        judge(c.id, t)
        base[c.id, t] = None
      await w.subscribe(c, t, on)
      ctx.count("subscribe" if on else "unsubscribe")
    elif r < 0.80: await quiesce()
    elif r < 0.88: await asyncio.sleep(rng.choice((0, 0.001, 0.05, 0.3)))
    elif r < 0.93 and len(w.clients) < n_client + 2: await w.net.add_client()
    elif splits:
      if rng.random() < 0.5:
        if w.split(): split_since = True
      else:
        await quiesce()   # messages still under way on an old path may arrive after those of a new one
        if await w.rejoin(): split_since = True
  if splits: await quiesce()
  while splits and await w.rejoin(): split_since = True
  await quiesce()
  for t in topics:
    p = not state[t]
    sent[t].append(("c", p)); state[t] = p
    await w.outs[prov[t].id, t].set_paused(p)
  await quiesce()
  # a client that comes last learns the state as well
  late = await w.net.add_client()
  for t in topics: await w.subscribe(late, t, True)
  await quiesce()
  ctx.sigadd(tuple((t, tuple(sent[t])) for t in topics), tuple((k, tuple(view(s))) for k, s in w.subs.items()))
  ctx.nontrivial = ctx.counters.get("windows_exact", 0) > 0 and ctx.counters.get("paused_seen", 0) > 0
  ctx.summary = dict(history=[repr(x) for x in ctx.log[:60]], counters=dict(ctx.counters))

def fam(name, quick, thorough, kinds, sw, cl, ops, splits=False):
  @family(name, quick, thorough)
  async def _(ctx):
    r = ctx.rng
    await scenario(ctx, kinds, r.randint(*sw), r.randint(*cl), r.randint(*ops), splits)

fam("tree", 500, 20000, KINDS[:6], (1, 5), (2, 5), (20, 90))
fam("yielding_links", 300, 10000, YIELD, (1, 4), (2, 5), (20, 90))
fam("splits", 300, 10000, KINDS[:6], (2, 5), (2, 5), (20, 90), True)
fam("sockets", 60, 1000, ("sock", "v-small"), (1, 3), (2, 4), (15, 40))
