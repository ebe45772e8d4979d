"""C05: a failing or closing link never disturbs traffic on other links."""
import asyncio
from vlib.core import family
from vlib.net import *
from vlib.net import _EOF
from vlib.world import World
from streamtasks.net import ConnectionClosedError

FAULTS = ("close-client", "close-switch", "send-breaks", "send-oserror", "recv-raises", "recv-garbage", "eof", "recv-closed")

def inject(ctx, c, how):
  """Make the client's link fail. Returns once the fault is armed."""
  a, b = c.link_sw, c.raw_link
  if how == "close-client": b.close()
  elif how == "close-switch": a.close()
  elif isinstance(a, VLink):
    if how == "send-breaks": a.broken = True
    elif how == "send-oserror":
      async def bad(m): raise ConnectionClosedError(origin=OSError(32, "Broken pipe"))
      a._send = bad
    elif how == "recv-raises": a.q.put_nowait(_EOF)
    elif how == "recv-closed": a.q.put_nowait(_EOF); a.broken = True
    elif how == "recv-garbage":
      a.raw = True
      a.q.put_nowait(b"\xc1\xff\x00garbage")
    elif how == "eof": a.q.put_nowait(_EOF)
  elif c.kind == "sock":
    w = c.raw_link._connection._writer if how in ("eof", "recv-closed", "send-breaks") else c.link_sw._connection._writer
    if how in ("recv-garbage",): c.raw_link._connection._writer.write(b"\xb8\x23\xa0\x6f\x04\x00\x00\x00\xc1\xc1\xc1\xc1")
    elif how in ("recv-raises",): w.close()
    else: w.transport.abort()
  else:
    a.close()

async def scenario(ctx, kinds, victim_kinds, sw, ns, nv, rounds):
  rng = ctx.rng
  net = Net(ctx, kinds)
  await net.tree(rng.randint(*sw))
  surv = [await net.add_client(address=600 + i) for i in range(rng.randint(*ns))]
  topics = list(range(50, 50 + rng.randint(1, 3)))
  vt = list(range(80, 83))      # topics of the victims
  prov, outs, pub = {}, {}, {}
  for t in topics:
    prov[t] = rng.choice(surv); outs[t] = prov[t].client.out_topic(t); pub[t] = []
    await outs[t].start(); await outs[t].set_registered(True)
  subs = {}
  for c in surv:
    for t in topics:
      if prov[t] is not c and rng.random() < 0.8:
        subs[c.id, t] = TopicSub(c, t); await subs[c.id, t].start(); await subs[c.id, t].sub()
  watch = rng.choice(surv)     # subscribes victims' topics
  victims = []
  extra = None
  only = topics[0] + 500       # provided by a survivor, subscribed by victims only
  oc = rng.choice(surv); oo = oc.client.out_topic(only); await oo.start(); await oo.set_registered(True)
  async def add_victim():
    c = await net.add_client(kind=rng.choice(victim_kinds), address=700 + len(victims))
    v = dict(c=c, topic=80 + len(victims) % 3, alive=True)
    v["out"] = c.client.out_topic(v["topic"]); await v["out"].start(); await v["out"].set_registered(True)
    for t in topics: v[t] = TopicSub(c, t); await v[t].start(); await v[t].sub()
    s = TopicSub(c, only); await s.start(); await s.sub()
    s2 = TopicSub(c, 81); await s2.start(); await s2.sub()
    victims.append(v)
    ctx.op("victim", c.id, "at", c.sw, c.kind)
    return v
  for _ in range(rng.randint(*nv)): await add_victim()
  ws = {}
  for t in vt:
    ws[t] = TopicSub(watch, t); await ws[t].start(); await ws[t].sub()
  await settle()
  sent_addr = []
  async def traffic(n):
    for _ in range(n):
      r = rng.random()
      if r < 0.6:
        t = rng.choice(topics); d = payload(rng, [t, len(pub[t])]); pub[t].append(d); await outs[t].send(RawData(d)); ctx.count("published")
      elif r < 0.8:
        a, b = rng.choice(surv), rng.choice(surv)
        sent_addr.append((a.id, b.id, len(sent_addr)))
        await a.client.send_to((b.address, 5), RawData({"tag": sent_addr[-1]})); ctx.count("addressed")
      elif r < 0.9:
        v = rng.choice(victims)
        if not v["alive"]: continue
        try:
          await v["out"].send(RawData({"tag": [v["topic"], 0]}))
          await v["c"].client.send_to((watch.address, 6), RawData({"tag": [0, 0]}))
        except ConnectionClosedError: pass
      else:
        a, v = rng.choice(surv), rng.choice(victims)
        await a.client.send_to((v["c"].address, 6), RawData({"tag": [1, 1]}))
      if rng.random() < 0.3: await asyncio.sleep(rng.choice((0, 0.0003, 0.01)))
  for _ in range(rounds):
    await traffic(rng.randint(0, 25))
    live = [v for v in victims if v["alive"]]
    kill = rng.sample(live, rng.randint(1, len(live))) if live else []
    for v in kill:
      how = rng.choice(FAULTS)
      ctx.op("fault", v["c"].id, how); ctx.count("fault:" + how)
      v["alive"] = False
      inject(ctx, v["c"], how)
      await traffic(rng.choice((0, 0, 1, 4)))
    await traffic(rng.randint(1, 20))
    if net.edges and rng.random() < 0.0: pass
    await settle()
    await traffic(3)
    await settle()
    if rng.random() < 0.6: await add_victim(); await settle()
  # the dead ones are gone everywhere
  dead = [v for v in victims if not v["alive"]]
  live = [v for v in victims if v["alive"]]
  for i, s in enumerate(net.switches):
    p, q = vlink_pair(rng)
    await s.add_link(p)
    got_t, got_a = {}, {}
    await settle()
    while not q.q.empty():
      m = await q._recv()
      if isinstance(m, OutTopicsChangedMessage): got_t.update({x.id: x.cost for x in m.add})
      if isinstance(m, AddressesChangedMessage): got_a.update({x.id: x.cost for x in m.add})
    wt = {only: oc.cost_at(i)}
    for t in topics: wt[t] = prov[t].cost_at(i)
    for v in live: wt[v["topic"]] = min(wt.get(v["topic"], 1 << 60), v["c"].cost_at(i))
    wa = {c.address: c.cost_at(i) for c in surv + [v["c"] for v in live]}
    ctx.check(got_t == wt, "stale-after-failure" if set(got_t) - set(wt) else "wrong-routes-after-failure", lambda: f"switch {i}: topics {got_t} want {wt}")
    ctx.check(got_a == wa, "stale-address-after-failure" if set(got_a) - set(wa) else "wrong-routes-after-failure", lambda: f"switch {i}: addresses {got_a} want {wa}")
    ctx.count("tables")
  ctx.check(oo.is_requested == bool([v for v in live if v["c"] is not oc]), "demand-after-failure", lambda: f"topic {only} requested={oo.is_requested} live subscribers {[v['c'].id for v in live]}")
  for i, j, a, b in net.edges: ctx.check(not a.closed and not b.closed, "other-link-closed", f"edge {i}-{j}")
  for c in surv: ctx.check(not c.link_sw.closed and not c.raw_link.closed and c.link_sw in net.switches[c.sw].link_manager.links, "other-link-closed", f"client {c.id}")
  for v in dead: ctx.check(v["c"].link_sw.closed and v["c"].link_sw not in net.switches[v["c"].sw].link_manager.links, "failed-link-kept", lambda: f"client {v['c'].id} {v['c'].kind} closed={v['c'].link_sw.closed}")
  # survivors' traffic was complete
  for (cid, t), s in subs.items():
    got = [d.data for d in s.items if isinstance(d, RawData)]
    ctx.count("delivered", len(got))
    ctx.check(got == pub[t], "traffic-disturbed", lambda: f"client {cid} topic {t}: got {[tag_of(d)[1] for d in got]} of {len(pub[t])}")
  for b in surv:
    got = [tag_of(m.data.data) for m in b.all.got if isinstance(m, AddressedMessage) and m.port == 5]
    want = [x for x in sent_addr if x[1] == b.id]
    ctx.check(sorted(got) == sorted(want), "addressed-disturbed", lambda: f"client {b.id} got {got} want {want}")
    for s in surv: ctx.check([g for g in got if g[0] == s.id] == [x for x in want if x[0] == s.id], "addressed-reordered", lambda: f"client {b.id} from {s.id} got {got}")
  # the same clients can come back
  for v in dead[:2]:
    c = v["c"]
    n = NClient(net, c.id, c.sw, rng.choice(victim_kinds))
    await n.attach(); await n.client.set_address(c.address)
    s = TopicSub(n, topics[0]); await s.start()
    if prov[topics[0]].id != c.id: await s.sub()
    o = n.client.out_topic(80 + 9); await o.start(); await o.set_registered(True)
    await settle()
    await outs[topics[0]].send(RawData({"tag": [0, 1]}))
    await surv[0].client.send_to((c.address, 9), RawData({"tag": [3, 3]}))
    await settle()
    ctx.check([d.data for d in s.items if isinstance(d, RawData)] == [{"tag": [0, 1]}], "not-served-again", f"client {c.id} topic data {s.items}")
    ctx.check(sum(1 for m in n.all.got if isinstance(m, AddressedMessage) and m.port == 9) == 1, "not-served-again", f"client {c.id} address")
    ctx.count("reattached")
    for s2 in subs.values(): pass
    n.raw_link.close()
    await settle()
  ctx.sigadd(tuple(x for x in ctx.log if x[0] in ("fault", "victim", "join", "client")))
  ctx.nontrivial = bool(dead) and ctx.counters.get("delivered", 0) > 0
  ctx.summary = dict(history=[repr(x) for x in ctx.log[:60]], counters=dict(ctx.counters))

V = ("queue", "rawqueue", "v-zero", "v-small", "v-big", "v-burst", "y-zero", "y-burst")

@family("client_links", quick=300, thorough=9000)
async def client_links(ctx): await scenario(ctx, KINDS[:6], V, (1, 4), (2, 5), (1, 4), ctx.rng.randint(1, 4))

@family("yielding_links", quick=200, thorough=6000)
async def ylinks(ctx): await scenario(ctx, YIELD, ("y-zero", "y-small", "y-burst"), (1, 4), (2, 5), (1, 4), ctx.rng.randint(1, 4))

@family("sockets", quick=80, thorough=1500)
async def socks(ctx): await scenario(ctx, ("sock", "v-small", "queue"), ("sock",), (1, 3), (2, 4), (1, 3), ctx.rng.randint(1, 2))

@family("branches", quick=250, thorough=8000)
async def branches(ctx):
  """Whole branches fail while traffic is in flight; clients on the other side keep working."""
  rng = ctx.rng
  w = World(ctx, KINDS[:6], rng.randint(2, 5), rng.randint(3, 7), range(60, 63), range(500, 503))
  await w.build()
  cl = w.clients
  for t in w.topics: await w.provide(rng.choice(cl), t, True)
  for a in w.addresses:
    c = rng.choice(cl)
    if c.address is None: await w.set_address(c, a)
  for c in cl:
    for t in w.topics:
      if (c.id, t) not in w.provided and rng.random() < 0.7: await w.subscribe(c, t, True)
  await settle()
  pub = {t: 0 for t in w.topics}
  async def burst(n):
    for _ in range(n):
      t = rng.choice(w.topics)
      p = w.providers(t)[0]
      await w.outs[p.id, t].send(RawData({"tag": [t, pub[t]]})); pub[t] += 1; ctx.count("published")
      if rng.random() < 0.3: await asyncio.sleep(rng.choice((0, 0.001)))
  await burst(rng.randint(1, 20))
  start = dict(pub)
  n = rng.randint(1, 2)
  for _ in range(n): w.split(); ctx.count("fault:split")
  await burst(rng.randint(1, 20))
  await settle()
  for (cid, t) in w.subscribed:
    c, p = w.client(cid), w.providers(t)[0]
    got = [tag_of(m.data.data)[1] for m in c.all.got if isinstance(m, TopicDataMessage) and m.topic == t]
    ctx.count("delivered", len(got))
    if w.net.dist(p.sw, c.sw) is not None: ctx.check(got == list(range(pub[t])), "traffic-disturbed", lambda: f"client {cid} topic {t} got {got} of {pub[t]} (connected)")
    else: ctx.check(got == list(range(len(got))), "partial-prefix", lambda: f"client {cid} topic {t} got {got}, cut off")
  w.check_routes(); w.check_demand()
  while await w.rejoin(): await settle()
  await settle()
  w.check_routes(); w.check_demand()
  marks = {c.id: len(c.all.got) for c in cl}
  base = dict(pub)
  await burst(10)
  await settle()
  for (cid, t) in w.subscribed:
    got = [tag_of(m.data.data)[1] for m in w.client(cid).all.got[marks[cid]:] if isinstance(m, TopicDataMessage) and m.topic == t]
    ctx.check(got == list(range(base[t], pub[t])), "not-served-again", lambda: f"client {cid} topic {t} got {got} want {base[t]}..{pub[t]}")
  ctx.sigadd(tuple(x[:5] for x in ctx.log)); ctx.nontrivial = True
  ctx.summary = dict(history=[repr(x) for x in ctx.log[:60]])
