"""C01: topic data reaches exactly its subscribers, once and in order."""
import asyncio
from vlib.core import family
from vlib.net import *

async def scenario(ctx, n_switch, n_client, kinds, ops, noise=0.3):
  rng = ctx.rng
  net = Net(ctx, kinds)
  await net.tree(n_switch)
  for _ in range(n_client): await net.add_client()
  topics = list(range(50, 50 + rng.randint(1, 4)))
  prov, outs, pubs, settled = {}, {}, {}, {}
  for t in topics:
    p = rng.choice(net.clients)
    prov[t] = p
    outs[t] = p.client.out_topic(t)
    await outs[t].start()
    await outs[t].set_registered(True)
    pubs[t], settled[t] = [], 0
    ctx.op("provider", t, p.id)
  early = rng.random() < 0.3  # subscriptions that race the provider's registration
  if not early: await settle()
  subs = {}
  for c in net.clients:
    for t in topics:
      if prov[t] is c: continue
      s = TopicSub(c, t)
      await s.start()
      subs[c.id, t] = (s, [])
  churn = {t: 0 for t in topics}   # unsubscriptions since the last quiescence
  async def quiesce():
    await settle()
    for (cid, t), (s, ws) in subs.items():
      n = len(pubs[t])
      if ws and ws[-1]["hi"] is None:
        w = ws[-1]
        if w["must_from"] is None: w["must_from"] = n
        w["must_to"] = n
    for t in topics: settled[t] = len(pubs[t]); churn[t] = 0
    ctx.op("settle")
  async def do_sub(key):
    s, ws = subs[key]
    t = key[1]
    w = dict(lo=settled[t], must_from=None, must_to=None, hi=None, start=len(s.c.all.got), end=None, clean=churn[t] == 0)
    ws.append(w)
    ctx.op("sub", *key)
    await s.sub()
  async def do_unsub(key):
    s, ws = subs[key]
    churn[key[1]] += 1
    for k2, (_, w2) in subs.items():  # windows open now on this topic may have lost their flow
      if k2[1] == key[1] and w2 and w2[-1]["hi"] is None and w2[-1]["must_from"] is None: w2[-1]["clean"] = False
    w = ws[-1]
    ctx.op("unsub", *key)
    await s.unsub()
    w["hi"], w["end"] = len(pubs[key[1]]), len(s.c.all.got)
  async def publish(t, n):
    for _ in range(n):
      seq = len(pubs[t])
      d = payload(rng, [t, seq])
      pubs[t].append(d)
      await outs[t].send(RawData(d))
      ctx.count("published")
    ctx.op("pub", t, n, "->", len(pubs[t]))
  noise_topics = {}
  for _ in range(ops):
    r = rng.random()
    key = rng.choice(list(subs)) if subs else None
    if r < 0.30 and topics: await publish(rng.choice(topics), rng.choice((1, 1, 2, 5, 12)))
    elif r < 0.50 and key and not subs[key][0].registered: await do_sub(key)
    elif r < 0.62 and key and subs[key][0].registered: await do_unsub(key)
    elif r < 0.74: await quiesce()
    elif r < 0.84: await asyncio.sleep(rng.choice((0, 0, 0.0005, 0.01, 0.1)))
    elif r < 0.84 + 0.16 * noise:
      c = rng.choice(net.clients)
      nt = rng.randrange(900, 906)
      if (c.id, nt) in noise_topics:
        kind = noise_topics.pop((c.id, nt))
        await (c.client.unregister_in_topics([nt]) if kind else c.client.unregister_out_topics([nt]))
      else:
        kind = rng.random() < 0.5
        noise_topics[c.id, nt] = kind
        await (c.client.register_in_topics([nt]) if kind else c.client.register_out_topics([nt]))
      ctx.op("noise", c.id, nt, kind)
    elif len(net.clients) < n_client + 2:
      c = await net.add_client()
      for t in topics:
        s = TopicSub(c, t); await s.start(); subs[c.id, t] = (s, [])
  await quiesce()
  for t in topics: await publish(t, 2)
  await quiesce()
  # ---- the offline oracle over the recorded history
  nd = 0
  for (cid, t), (s, ws) in subs.items():
    seqs = []
    for it in s.items:
      if not isinstance(it, RawData): continue
      d = it.data
      tg = tag_of(d)
      ctx.check(tg[0] == t, "wrong-topic", f"client {cid} topic {t} got {tg}")
      ctx.check(0 <= tg[1] < len(pubs[t]) and d == pubs[t][tg[1]], "content-changed", lambda: f"client {cid} {tg}: {d!r:.200} want {pubs[t][tg[1]]!r:.200}")
      seqs.append(tg[1])
    nd += len(seqs)
    ctx.count("delivered", len(seqs))
    ctx.check(len(set(seqs)) == len(seqs), "duplicate", lambda: f"client {cid} topic {t} seqs {seqs}")
    ctx.check(seqs == sorted(seqs), "reordered", lambda: f"client {cid} topic {t} seqs {seqs}")
    disp = [(i, tag_of(m.data.data)[1]) for i, m in enumerate(s.c.all.got) if isinstance(m, TopicDataMessage) and m.topic == t]
    ctx.check([q for _, q in disp] == seqs, "receivers-differ", lambda: f"client {cid} topic {t}: dispatched {disp} topic object got {seqs}")
    inside = set()
    for w in ws:
      hi = len(pubs[t]) if w["hi"] is None else w["hi"]
      run = [q for i, q in disp if w["start"] <= i and (w["end"] is None or i < w["end"])]
      inside.update(run)
      ctx.check(all(w["lo"] <= q < hi for q in run), "delivered-outside-window", lambda: f"client {cid} topic {t} run {run} window {w}")
      if w["must_from"] is not None:
        miss = set(range(w["must_from"], max(w["must_from"], w["must_to"]))) - set(run)
        ctx.check(not miss, "lost", lambda: f"client {cid} topic {t} missing {sorted(miss)} run {run} window {w} published {len(pubs[t])}")
      if w["clean"]: ctx.check(not run or run == list(range(run[0], run[-1] + 1)), "gap", lambda: f"client {cid} topic {t} run {run} window {w}")
    ctx.check(inside == set(seqs), "delivered-unsubscribed", lambda: f"client {cid} topic {t} got {sorted(set(seqs) - inside)} while not subscribed {ws}")
    ctx.sigadd(t, len(ws), tuple(seqs[:40]))
  for c in net.clients:  # what each client's switch put on the client's own link
    wired = [m for m in c.tap.msgs if isinstance(m, TopicDataMessage)]
    for m in wired:
      ctx.check(m.topic not in topics or prov[m.topic] is not c, "echoed-to-provider", f"client {c.id} topic {m.topic}")
      ctx.check(m.topic not in topics or subs[c.id, m.topic][1] != [], "sent-to-non-subscriber", f"client {c.id} never subscribed to {m.topic} but data crossed its link")
    ctx.count("wire_messages", len(wired))
  # data published while quiescent and unsubscribed must not even cross the client's link
  marks = {c.id: len(c.tap.msgs) for c in net.clients}
  for t in topics: await publish(t, 1)
  await settle()
  for c in net.clients:
    for m in c.tap.msgs[marks[c.id]:]:
      if isinstance(m, TopicDataMessage) and m.topic in topics:
        ctx.check(subs[c.id, m.topic][0].registered, "sent-to-non-subscriber", f"client {c.id} topic {m.topic} after quiescence")
  ctx.nontrivial = nd > 0 and any(len(ws) for _, ws in subs.values())
  ctx.summary = dict(switches=n_switch, clients=len(net.clients), topics=len(topics), history=[repr(x) for x in ctx.log[:60]], delivered=nd)

@family("tree", quick=160, thorough=4000)
async def tree(ctx):
  r = ctx.rng
  await scenario(ctx, r.randint(1, 5), r.randint(2, 6), KINDS[:6], r.randint(20, 70))

@family("one_switch_churn", quick=120, thorough=3000)
async def churny(ctx):
  r = ctx.rng
  await scenario(ctx, r.randint(1, 2), r.randint(3, 6), ("queue", "rawqueue", "v-zero", "v-burst"), r.randint(60, 160), noise=1.0)

@family("sockets", quick=40, thorough=700)
async def sockets(ctx):
  r = ctx.rng
  await scenario(ctx, r.randint(1, 3), r.randint(2, 4), ("sock", "v-small"), r.randint(15, 40))

@family("yielding_links", quick=160, thorough=3000)
async def yielding(ctx):
  r = ctx.rng
  await scenario(ctx, r.randint(1, 4), r.randint(2, 6), YIELD, r.randint(20, 90))
