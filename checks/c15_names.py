"""C15: names, topic spaces and broadcast namespaces resolve to their registration."""
import asyncio
from streamtasks.client.broadcast import BroadcastingServer, BroadcastReceiver
from streamtasks.client.discovery import (DiscoveryConstants, RegisterAddressNameRequestBody, UnregisterAddressNameMessage, address_name_context, delete_topic_space,
  get_topic_space, get_topic_space_translation, register_topic_space, wait_for_address_name)
from streamtasks.client.fetch import FetchError, FetchErrorStatusCode
from streamtasks.client.signal import send_signal
from streamtasks.services.constants import NetworkAddresses
from vlib.core import family
from vlib.disco import *

async def expect_error(ctx, co, codes, mech):
  try: r = await asyncio.wait_for(co, 100)
  except FetchError as e:
    ctx.check(e.status_code in codes, mech + "-status", lambda: e.body)
    return
  except asyncio.TimeoutError: ctx.fail(mech + "-not-answered")
  ctx.fail(mech + "-accepted", r)

@family("names", quick=300, thorough=15000)
async def names(ctx):
  rng = ctx.rng
  net = await with_discovery(ctx, KINDS if rng.random() < 0.7 else YIELD, rng.randint(1, 3))
  cs = [(await net.add_client()) for _ in range(rng.randint(2, 5))]
  for c in cs: await c.client.request_address()
  NAMES = ["srv", "srv2", "sr", "named_topic_manager", "x y", "ünï", "a.b", ""]
  reg, holders = {}, []       # name -> address ; (name, address, context)
  waiters = []                # (task, name, list of acceptable addresses)
  def registered(n, a):
    reg[n] = a
    for w in waiters:
      if w["name"] == n and not w["task"].done(): w["ok"].add(a); w["due"] = w["due"] or w["settled"]
  async def enter(n, a, c):
    ctxm = address_name_context(c, n, a)
    registered(n, a)
    await ctxm.__aenter__()
    holders.append((n, a, ctxm))
  for k in range(rng.randint(8, 40)):
    c = rng.choice(cs).client
    n = rng.choice(NAMES)
    x = rng.random()
    if x < 0.25:
      a = c.address if rng.random() < 0.6 else rng.randrange(1, 10**6)
      if any(h[0] == n and h[1] == a for h in holders): continue
      ctx.op(k, "register", n, a); ctx.count("registers"); ctx.sigadd("reg", n)
      await asyncio.wait_for(enter(n, a, c), 100)
    elif x < 0.38 and holders:
      h = holders.pop(rng.randrange(len(holders)))
      ctx.op(k, "unregister", h[0], h[1]); ctx.count("unregisters")
      await h[2].__aexit__(None, None, None)
      if reg.get(h[0]) == h[1]: reg.pop(h[0]); ctx.sigadd("unreg", h[0])
      else: ctx.count("superseded")
      await settle(2)
    elif x < 0.45:
      a = rng.randrange(1, 10**6)
      registered(n, a)
      await asyncio.wait_for(c.fetch(NetworkAddresses.ID_DISCOVERY, DiscoveryConstants.FD_REGISTER_ADDRESS_NAME, {"address_name": n, "address": a}), 100)
      ctx.op(k, "register directly", n, a)
    elif x < 0.50:
      await send_signal(c, NetworkAddresses.ID_DISCOVERY, DiscoveryConstants.SD_UNREGISTER_ADDRESS_NAME, {"address_name": n})
      reg.pop(n, None)
      await settle(2)
      ctx.op(k, "unregister directly", n)
    elif x < 0.78:
      r = await asyncio.wait_for(c.resolve_address_name(n), 100)
      ctx.check(r == reg.get(n), "wrong-address", lambda: (n, r, reg.get(n)))
      ctx.count("resolved" if r is not None else "resolved_none"); ctx.sigadd("resolve", n, r is None)
    elif x < 0.92:
      w = dict(name=n, ok=set([reg[n]] if n in reg else []), due=False, settled=False)
      async def go(w=w, c=c, n=n): return await wait_for_address_name(c, n)
      w["task"] = asyncio.create_task(go())
      waiters.append(w); ctx.op(k, "wait", n); ctx.count("waiters")
      if rng.random() < 0.5: await settle(1)
    else:
      body = rng.choice(({"address_name": "a:b", "address": 1}, {"address_name": "9x", "address": 1}, {"address": 1}, {"address_name": "srv", "address": "x"}, 5, {"address_name": "0", "address": 1},
        {"address_name": 5, "address": 1}, {"address_name": "srv"}))
      await expect_error(ctx, c.fetch(NetworkAddresses.ID_DISCOVERY, DiscoveryConstants.FD_REGISTER_ADDRESS_NAME, body), (FetchErrorStatusCode.BAD_REQUEST, FetchErrorStatusCode.GENERAL), "invalid-name")
      ctx.count("refused")
    if rng.random() < 0.2:
      await settle(3)
      for w in waiters: w["settled"] = True
  await settle(10)
  for w in waiters:
    if w["due"] or w["name"] in reg:
      ctx.check(w["task"].done(), "waiter-not-woken", lambda: (w["name"], reg.get(w["name"])))
    if w["task"].done():
      r = w["task"].result()
      ctx.check(r in w["ok"], "waiter-wrong-address", lambda: (w["name"], r, w["ok"])); ctx.count("woken")
    else: w["task"].cancel(); ctx.count("still_waiting")
  for n in NAMES:
    for c in cs[:2]:
      r = await asyncio.wait_for(c.client.resolve_address_name(n), 100)
      ctx.check(r == reg.get(n), "wrong-address", lambda: (n, r, reg.get(n)))
  # a late waiter of every unregistered name is woken by its registration
  n = next((n for n in NAMES if n not in reg), None)
  if n is not None:
    t = asyncio.create_task(wait_for_address_name(cs[0].client, n))
    await settle(3)
    ctx.check(not t.done(), "waiter-woken-early", n)
    await asyncio.wait_for(enter(n, cs[-1].client.address, cs[-1].client), 100)
    await settle(3)
    ctx.check(t.done() and t.result() == cs[-1].client.address, "waiter-not-woken", lambda: (n, t))
  ctx.check(not net.discovery_task.done(), "discovery-ended")
  ctx.nontrivial = ctx.counters.get("resolved", 0) > 0
  ctx.keep = holders
  ctx.summary = [x[1:] for x in ctx.log[-8:]]

@family("spaces", quick=300, thorough=15000)
async def spaces(ctx):
  rng = ctx.rng
  net = await with_discovery(ctx, KINDS, rng.randint(1, 3))
  cs = [(await net.add_client()).client for _ in range(2)]
  for c in cs: await c.request_address()
  live, dead, used = {}, [], {}
  for k in range(rng.randint(8, 30)):
    c, x = rng.choice(cs), rng.random()
    if x < 0.3:
      async def make(c):
        ts = {rng.choice((0, 1, 5, 6, 7, 100000, 100003, rng.randrange(10**6))) for _ in range(rng.randrange(7))}
        return ts, await asyncio.wait_for(register_topic_space(c, ts), 100)
      for ts, (sid, m) in await asyncio.gather(*(make(rng.choice(cs)) for _ in range(rng.choice((1, 1, 3))))):
        ctx.check(sid not in live and sid not in dead, "space-id-reused", sid)
        ctx.check(set(m) == ts, "space-incomplete", lambda: (ts, m))
        for v in m.values():
          ctx.check(v not in used, "space-topic-not-fresh", lambda: (v, used[v], sid)); used[v] = sid
        live[sid] = m; ctx.count("spaces"); ctx.sigadd("space", len(ts))
    elif x < 0.4: 
      for t in await asyncio.wait_for(c.request_topic_ids(3), 100):
        ctx.check(t not in used, "space-topic-not-fresh", t); used[t] = "direct"
    elif x < 0.55 and live:
      sid = rng.choice(sorted(live)); del live[sid]; dead.append(sid)
      await asyncio.wait_for(delete_topic_space(c, sid), 100); ctx.count("deleted"); ctx.sigadd("delete")
    elif x < 0.85 and live:
      sid = rng.choice(sorted(live))
      if rng.random() < 0.5:
        ctx.eq(await asyncio.wait_for(get_topic_space(c, sid), 100), live[sid], "space-differs"); ctx.count("lookups")
      elif live[sid]:
        t = rng.choice(sorted(live[sid]))
        ctx.eq(await asyncio.wait_for(get_topic_space_translation(c, sid, t), 100), live[sid][t], "translation-differs"); ctx.count("lookups")
        t2 = 777777
        await expect_error(ctx, get_topic_space_translation(c, sid, t2), (FetchErrorStatusCode.NOT_FOUND,), "unknown-topic")
    else:
      sid = rng.choice(dead + [0, -1, 9999])
      f = rng.choice((lambda: get_topic_space(c, sid), lambda: get_topic_space_translation(c, sid, 5), lambda: delete_topic_space(c, sid)))
      await expect_error(ctx, f(), (FetchErrorStatusCode.NOT_FOUND,), "unknown-space"); ctx.count("not_found"); ctx.sigadd("unknown")
      bad = rng.choice(({"id": "x"}, {}, 3, {"topic_space_id": 1}))
      d = rng.choice((DiscoveryConstants.FD_GET_TOPIC_SPACE, DiscoveryConstants.FD_DELETE_TOPIC_SPACE, DiscoveryConstants.FD_GET_TOPIC_SPACE_TRANSLATION))
      await expect_error(ctx, c.fetch(NetworkAddresses.ID_DISCOVERY, d, bad), (FetchErrorStatusCode.BAD_REQUEST,), "malformed-space")
  for sid, m in live.items(): ctx.eq(await asyncio.wait_for(get_topic_space(rng.choice(cs), sid), 100), m, "space-differs")
  ctx.nontrivial = len(live) + len(dead) > 0
  ctx.summary = dict(live={k: len(v) for k, v in live.items()}, deleted=dead)

class Picky(BroadcastReceiver):
  def transform_data(self, ns, data):
    if data.data.get("bad"): raise ValueError("cannot read")
    return (ns, data)

@family("broadcast", quick=300, thorough=15000)
async def broadcast(ctx):
  rng = ctx.rng
  net = await with_discovery(ctx, KINDS if rng.random() < 0.7 else YIELD, rng.randint(1, 3))
  sc = await net.add_client(); await sc.client.request_address()
  servers = [BroadcastingServer(sc.client, port=p) for p in ((102,) if rng.random() < 0.5 else (102, 300))]
  tasks = [asyncio.create_task(s.run()) for s in servers]
  rcv = [await net.add_client() for _ in range(rng.randint(1, 4))]
  for c in rcv: await c.client.request_address()
  await settle(2)
  NS = ["a", "ab", "", "a/b", "ö", "deployment/1", "deployment/10"]
  rs = []
  seq = 0
  def window():
    # receivers certainly / possibly active
    return {r["id"] for r in rs if r["state"] == "on"}, {r["id"] for r in rs if r["state"] in ("on", "changing")}
  log = {i: [] for i in range(len(servers))}   # (ns, seq, sure, maybe)
  async def consume(r):
    while True:
      ns, data = await r["r"].get()
      r["got"].append((ns, tag_of({"tag": data.data["tag"]})[0]))
  inflight = []
  async def on(r):
    r["state"] = "changing"
    for m in inflight: m[3].add(r["id"])
    await asyncio.wait_for(r["r"].start_recv(), 100)
    await settle(2)
    r["state"] = "on"
  async def off(r):
    r["state"] = "changing"
    for m in inflight: m[2].discard(r["id"])
    await r["r"].stop_recv()
    await settle(2)
    r["state"] = "off"
  for k in range(rng.randint(8, 30)):
    x = rng.random()
    if x < 0.25 or not rs:
      batch = []
      for _ in range(rng.choice((1, 1, 3))):
        si, c = rng.randrange(len(servers)), rng.choice(rcv)
        nss = rng.sample(NS, rng.randint(1, 3))
        ep = sc.client.address if servers[si].port == 102 else (sc.client.address, servers[si].port)
        picky = rng.random() < 0.3
        r = dict(id=len(rs), s=si, ns=set(nss), picky=picky, r=(Picky if picky else BroadcastReceiver)(c.client, nss if rng.random() < 0.5 else nss + nss[:1], ep), got=[], state="off")
        r["task"] = asyncio.create_task(consume(r))
        rs.append(r); batch.append(on(r)); ctx.op(k, "receiver", r["id"], c.id, si, nss); ctx.count("receivers")
      await asyncio.gather(*batch)
    elif x < 0.75:
      async def burst():
        nonlocal seq
        for _ in range(rng.choice((1, 3, 8))):
          si, ns = rng.randrange(len(servers)), rng.choice(NS)
          seq += 1
          sure, maybe = window()
          bad = rng.random() < 0.1
          log[si].append((ns, seq, sure, maybe, bad)); inflight.append(log[si][-1])
          await servers[si].broadcast(ns, RawData({"tag": [seq], "bad": bad})); ctx.count("broadcasts")
      acts = [burst()]
      r = rng.choice(rs)
      if rng.random() < 0.4 and r["state"] != "changing":
        acts.append(off(r) if r["state"] == "on" else on(r)); ctx.op(k, "toggle", r["id"], r["state"])
        if rng.random() < 0.5: acts.reverse()
      await asyncio.gather(*acts)
      if rng.random() < 0.5: await settle(3); inflight.clear()
    elif x < 0.85:
      body = rng.choice((5, None, {"a": 1}, [1], [["a"]], "a"))
      await expect_error(ctx, rcv[0].client.fetch((sc.client.address, 102), "gettopics", body), (FetchErrorStatusCode.BAD_REQUEST,), "bad-gettopics"); ctx.count("refused")
    else: await settle(3); inflight.clear()
  await settle(10)
  ctx.check(not any(t.done() for t in tasks), "server-ended", lambda: tasks)
  for r in rs:
    mine = [m for m in log[r["s"]] if m[0] in r["ns"] and not (r["picky"] and m[4])]
    must = [(ns, q) for ns, q, sure, maybe, _ in mine if r["id"] in sure]
    may = {(ns, q) for ns, q, sure, maybe, _ in mine if r["id"] in maybe}
    got = r["got"]
    ctx.check(len(got) == len(set(got)), "broadcast-duplicated", lambda: (r["id"], got))
    ctx.check(set(got) <= may, "broadcast-to-wrong-receiver", lambda: (r["id"], r["ns"], sorted(set(got) - may)))
    ctx.check(set(must) <= set(got), "broadcast-lost", lambda: (r["id"], r["ns"], sorted(set(must) - set(got))))
    ctx.check([q for _, q in got] == sorted(q for _, q in got) , "broadcast-out-of-order", lambda: (r["id"], got))
    ctx.count("received", len(got)); ctx.count("must", len(must)); ctx.sigadd(tuple(got))
  ctx.nontrivial = ctx.counters.get("received", 0) > 0
  ctx.summary = dict(receivers=[(sorted(r["ns"]), len(r["got"])) for r in rs])
