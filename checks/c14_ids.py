"""C14: discovery hands out unique ids and never mixes up requesters."""
import asyncio
from streamtasks.client.discovery import DiscoveryConstants, delete_topic_space, register_topic_space, request_addresses
from streamtasks.client.fetch import FetchError
from streamtasks.client.signal import send_signal
from streamtasks.services.constants import NetworkAddresses, NetworkTopics
from vlib.core import family
from vlib.disco import *
from vlib import values

RES_T = {v for k, v in vars(NetworkTopics).items() if isinstance(v, int) and k != "COUNTER_INIT"}
RES_A = {v for k, v in vars(NetworkAddresses).items() if isinstance(v, int) and k != "COUNTER_INIT"}
BAD = (-1, -5, -1000, "abc", None, [], {}, 1.5, "-3", "x", [1], float("nan"), float("inf"), b"\x01", "1e3", -2.0)

@family("ids", quick=400, thorough=20000)
async def ids(ctx):
  rng = ctx.rng
  net = await with_discovery(ctx, KINDS if rng.random() < 0.7 else YIELD, rng.randint(1, 3))
  topics, addrs = {}, {}       # id -> who got it
  def give(table, ids_, who, reserved, n, what):
    ids_ = list(ids_)
    ctx.check(len(ids_) == n and len(set(ids_)) == n, "wrong-number-of-ids", lambda: (what, who, n, ids_[:20]))
    for i in ids_:
      ctx.check(type(i) is int and i not in reserved, "reserved-id", lambda: (what, i))
      ctx.check(i not in table, "id-given-twice", lambda: (what, i, table[i], who))
      table[i] = who
    ctx.count(what, n)
  ops = 0
  base = [await net.add_client() for _ in range(rng.randint(1, 3))]
  for c in base: give(addrs, [await asyncio.wait_for(c.client.request_address(), 100)], f"client{c.id}", RES_A, 1, "addresses")
  for c in base: ctx.check(c.client.address in addrs, "address-not-set", c.client.address)
  def count(): return rng.choice((0, 1, 1, 1, 2, 3, 7, 20, 150))
  async def op(k):
    c = rng.choice(base).client
    who = f"op{k}"
    x = rng.random()
    if x < 0.2:
      n = count(); apply = rng.random() < 0.3
      r = await c.request_topic_ids(n, apply=apply)
      give(topics, r, who, RES_T, n, "topics")
      if apply: ctx.check(all(t in c._out_topics for t in r), "applied-topics-not-provided", r)
      ctx.sigadd("topics", n)
    elif x < 0.35:
      n = count()
      give(addrs, await request_addresses(c, n), who, RES_A, n, "addresses"); ctx.sigadd("addresses", n)
    elif x < 0.55:
      nc = await net.add_client()
      if rng.random() < 0.5: a = {await nc.client.request_address()}; n = 1
      else: n = max(1, count()); a = await request_addresses(nc.client, n)
      give(addrs, a, who, RES_A, n, "addresses"); ctx.count("signal_requests"); ctx.sigadd("signal", n)
    elif x < 0.65:
      ts = {rng.choice((1, 2, 3, -4, 0, 100000, 100001, rng.randrange(10**6))) for _ in range(rng.randrange(6))}
      sid, m = await register_topic_space(c, ts)
      ctx.check(set(m) == ts, "space-incomplete", lambda: (ts, m))
      give(topics, m.values(), who, RES_T, len(ts), "space_topics"); ctx.sigadd("space", len(ts))
      if rng.random() < 0.3: await delete_topic_space(c, sid)
    elif x < 0.85:
      d = rng.choice((DiscoveryConstants.FD_REQUEST_TOPICS, DiscoveryConstants.FD_SD_REQUEST_ADDRESSES, DiscoveryConstants.FD_REGISTER_TOPIC_SPACE))
      v = rng.choice(BAD)
      body = rng.choice(({"count": v}, {"count": v, "request_id": 1}, {}, 5, "count", [3], {"Count": 3}))
      if d == DiscoveryConstants.FD_REGISTER_TOPIC_SPACE: body = rng.choice(({"topic_ids": rng.choice((5, "x", ["a"], [None], [1.5], {"a": 1}))}, {}, [1]))
      try: r = await c.fetch(NetworkAddresses.ID_DISCOVERY, d, body)
      except FetchError as e: ctx.count("refused"); ctx.sigadd("refused")
      else: ctx.fail("invalid-request-answered", (d, body, r))
    else:
      v = rng.choice(BAD)
      body = rng.choice(({"count": v, "request_id": rng.randrange(5)}, {"count": 3}, {"count": v}, 7, "x", [], {"count": 2, "request_id": "x"}))
      await send_signal(c, NetworkAddresses.ID_DISCOVERY, DiscoveryConstants.FD_SD_REQUEST_ADDRESSES, body)
      ctx.count("bad_signals")
  async def guarded(k, t):
    try: await asyncio.wait_for(op(k), t)
    except asyncio.TimeoutError:
      ctx.check(t < 100, "request-not-answered", lambda: (k, ctx.loop_errors[-2:])); ctx.count("cancelled")
  k = 0
  for _ in range(rng.randint(4, 14)):
    batch = []
    for _ in range(rng.choice((1, 1, 3, 6))):
      k += 1
      batch.append(guarded(k, rng.choice((300, 300, 300, 300, 300, 0.0005))))
    ctx.op("batch", len(batch))
    await asyncio.gather(*batch)
    if rng.random() < 0.2: await settle(1)
  ctx.check(not net.discovery_task.done(), "discovery-ended", lambda: net.discovery_task)
  # everything given later is still distinct
  c = base[0].client
  give(topics, await asyncio.wait_for(c.request_topic_ids(5), 100), "last", RES_T, 5, "topics")
  give(addrs, await asyncio.wait_for(request_addresses(c, 5), 100), "last", RES_A, 5, "addresses")
  ctx.check(not any(v in addrs for v in RES_A), "reserved-id")
  ctx.nontrivial = True
  ctx.summary = dict(topics=len(topics), addresses=len(addrs), counters=dict(ctx.counters))
