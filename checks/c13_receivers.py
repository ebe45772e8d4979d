"""C13: receivers may start and stop in any order without losing messages."""
import asyncio
from streamtasks.client.receiver import TopicsReceiver
from streamtasks.net.messages import AddressedMessage, TopicControlData
from vlib.core import family
from vlib.net import *

class PortReceiver(Receiver):
  def __init__(self, client, port):
    super().__init__(client)
    self.port = port
  def on_message(self, message):
    if isinstance(message, AddressedMessage) and message.port == self.port: self._recv_queue.put_nowait(message.data)

class Rec:
  """A receiver of the client under test, what it matches, and what is known about its being active."""
  def __init__(self, ctx, c, name, kind, keys):
    self.ctx, self.name, self.kind, self.keys = ctx, name, kind, set(keys)
    cl = c.client
    if kind == "topics": self.r = TopicsReceiver(cl, keys)
    elif kind == "topics_nosub": self.r = TopicsReceiver(cl, keys, subscribe=False)
    elif kind == "in": self.r = cl.in_topic(keys[0])
    else: self.r = PortReceiver(cl, keys[0])
    self.holders = 0           # starts returned - stops called
    self.sure = self.maybe = 0 # certainly / possibly active
    self.items = []
    self.task = asyncio.create_task(self.consume())
  async def consume(self):
    while True:
      if self.kind == "in": d = await self.r.recv_data()
      else:
        d = await self.r.get()
        if self.kind != "port": d = d[1]
      if isinstance(d, TopicControlData): continue
      self.items.append(tag_of(d.data))
  async def start(self): await (self.r.start() if self.kind == "in" else self.r.start_recv())
  async def stop(self): await (self.r.stop() if self.kind == "in" else self.r.stop_recv())

class Hist:
  def __init__(self, ctx): self.ctx, self.rng = ctx, ctx.rng
  async def run(self, kinds, n_switch, rounds, always_on):
    ctx, rng = self.ctx, self.rng
    net = Net(ctx, kinds)
    await net.tree(n_switch)
    c = await net.add_client(address=500)
    await c.all.stop_recv()     # so that receiving itself starts and stops with the receivers
    if always_on: await c.all.start_recv()
    pubs = [await net.add_client(address=600 + i) for i in range(rng.randint(1, 3))]
    topics = [10, 11, 12]
    owner = {t: rng.choice(pubs) for t in topics}
    outs = {t: p.client.out_topic(t) for t, p in owner.items()}
    for o in outs.values(): await o.start(); await o.set_registered(True)
    recs = []
    for i in range(rng.randint(2, 6)):
      kind = rng.choice(("topics", "topics", "topics_nosub", "in", "in", "port"))
      keys = [rng.choice(topics)] if kind == "in" else [rng.choice((100, 101))] if kind == "port" else rng.sample(topics, rng.randint(1, 3))
      recs.append(Rec(ctx, c, i, kind, keys))
      ctx.op("receiver", i, kind, keys)
    sub_sure, sub_maybe = {t: 0 for t in topics}, {t: 0 for t in topics}
    direct = {t: 0 for t in topics}     # plain register_in_topics holders
    reg = {}                            # InTopic receivers: registered
    # a provided topic of the client under test, shared by several holders
    outc = c.client.out_topic(30)
    osubs = [TopicSub(p, 30) for p in pubs]
    for s in osubs: await s.start()
    await outc.start(); await outc.set_registered(True)
    out_holders = 1
    await settle()
    stable = {t: False for t in topics}
    msgs = []      # dict(tag, key, pub, must, may, done)
    live = []
    running = True
    mark = None
    def sub_change(t, sure, maybe):
      sub_sure[t] += sure; sub_maybe[t] += maybe
      if sub_sure[t] <= 0:
        stable[t] = False
        for m in live:
          if m["key"] == t: m["must"].clear()
    def act_change(r, sure, maybe):
      r.sure += sure; r.maybe += maybe
      if sure < 0 and r.sure <= 0:
        for m in live: m["must"].discard(r.name)
      if maybe > 0:
        for m in live:
          if m["key"] in r.keys: m["may"].add(r.name)
    def hold(r): return r.keys if r.kind == "topics" else ()
    async def do_start(r):
      act_change(r, 0, 1)
      for t in hold(r): sub_change(t, 0, 1)
      await r.start()
      act_change(r, 1, 0)
      r.holders += 1
      for t in hold(r): sub_change(t, 1, 0)
    async def do_stop(r):
      act_change(r, -1, 0)
      for t in hold(r): sub_change(t, -1, 0)
      await r.stop()
      act_change(r, 0, -1)
      for t in hold(r): sub_change(t, 0, -1)
    async def do_ctx(r, d):
      await do_start(r)
      await asyncio.sleep(d)
      r.holders -= 1
      await do_stop(r)
    async def do_register(r, on):
      t = next(iter(r.keys))
      if on:
        sub_change(t, 0, 1)
        await r.r.set_registered(True)
        sub_change(t, 1, 0)
      else:
        sub_change(t, -1, 0)
        await r.r.set_registered(False)
        sub_change(t, 0, -1)
    async def do_register_twice(r, on):
      await asyncio.gather(do_register(r, on), r.r.set_registered(on))
    async def do_direct(t, on):
      if on:
        sub_change(t, 0, 1)
        await c.client.register_in_topics([t])
        sub_change(t, 1, 0)
      else:
        sub_change(t, -1, 0)
        await c.client.unregister_in_topics([t])
        sub_change(t, 0, -1)
    async def publish(p, key, n):
      for _ in range(n):
        m = dict(tag=(p.id, len(msgs)), key=key, must=set(), may={r.name for r in recs if r.maybe > 0 and key in r.keys})
        if key >= 100 or stable[key]: m["must"] = {r.name for r in recs if r.sure > 0 and key in r.keys}
        msgs.append(m); live.append(m)
        ctx.count("published")
        d = payload(rng, list(m["tag"]))
        if key >= 100: await p.client.send_to((500, key), RawData(d))
        else: await outs[key].send(RawData(d))
    async def flush():
      await settle()
      if running and (always_on or any(r.maybe > 0 for r in recs)): live.clear()
      for t in topics:
        ctx.check(sub_sure[t] == sub_maybe[t], "harness-model", lambda: t)
        ctx.check(outs[t].is_requested == (sub_sure[t] > 0), "subscription-differs-from-holders", lambda: (t, outs[t].is_requested, sub_sure[t], direct, reg))
        ctx.count("demand_checked")
        stable[t] = sub_sure[t] > 0
      want = any(s.registered for s in osubs)
      if running: ctx.check(outc.is_requested == want, "provider-state-wrong", lambda: (outc.is_requested, want, out_holders))
    def snapshot(): return {r.name: len(r.items) for r in recs}
    for k in range(rounds):
      batch = []
      used = set()
      for _ in range(rng.choice((1, 1, 2, 3, 5))):
        x = rng.random()
        r = rng.choice(recs)
        if x < 0.22:
          batch.append(do_start(r)); ctx.op(k, "start", r.name); ctx.count("starts")
        elif x < 0.40:
          if r.holders > 0:
            r.holders -= 1
            batch.append(do_stop(r)); ctx.op(k, "stop", r.name); ctx.count("stops")
        elif x < 0.47:
          d = rng.choice((0, 0, 0.001, 0.1))
          batch.append(do_ctx(r, d)); ctx.op(k, "ctx", r.name, d); ctx.count("contexts")
        elif x < 0.57:
          if r.kind == "in" and r.name not in used:
            used.add(r.name)
            on = not reg.get(r.name, False); reg[r.name] = on
            batch.append((do_register if rng.random() < 0.6 else do_register_twice)(r, on)); ctx.op(k, "register", r.name, on); ctx.count("registers")
        elif x < 0.62:
          t = rng.choice(topics)
          if ("d", t) not in used:
            used.add(("d", t))
            on = direct[t] == 0 or rng.random() < 0.4
            direct[t] += 1 if on else -1
            batch.append(do_direct(t, on)); ctx.op(k, "direct", t, on)
        elif x < 0.82:
          key = rng.choice(topics + [100, 101])
          batch.append(publish(owner.get(key) or rng.choice(pubs), key, rng.choice((1, 2, 5)))); ctx.op(k, "publish", key)
        elif x < 0.88:
          if "client" not in used:
            used.add("client")
            running = not running
            ctx.op(k, "client", running)
            if running: mark = None; c.client.start()
            else:
              batch.append(c.client.stop_wait()); ctx.count("client_stops")
        elif x < 0.91:
          if "client" not in used:
            used.add("client"); running = True; mark = None
            async def bounce():
              await c.client.stop_wait()
              if rng.random() < 0.5: await asyncio.sleep(rng.choice((0, 0.01)))
              c.client.start()
            batch.append(bounce()); ctx.op(k, "bounce"); ctx.count("client_stops")
        elif x < 0.96:
          s = rng.choice(osubs)
          if s not in used:
            used.add(s)
            batch.append(s.unsub() if s.registered else s.sub()); ctx.op(k, "remote sub", s.c.id)
        else:
          if out_holders == 1 or rng.random() < 0.5: out_holders += 1; batch.append(outc.start())
          else: out_holders -= 1; batch.append(outc.stop())
          ctx.op(k, "out holders", out_holders)
      # concurrently, each beginning at its own moment
      async def delayed(co):
        n = rng.randrange(4)
        for _ in range(n): await asyncio.sleep(0)
        await co
      async def go():
        if rng.random() < 0.4:
          for co in batch: await co
        else: await asyncio.gather(*(delayed(co) for co in batch))
      await asyncio.wait_for(go(), 500)
      if not running and mark is None:
        await asyncio.sleep(0); await asyncio.sleep(0)
        mark = snapshot()
      if rng.random() < 0.4:
        if rng.random() < 0.1:
          idle = [r for r in recs if r.maybe == 0]
          if idle: await rng.choice(idle).stop(); ctx.op(k, "extra stop"); ctx.count("extra_stops")
        await flush()
        if not running:
          ctx.check(snapshot() == mark, "received-while-stopped", lambda: (mark, snapshot())); ctx.count("stopped_checks")
    if not running: running = True; c.client.start()
    await flush()
    # everything still works
    for r in recs:
      if r.holders == 0: await do_start(r)
      if r.kind != "port":
        for t in r.keys:
          if sub_maybe[t] == 0: direct[t] += 1; await do_direct(t, True)
    await flush()
    for key in topics + [100, 101]: await publish(owner.get(key) or pubs[0], key, 2)
    await flush()
    for r in recs:
      mine = [m for m in msgs if r.name in m["may"]]
      may = {m["tag"] for m in mine}
      must = [m["tag"] for m in mine if r.name in m["must"]]
      got = r.items
      ctx.check(len(set(got)) == len(got), "received-twice", lambda: (r.name, r.kind, [x for x in got if got.count(x) > 1]))
      ctx.check(not set(got) - may, "received-while-inactive", lambda: (r.name, r.kind, r.keys, sorted(set(got) - may)))
      ctx.check(not set(must) - set(got), "message-lost", lambda: (r.name, r.kind, r.keys, sorted(set(must) - set(got))))
      for p in pubs:
        seq = [x[1] for x in got if x[0] == p.id]
        ctx.check(seq == sorted(seq), "out-of-order", lambda: (r.name, seq))
      ctx.count("received", len(got)); ctx.count("must", len(must))
      ctx.sigadd(r.kind, tuple(got))
    ctx.nontrivial = ctx.counters["received"] > 0
    ctx.summary = dict(receivers=[(r.kind, sorted(r.keys), len(r.items)) for r in recs])

@family("receivers", quick=500, thorough=30000)
async def receivers(ctx):
  rng = ctx.rng
  await Hist(ctx).run(KINDS if rng.random() < 0.6 else YIELD, rng.randint(1, 3), rng.randint(8, 40), rng.random() < 0.3)
