"""C16: synchronized topics are merged in timestamp and priority order."""
import asyncio
from streamtasks.client.topic import PrioritizedSequentialInTopicSynchronizer, SequentialInTopicSynchronizer
from streamtasks.net.messages import TopicControlData
from vlib.core import family
from vlib.net import *

class Model:
  """Reference: every topic reads its own messages one by one; a message is handed out when every active topic has reached its
  timestamp and, with priorities, no waiting message of the same timestamp has a higher priority."""
  def __init__(self, topics, prio):
    self.prio, self.pos, self.wait, self.out, self.dropped = prio, {}, {}, [], []
    self.queue = {t: [] for t in topics}
  def push(self, t, item): self.queue[t].append(item); self.run()
  def pause(self, t): self.pos.pop(t, None); self.run()
  def resume(self, t):
    if t not in self.pos: self.pos[t] = min(self.pos.values(), default=0)
    self.run()
  def run(self):
    while True:
      progress = False
      for t, q in self.queue.items():
        if t not in self.wait and q:
          id, ts = q.pop(0)
          progress = True
          if ts is None or ts < self.pos.get(t, 0): self.dropped.append(id); continue
          self.pos[t] = ts
          self.wait[t] = (id, ts)
      if progress: continue
      ready = [t for t, (_, ts) in self.wait.items() if min(self.pos.values(), default=ts) >= ts]
      if self.prio: ready.sort(key=lambda t: -self.prio.get(t, 0))
      if not ready: return
      self.out.append((ready[0], *self.wait.pop(ready[0])))

async def setup(ctx, kinds, n_topics, prioritized):
  rng = ctx.rng
  net = Net(ctx, kinds)
  await net.tree(rng.randint(1, 2))
  c = await net.add_client()
  topics = list(range(1, n_topics + 1))
  prio = {}
  if prioritized:
    sync = PrioritizedSequentialInTopicSynchronizer()
    for t in topics:
      if rng.random() < 0.7: prio[t] = rng.choice((0, 1, 2, 5, -1)); sync.set_priority(t, prio[t])
    if not prio: prio[1] = 1; sync.set_priority(1, 1)
  else: sync = SequentialInTopicSynchronizer()
  pub = [await net.add_client() for _ in range(rng.randint(1, 2))]
  owner = {t: rng.choice(pub) for t in topics}
  outs = {t: owner[t].client.out_topic(t) for t in topics}
  for o in outs.values(): await o.start(); await o.set_registered(True)
  ins = {t: c.client.sync_in_topic(t, sync) for t in topics}
  log, delay = [], {t: rng.choice((0, 0, 0, 1)) for t in topics}
  async def consume(t):
    while True:
      d = await ins[t].recv_data_control()
      if isinstance(d, TopicControlData): continue
      log.append((t, d.data["id"], int(d.data["timestamp"])))
      if delay[t]:
        for _ in range(rng.randrange(3)): await asyncio.sleep(0)
        if rng.random() < 0.2: await asyncio.sleep(0.01)
  tasks = [asyncio.create_task(consume(t)) for t in topics]
  for i in ins.values(): await i.start(); await i.set_registered(True)
  await settle()
  ctx.keep = tasks
  return net, c, topics, prio, outs, ins, log, tasks, owner

def body(rng, id, ts):
  if ts is None: return rng.choice(({"id": id}, {"id": id, "timestamp": "x"}, {"id": id, "timestamp": None}, [1, 2], "text", 7, {"id": id, "timestamp": float("nan")}, {"id": id, "timestamp": float("inf")}))
  return {"id": id, "timestamp": float(ts) if rng.random() < 0.1 else ts}

@family("stepped", quick=400, thorough=25000)
async def stepped(ctx):
  rng = ctx.rng
  net, c, topics, prio, outs, ins, log, tasks, owner = await setup(ctx, KINDS, rng.randint(1, 5), rng.random() < 0.6)
  m = Model(topics, prio)
  ctx.op("priorities", prio)
  started, paused = set(topics), {t: False for t in topics}
  clock, nid = rng.choice((0, 1000, 1_700_000_000_000)), 0
  for k in range(rng.randint(8, 50)):
    t, x = rng.choice(topics), rng.random()
    idle = t not in m.wait and not m.queue[t]
    if x < 0.80:
      nid += 1
      clock += rng.choice((0, 0, 1, 5))
      ts = max(0, clock + rng.choice((0, 0, 0, -3, -50, 4)))
      if rng.random() < 0.04: ts = None
      await outs[t].send(RawData(body(rng, nid, ts)))
      if t in started: m.push(t, (nid, ts))
      ctx.op("send", t, nid, ts); ctx.count("sent")
    elif x < 0.92 and idle and t in started:
      p = rng.random() < 0.5
      await owner[t].client.send_stream_control(t, TopicControlData(paused=p))
      (m.pause if p else m.resume)(t)
      paused[t] = p
      ctx.op("pause" if p else "resume", t); ctx.count("pauses" if p else "resumes")
    elif idle and len(topics) > 1:
      if t in started:
        started.discard(t)
        await ins[t].stop(); m.pause(t)
      else:
        await ins[t].start(); started.add(t)
      ctx.op("started", t, t in started); ctx.count("stops")
    await settle(2)
    ctx.check(not any(x.done() for x in tasks), "receiving-ended", lambda: tasks)
    ctx.check(sorted(x[1] for x in log) == sorted(x[1] for x in m.out), "handed-out-set-differs",
      lambda: ("got", [x for x in log if x not in m.out], "missing", [x for x in m.out if x not in log], "pos", m.pos, "waiting", m.wait))
    # order: as the model up to ties among equal timestamps of equal priority
    key = lambda x: (x[2], -prio.get(x[0], 0) if prio else 0)
    ctx.check([key(x) for x in log] == [key(x) for x in m.out], "order-differs", lambda: (log[-12:], m.out[-12:]))
    for t in topics:
      ctx.check([x for x in log if x[0] == t] == [x for x in m.out if x[0] == t], "topic-order-differs", lambda: t)
    ctx.count("compared", 1)
  ctx.count("handed_out", len(log)); ctx.count("withheld", len(m.wait)); ctx.count("dropped", len(m.dropped))
  ctx.sigadd(tuple(log), tuple(sorted(prio.items())))
  ctx.nontrivial = len(log) > 1
  ctx.summary = dict(handed_out=log[:12], priorities=prio)

@family("burst", quick=400, thorough=25000)
async def burst(ctx):
  """No settling between messages: all interleavings the links produce."""
  rng = ctx.rng
  net, c, topics, prio, outs, ins, log, tasks, owner = await setup(ctx, KINDS if rng.random() < 0.6 else YIELD, rng.randint(2, 5), rng.random() < 0.6)
  for t in topics: await outs[t].send(RawData({"id": -t, "timestamp": 0}))   # from here on every topic is active
  await settle()
  ctx.check(sorted(log) == sorted((t, -t, 0) for t in topics), "first-messages-withheld", lambda: log)
  log.clear()
  gate = rng.choice(topics) if rng.random() < 0.5 else None
  nid, sent, newest = 0, {t: [] for t in topics}, {t: 0 for t in topics}
  clock = 1
  async def send(t, ts):
    nonlocal nid
    nid += 1
    if ts is not None and ts >= newest[t]: newest[t] = ts; sent[t].append((t, nid, ts))
    ctx.count("sent")
    await outs[t].send(RawData(body(rng, nid, ts)))
  for _ in range(rng.randint(10, 80)):
    t = rng.choice([t for t in topics if t != gate])
    clock += rng.choice((0, 0, 0, 1, 3))
    ts = clock + rng.choice((0, 0, 0, -1, -20)) if rng.random() < 0.96 else None
    await send(t, None if ts is None else max(1, ts))
    if rng.random() < 0.15: await asyncio.sleep(rng.choice((0, 0.001, 0.3)))
  if gate is not None:
    await settle()
    ctx.check(not log, "handed-out-before-all-reached", lambda: log[:5])
    await send(gate, clock + 100)
  await settle()
  reach = min(newest.values())
  for t in topics:
    want = [x for x in sent[t] if x[2] <= reach]
    got = [x for x in log if x[0] == t]
    ctx.check(got == want, "handed-out-differs", lambda: (t, "reach", reach, "got", got[-8:], "want", want[-8:]))
  ctx.check([x[2] for x in log] == sorted(x[2] for x in log), "order-differs", lambda: log)
  if prio and gate is not None:  # everything had arrived before anything was handed out
    key = [(x[2], -prio.get(x[0], 0)) for x in log]
    ctx.check(key == sorted(key), "priority-order-differs", lambda: (prio, log))
    ctx.count("priority_orders")
  # the rest follows once the others catch up
  for t in topics: await send(t, clock + 200)
  await settle()
  ctx.check(sorted(log) == sorted(x for l in sent.values() for x in l), "withheld-at-end", lambda: (sorted(log), sent))
  ctx.check([x[2] for x in log] == sorted(x[2] for x in log), "order-differs", lambda: log)
  ctx.check(not any(x.done() for x in tasks), "receiving-ended", lambda: tasks)
  ctx.count("handed_out", len(log))
  ctx.sigadd(tuple(log)); ctx.nontrivial = len(log) > 3
  ctx.summary = dict(handed_out=log[:12], priorities=prio, gate=gate)

class BusyModel(Model):
  """As Model, but a reader takes the next message only when it asks for it: a higher-priority topic whose message of the same
  timestamp was handed out holds back the lower ones until it asks again, is paused or stopped."""
  def __init__(self, topics, prio):
    super().__init__(topics, prio)
    self.asked = {t: True for t in topics}
  def ask(self, t): self.asked[t] = True; self.run()
  def blocked(self, t, ts):
    if not self.prio: return False
    return any(o != t and p == ts and self.prio.get(o, 0) > self.prio.get(t, 0) and (o in self.wait or not self.asked[o]) for o, p in self.pos.items())
  def run(self):
    while True:
      progress = False
      for t, q in self.queue.items():
        if self.asked[t] and t not in self.wait and q:
          id, ts = q.pop(0)
          progress = True
          if ts is None or ts < self.pos.get(t, 0): self.dropped.append(id); continue
          self.pos[t] = ts
          self.wait[t] = (id, ts)
      if progress: continue
      ready = [t for t, (_, ts) in self.wait.items() if min(self.pos.values(), default=ts) >= ts and not self.blocked(t, ts)]
      if not ready: return
      for t in ready: # none of them holds back another
        self.out.append((t, *self.wait.pop(t)))
        self.asked[t] = False

@family("busy_readers", quick=300, thorough=20000)
async def busy_readers(ctx):
  """Readers that take their time with a message, and topics stopped meanwhile."""
  rng = ctx.rng
  net = Net(ctx, KINDS)
  await net.tree(1)
  c, pub = await net.add_client(), await net.add_client()
  topics = list(range(1, rng.randint(2, 4) + 1))
  prio = {}
  if rng.random() < 0.8:
    sync = PrioritizedSequentialInTopicSynchronizer()
    for t in topics:
      prio[t] = rng.choice((0, 1, 2)); sync.set_priority(t, prio[t])
  else: sync = SequentialInTopicSynchronizer()
  outs = {t: pub.client.out_topic(t) for t in topics}
  for o in outs.values(): await o.start(); await o.set_registered(True)
  ins = {t: c.client.sync_in_topic(t, sync) for t in topics}
  log, may = [], {t: asyncio.Event() for t in topics}
  async def consume(t):
    while True:
      d = await ins[t].recv_data_control()
      if isinstance(d, TopicControlData): continue
      log.append((t, d.data["id"], int(d.data["timestamp"])))
      await may[t].wait(); may[t].clear()
  tasks = [asyncio.create_task(consume(t)) for t in topics]
  for i in ins.values(): await i.start(); await i.set_registered(True)
  await settle()
  ctx.keep = tasks
  m = BusyModel(topics, prio)
  ctx.op("priorities", prio)
  started = set(topics)
  clock, nid = rng.choice((0, 1000, 1_700_000_000_000)), 0
  for t in topics:
    nid += 1
    await outs[t].send(RawData({"id": nid, "timestamp": clock})); m.push(t, (nid, clock))
  await settle(2)
  for k in range(rng.randint(10, 60)):
    t, x = rng.choice(topics), rng.random()
    busy = not m.asked[t]
    if x < 0.5:
      nid += 1
      clock += rng.choice((0, 0, 0, 1))
      await outs[t].send(RawData({"id": nid, "timestamp": clock}))
      if t in started: m.push(t, (nid, clock))
      ctx.op("send", t, nid, clock); ctx.count("sent")
    elif x < 0.85:
      t = rng.choice([t for t in topics if not m.asked[t]] or [t])
      if m.asked[t]: continue
      m.ask(t); may[t].set()
      ctx.op("ask", t)
    elif t in started and t not in m.wait and not m.queue[t]:
      started.discard(t)
      await ins[t].stop(); m.pause(t)
      ctx.op("stop", t); ctx.count("stops_busy" if busy else "stops")
    elif t not in started:
      await ins[t].start(); started.add(t)
      ctx.op("start", t)
    await settle(2)
    ctx.check(not any(x.done() for x in tasks), "receiving-ended", lambda: tasks)
    ctx.check(sorted(log) == sorted(m.out), "handed-out-set-differs",
      lambda: ("got", [x for x in log if x not in m.out], "missing", [x for x in m.out if x not in log], "pos", m.pos, "waiting", m.wait, "asked", m.asked))
    ctx.check([x[2] for x in log] == [x[2] for x in m.out], "order-differs", lambda: (log[-12:], m.out[-12:]))
    if prio: ctx.check([(x[2], prio[x[0]]) for x in log] == [(x[2], prio[x[0]]) for x in m.out], "priority-order-differs", lambda: (prio, log[-12:], m.out[-12:]))
    ctx.count("compared", 1)
  ctx.count("handed_out", len(log)); ctx.count("withheld", len(m.wait)); ctx.count("dropped", len(m.dropped))
  ctx.sigadd(tuple(log), tuple(sorted(prio.items())))
  ctx.nontrivial = len(log) > len(topics)
  ctx.summary = dict(handed_out=log[:12], priorities=prio)
