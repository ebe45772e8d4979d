"""A task between a provider of its inputs and a recorder of its outputs, on one switch."""
import asyncio, copy
from streamtasks.client import Client
from streamtasks.client.receiver import Receiver
from streamtasks.net import Switch
from streamtasks.net.messages import TopicControlData, TopicControlMessage, TopicDataMessage
from streamtasks.net.serialization import RawData
from vlib.net import make_pair
from vlib.values import canon

LINKS = ("queue", "queue", "rawqueue", "v-zero", "v-small", "y-zero", "y-small", "b-zero", "b-small")

class Recorder(Receiver):
  def __init__(self, client, topics, ctx):
    super().__init__(client)
    self.topics, self.ctx, self.log = set(topics), ctx, []
  async def _on_start_recv(self): await self._client.register_in_topics(self.topics)
  async def _on_stop_recv(self): await self._client.unregister_in_topics(self.topics)
  def on_message(self, m):
    if isinstance(m, TopicDataMessage) and m.topic in self.topics:
      self.log.append((self.ctx.loop.time(), m.topic, "data", copy.deepcopy(m.data.data)))
      self.ctx.count("outputs")
    elif isinstance(m, TopicControlMessage) and m.topic in self.topics:
      self.log.append((self.ctx.loop.time(), m.topic, "paused", m.to_data().paused))
      self.ctx.count("output_pauses")

class Rig:
  """await Rig(ctx).start(make_task, ins, outs); task is built by make_task(client)."""
  def __init__(self, ctx, kind=None):
    self.ctx, self.rng = ctx, ctx.rng
    self.kind = kind or ctx.rng.choice(LINKS)
    self.sent = []           # (RawData, canonical content)
    self.shared = []
    self.before = None       # called just before the task is made
  async def start(self, make_task, ins, outs, settle=0.2):
    rng = self.rng
    self.switch = Switch()
    self.ins, self.outs = list(ins), list(outs)
    async def client(kind):
      a, b, _, _ = await make_pair(rng, kind, 1)
      await self.switch.add_link(a)
      c = Client(b)
      return c
    self.provider = await client("queue")
    self.provider.start()
    self.consumer = await client(rng.choice(("queue", "v-zero")))
    self.consumer.start()
    # somebody else who reads the same inputs
    self.other = await client("queue")
    self.other.start()
    await self.provider.register_out_topics(self.ins)
    self.rec = Recorder(self.consumer, self.outs, self.ctx)
    await self.rec.start_recv()
    self.witness = Recorder(self.other, self.ins, self.ctx)
    await self.witness.start_recv()
    self.worker = await client(self.kind)
    await asyncio.sleep(0.05)
    if self.before: self.before()
    self.task = make_task(self.worker)
    async def run():
      await self.task.setup()
      await self.task.run()
    self.run = asyncio.create_task(run())
    await asyncio.sleep(settle)
    self.alive()
    return self
  def alive(self):
    if self.run.done():
      e = None if self.run.cancelled() else self.run.exception()
      self.ctx.fail("task-ended", f"{type(self.task).__name__}: {e!r}")
  async def data(self, topic, value):
    raw = value if isinstance(value, RawData) else RawData(copy.deepcopy(value))
    self.sent.append((raw, canon(copy.deepcopy(raw.data))))
    self.ctx.count("inputs")
    await self.provider.send_stream_data(topic, raw)
  async def pause(self, topic, paused):
    self.ctx.count("input_pauses")
    await self.provider.send_stream_control(topic, TopicControlData(paused=paused))
  async def settle(self, t=0.05): await asyncio.sleep(t)
  @property
  def log(self): return self.rec.log
  def out(self, topic=None): return [(t, v) for t, tp, k, v in self.rec.log if k == "data" and (topic is None or tp == topic)]
  def out_paused(self, topic):
    for t, tp, k, v in reversed(self.rec.log):
      if k == "paused" and tp == topic: return v
    return False
  async def finish(self):
    """The task is still running, stops when told, and has changed none of the messages it was given."""
    self.alive()
    for raw, c in self.sent:
      self.ctx.check(canon(raw.data) == c and canon(RawData(bytes(raw.serialize())).data) == c, "input-modified", lambda: (raw.data, c))
    for (t, tp, k, v) in self.witness.log:
      if k == "data": self.ctx.count("witnessed")
    self.run.cancel()
    _, pend = await asyncio.wait([self.run], timeout=100)
    self.ctx.check(not pend, "task-does-not-stop", type(self.task).__name__)
    if not self.run.cancelled() and self.run.exception(): self.ctx.fail("task-fails-on-stop", repr(self.run.exception()))
