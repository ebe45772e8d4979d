"""C35: function tasks call their function once per complete input, one call at a time."""
import asyncio, contextlib, copy, io, json, time
from dataclasses import dataclass, field
from typing import Annotated
from pydantic import BaseModel
from streamtasks.client import Client
from streamtasks.system.fntask import fntask
from streamtasks.net import Switch
from streamtasks.net.messages import TopicControlData
from streamtasks.net.serialization import RawData
from streamtasks.system.task import TaskManager, TaskManagerClient, TaskStatus
from vlib.core import family
from vlib.disco import KINDS, with_discovery
from vlib.net import make_pair
from vlib.rig import Recorder, LINKS
from vlib.taskmodel import OUT, merged, spaced
from vlib.values import canon
from vlib.vtime import settle

# ---------------------------------------------------------------- functions of every shape
@dataclass
class DConfig:
  step: int = 1
  scale: float = 0.5
  flag: bool = False
  tag: str = "t"
class MConfig(BaseModel):
  step: int = 2
  scale: float = 1.5
  flag: bool = True
  tag: str = "m"
@dataclass
class DState:
  n: int = 0
  seen: list = field(default_factory=list)
class PState:
  def __init__(self, start=0): self.n, self.seen = start, []
class KState:
  def __init__(self, **kw): self.n, self.seen = 0, []
class DictState(dict):
  @property
  def n(self): return self.get("n", 0)
  @n.setter
  def n(self, v): self["n"] = v
TYPES = {"int": int, "float": float, "str": str, "bytes": bytes}
NAMES = ("a", "b", "image", "some_value", "x1", "data", "value", "self_", "params", "n")

class Shape:
  """A function: its inputs, outputs, special arguments, how it runs; what it gives for its arguments."""
  def __init__(self, ctx, inputs=None, allow_thread=True):
    rng = self.rng = ctx.rng
    names = rng.sample(NAMES, inputs or rng.choice((1, 1, 2, 2, 3)))
    self.inputs = [(n, rng.choice(list(TYPES))) for n in names]
    self.outputs = [rng.choice(list(TYPES)) for _ in range(rng.choice((0, 1, 1, 1, 2, 3)))]
    self.tuple = len(self.outputs) > 1 or (len(self.outputs) == 1 and rng.random() < 0.25)
    self.none = rng.random() < 0.5                # -> None or nothing
    self.config = rng.choice((None, None, DConfig, MConfig))
    self.state = rng.choice((None, None, DState, PState, KState, DictState))
    self.timestamp = rng.random() < 0.5
    self.mode = rng.choice(("sync", "sync", "async", "thread") if allow_thread else ("sync", "async"))
    self.io = {n: rng.random() < 0.3 for n in names}
    self.out_io = [rng.random() < 0.3 for _ in self.outputs]
    self.label = rng.choice((None, None, "my label"))
    self.name = rng.choice(("f", "count_faces", "a_b"))
    self.salt = rng.randrange(1000)
    self.slow = rng.choice((0, 0, 0.004))
    self.calls, self.running, self.overlap = [], {}, 0
    self.bad_every = rng.choice((0, 0, 3))
  def describe(self): return (self.inputs, self.outputs, self.config and self.config.__name__, self.state and self.state.__name__, self.timestamp, self.mode, self.bad_every)
  def build(self):
    env = {"_body": self.body, "_wait": self.wait, "Annotated": Annotated, "DConfig": DConfig, "MConfig": MConfig, "DState": DState, "PState": PState, "KState": KState, "DictState": DictState}
    io = '{ "content": "video", "extra": 5 }'
    io_map = '["step"]' if self.salt % 2 else '{"step": "width"}'
    ann = lambda t, on: (f"Annotated[{t}, {io}" + (f", {io_map}" if self.config else "") + "]") if on else t
    params = [f"{n}: {ann(t, self.io[n])}" for n, t in self.inputs]
    for on, p in ((self.config, f"config: {self.config and self.config.__name__}"), (self.state, f"state: {self.state and self.state.__name__}"), (self.timestamp, "timestamp: int")):
      if on: params.insert(self.rng.randint(0, len(params)), p)
    outs = [ann(t, on) for t, on in zip(self.outputs, self.out_io)]
    ret = f" -> tuple[{', '.join(outs)}]" if self.tuple else f" -> {outs[0]}" if outs else (" -> None" if self.none else "")
    names = [p.split(":")[0] for p in params]
    args = "dict(" + ", ".join(f"{n}={n}" for n in names) + ")"
    a, w = ("async ", "await _wait(); ") if self.mode == "async" else ("", "")
    if self.mode == "async": src = f"async def {self.name}({', '.join(params)}){ret}:\n  k = _body(1, {args})\n  await _wait()\n  return _body(2, k)\n"
    else: src = f"def {self.name}({', '.join(params)}){ret}:\n  return _body(2, _body(1, {args}))\n"
    exec(src, env)
    kw = {}
    if self.label: kw["label"] = self.label
    if self.mode == "thread": kw["thread_safe"] = True
    return fntask(**kw)(env[self.name])
  async def wait(self): await asyncio.sleep(self.slow)
  def who(self, args): return args["config"].tag if self.config else "only"
  def body(self, part, args):
    who = self.who(args)
    if part == 1:
      self.running[who] = self.running.get(who, 0) + 1
      if self.running[who] > 1: self.overlap += 1
      if self.mode == "thread": time.sleep(self.slow / 4)
      return args
    vals = {n: args[n] for n, _ in self.inputs}
    c, s = args.get("config"), args.get("state")
    if s is not None: s.n += 1
    res = self.result(vals, args.get("timestamp"), c and (c.step, c.scale, c.flag, c.tag), s.n if s is not None else 0)
    self.calls.append((who, vals, args.get("timestamp"), c and (c.step, c.scale, c.flag, c.tag), None if s is None else id(s), None if s is None else s.n))
    self.keep = getattr(self, "keep", [])
    self.keep.append(s)
    self.running[who] -= 1
    return res
  def values(self, vals, ts, c, n):
    """What the function gives for each output: (value, is it valid)."""
    basis = f"{sorted((k, num(v)) for k, v in vals.items())!r}{ts}{c}{n}{self.salt}"
    out = []
    for k, t in enumerate(self.outputs):
      h = sum(ord(x) * (i % 91 + 1) for i, x in enumerate(basis)) + k
      if self.bad_every and h % self.bad_every == 0: out.append(((None, "text" if t in ("int", "float") else 5.5, [1])[h % 3], False))
      else: out.append(({"int": h, "float": h / 8, "str": f"{h}:ä{n}", "bytes": h.to_bytes(8, "little")}[t], True))
    return out
  def result(self, vals, ts, c, n):
    r = [v for v, _ in self.values(vals, ts, c, n)]
    if not self.outputs: return None
    return tuple(r) if self.tuple else r[0]

def num(v): return float(v) if isinstance(v, (int, float)) and not isinstance(v, bool) else v

class Model:
  """One task: latest values, calls and outputs to expect."""
  out_paused = None
  def __init__(self, shape, who, topics, outs, config):
    self.shape, self.who, self.topics, self.outs, self.config = shape, who if shape.config else "only", topics, outs, config
    self.values, self.n, self.calls = {}, 0, []
  def step(self, topic, kind, v):
    if kind == "pause" or topic not in self.topics: return []
    name, t = self.topics[topic]
    if not valid(t, v): return []
    self.values[name] = v["data"] if t == "bytes" else v["value"]
    if len(self.values) < len(self.topics): return []
    ts = v["timestamp"] if self.shape.timestamp else None
    self.n += 1
    n = self.n if self.shape.state else 0
    self.calls.append((self.who, {k: num(x) for k, x in self.values.items()}, ts, self.config, n or None))
    out = []
    for topic, t, (x, ok) in zip(self.outs, self.shape.outputs, self.shape.values(self.values, ts, self.config, n)):
      if ok: out.append({"topic": topic, "m": {"timestamp": v["timestamp"], **({"data": x} if t == "bytes" else {"value": float(x) if t in ("int", "float") else x})}})
    return out

class Models:
  """Several tasks side by side."""
  out_paused = None
  def __init__(self, models): self.models = models
  def step(self, topic, kind, v): return [x for m in self.models for x in m.step(topic, kind, v)]

def valid(t, v):
  if not isinstance(v, dict) or not isinstance(v.get("timestamp"), int): return False
  x = v.get("data" if t == "bytes" else "value")
  return isinstance(x, {"int": (int, float), "float": (int, float), "str": str, "bytes": bytes}[t])

def message(rng, t, ts, bad=0.15):
  if rng.random() < bad:
    key = "data" if t == "bytes" else "value"
    return rng.choice(({"timestamp": ts}, {"timestamp": ts, key: None}, {"timestamp": ts, key: [1]}, {"timestamp": ts, key: {}},
                       {"timestamp": ts, ("value" if key == "data" else "data"): 4}, {"timestamp": ts, key: {"int": "x", "float": "abc", "str": 5, "bytes": 7}[t]}))
  v = {"int": lambda: rng.randrange(-1000, 1000), "float": lambda: rng.uniform(-5, 5), "str": lambda: rng.choice(("", "a", "ü", "long " * 9)) + str(rng.randrange(99)), "bytes": lambda: rng.randbytes(rng.choice((0, 1, 9)))}[t]()
  return {"timestamp": ts, "data" if t == "bytes" else "value": v}
UNSTAMPED = ({}, {"timestamp": "x", "value": 3, "data": b""}, {"value": 4}, {"data": b""}, 7, "text", [1])

class FnRig:
  """Function tasks of one host between a provider of their inputs and a recorder of their outputs."""
  def __init__(self, ctx): self.ctx, self.rng, self.tasks, self.sent = ctx, ctx.rng, [], []
  async def start(self, host, kind=None):
    rng, ctx = self.rng, self.ctx
    self.switch, self.host = Switch(), host
    a, b, _, _ = await make_pair(rng, kind or rng.choice(LINKS), 1)
    await self.switch.add_link(a)
    await host.switch.add_link(b)
    async def client():
      a, b, _, _ = await make_pair(rng, "queue", 1)
      await self.switch.add_link(a)
      c = Client(b); c.start()
      return c
    self.provider, consumer = await client(), await client()
    self.rec = Recorder(consumer, [], ctx)
    self.rec.topics = set(range(OUT, OUT + 40))
    await self.provider.register_out_topics(range(1, 40))
    await self.rec.start_recv()
    await settle(0.3)
  async def add(self, config):
    t = await self.host.create_task(config, None)
    async def run():
      await t.setup()
      await t.run()
    self.tasks.append((t, asyncio.create_task(run())))
    await settle(0.3)
    self.alive()
    return t
  def alive(self):
    for t, r in self.tasks:
      if r.done(): self.ctx.fail("task-ended", repr(None if r.cancelled() else r.exception()))
  async def data(self, topic, value):
    raw = RawData(copy.deepcopy(value))
    self.sent.append((raw, canon(copy.deepcopy(value))))
    self.ctx.count("inputs")
    await self.provider.send_stream_data(topic, raw)
  async def pause(self, topic, paused):
    self.ctx.count("input_pauses")
    await self.provider.send_stream_control(topic, TopicControlData(paused=paused))
  async def settle(self, t=0.05): await asyncio.sleep(t)
  def out(self, topic=None): return [(t, {"topic": tp, "m": v}) for t, tp, k, v in self.rec.log if k == "data"]
  def out_paused(self, topic): return None
  async def finish(self):
    self.alive()
    for raw, c in self.sent: self.ctx.check(canon(raw.data) == c, "input-modified", lambda: (raw.data, c))
    for _, r in self.tasks: r.cancel()
    _, pend = await asyncio.wait([r for _, r in self.tasks], timeout=100)
    self.ctx.check(not pend, "task-does-not-stop", None)
    for _, r in self.tasks:
      if not r.cancelled() and r.exception(): self.ctx.fail("task-fails-on-stop", repr(r.exception()))

def keys(ctx, shape, host):
  md = host.metadata
  ins, outs = json.loads(md["cfg:inputs"]), json.loads(md["cfg:outputkeys"])
  ctx.eq(len(ins), len(shape.inputs), "metadata-inputs", md)
  ctx.eq(len(outs), len(shape.outputs), "metadata-outputs", md)
  return [i["key"] for i in ins], outs

def task_config(ctx, shape, host, who, first_in, first_out, synchronized):
  """The config a frontend sends: the defaults with changes, and the topics of the inputs and outputs."""
  rng = ctx.rng
  ik, ok = keys(ctx, shape, host)
  cfg = json.loads(host.metadata.get("cfg:config", "{}"))
  given = None
  if shape.config:
    d = shape.config()
    ctx.check(all(cfg.get(k) == getattr(d, k) for k in ("step", "scale", "flag", "tag")), "default-config", lambda: cfg)
    changes = {k: v for k, v in (("step", rng.randrange(9)), ("scale", rng.choice((0.25, 8.0))), ("flag", rng.random() < 0.5)) if rng.random() < 0.6}
    if rng.random() < 0.3: cfg = {}
    cfg.update(changes, tag=who)
    given = (changes.get("step", d.step), changes.get("scale", d.scale), changes.get("flag", d.flag), who)
  if not synchronized or rng.random() < 0.5: cfg["std_synchronized"] = synchronized
  topics = {}
  for k, key in enumerate(ik):
    cfg[key] = first_in + k
    topics[first_in + k] = shape.inputs[k]
  outs = []
  for k, key in enumerate(ok):
    cfg[key] = first_out + k
    outs.append(first_out + k)
  return cfg, Model(shape, who, topics, outs, given)

def check_calls(ctx, shape, models):
  """The function was called with these arguments and no others, never twice at once; every task had its own state."""
  ctx.check(shape.overlap == 0, "concurrent-calls", lambda: shape.overlap)
  states = {}
  for m in models:
    got = [(w, {k: num(v) for k, v in vals.items()}, ts, c, n) for w, vals, ts, c, _, n in shape.calls if w == m.who]
    ctx.check(canon(got) == canon(m.calls), "calls", lambda: next((i, got[i:i + 2], m.calls[i:i + 2], len(got), len(m.calls)) for i in range(10**6) if got[i:i + 1] != m.calls[i:i + 1] or i > len(got)))
    ids = {sid for w, _, _, _, sid, _ in shape.calls if w == m.who}
    if shape.state and got:
      ctx.check(len(ids) == 1, "state-replaced", m.who)
      i = next(iter(ids))
      ctx.check(i not in states, "state-shared", lambda: (m.who, states))
      states[i] = m.who
    ctx.count("calls", len(got))
  ctx.eq(len(shape.calls), sum(len(m.calls) for m in models), "calls", "of all tasks")

def grace(ctx, shape):
  if shape.mode == "thread": ctx.loop.external_grace = 20

@family("history", quick=500, thorough=16000)
async def history(ctx):
  """Tasks that take messages as they come: any history on any input, several tasks of one function."""
  rng = ctx.rng
  shape = Shape(ctx)
  grace(ctx, shape)
  host = shape.build().TaskHost()
  ctx.op(shape.describe())
  rig = FnRig(ctx)
  await rig.start(host)
  models = []
  n = rng.choice((1, 2, 3)) if shape.config else 1
  for k in range(n):
    cfg, m = task_config(ctx, shape, host, f"w{k}", 1 + 5 * k, OUT + 5 * k, False)
    models.append(m)
    await rig.add(cfg)
  if n > 1: ctx.count("side_by_side")
  ins = [t for m in models for t in m.topics]
  types = {t: x[1] for m in models for t, x in m.topics.items()}
  def make(topic, ts):
    if rng.random() < 0.05: return "pause", rng.random() < 0.5
    if rng.random() < 0.1: ctx.count("malformed"); return "data", copy.deepcopy(rng.choice(UNSTAMPED))
    return "data", message(rng, types[topic], ts)
  await spaced(ctx, rig, Models(models), ins, make, rng.randint(4, 16), burst=True)
  check_calls(ctx, shape, models)
  await rig.finish()
  ctx.count("mode_" + shape.mode)
  ctx.sigadd(shape.describe(), len(shape.calls), len(rig.sent))
  ctx.nontrivial = len(shape.calls) > 0

@family("merged", quick=250, thorough=8000)
async def merged_(ctx):
  """A synchronized task takes the messages of its inputs in the order of their times, however they arrive."""
  rng = ctx.rng
  shape = Shape(ctx)
  grace(ctx, shape)
  host = shape.build().TaskHost()
  ctx.op(shape.describe())
  rig = FnRig(ctx)
  await rig.start(host)
  cfg, m = task_config(ctx, shape, host, "w", 1, OUT, True)
  await rig.add(cfg)
  sentinel = lambda t, ts: message(rng, m.topics[t][1], ts, 0)
  if len(m.topics) == 1: await merged(ctx, rig, m, list(m.topics), lambda t, ts: ("data", message(rng, m.topics[t][1], ts)), rng.randint(1, 4), sentinel)
  else: await rounds(ctx, rig, shape, m)
  check_calls(ctx, shape, [m])
  await rig.finish()
  ctx.count("mode_" + shape.mode)
  ctx.sigadd(shape.describe(), len(shape.calls), len(rig.sent))
  ctx.nontrivial = len(shape.calls) > 0

async def rounds(ctx, rig, shape, m):
  """Rounds of messages at distinct times: all but the last message of each input are certain to be taken before the round is over,
  and the messages of the end of a round have times that follow each other, so that the order is known."""
  rng = ctx.rng
  ts, want = rng.choice((1, 1000, 10**12)), []
  ins = list(m.topics)
  for k, t in enumerate(ins):       # every input becomes active; the first at the lowest time
    v = message(rng, m.topics[t][1], ts, 0)
    await rig.data(t, v); await rig.settle(0.2)
    want += m.step(t, "data", v)
  for _ in range(rng.randint(1, 4)):
    items = {t: [] for t in ins}
    for _ in range(rng.randint(2, 14)):
      ts += rng.choice((1, 1, 5, 100))
      t = rng.choice(ins)
      items[t].append(message(rng, m.topics[t][1], ts))
    # a message that cannot be used ends the round everywhere: it has a time but causes no call
    ts += 1
    for t in ins: items[t].append({"timestamp": ts})
    for v, t in sorted(((v, t) for t, l in items.items() for v in l), key=lambda x: x[0]["timestamp"]): want += m.step(t, "data", v)
    left = {t: list(l) for t, l in items.items()}
    while any(left.values()):
      t = rng.choice([t for t in ins if left[t]])
      for _ in range(rng.choice((1, 1, 3))):
        if left[t]: await rig.data(t, left[t].pop(0)); ctx.op(t)
      if rng.random() < 0.2: await rig.settle(rng.choice((0, 0.01, 0.2)))
    await rig.settle(1)
    rig.alive()
    got = [v for _, v in rig.out()]
    ctx.check(canon(got) == canon(want), "merged-outputs", lambda: next(((i, got[i:i + 2], want[i:i + 2]) for i in range(max(len(got), len(want))) if canon(got[i:i + 1]) != canon(want[i:i + 1])), None))
    ctx.count("rounds")

@family("burst", quick=250, thorough=8000)
async def burst(ctx):
  """All inputs at once into a task that takes them as they come: one call for every message, one after the other, with the latest of each input."""
  rng = ctx.rng
  shape = Shape(ctx, inputs=rng.choice((2, 2, 3)))
  shape.slow = rng.choice((0, 0.001, 0.01))
  grace(ctx, shape)
  host = shape.build().TaskHost()
  ctx.op(shape.describe())
  rig = FnRig(ctx)
  await rig.start(host)
  cfg, m = task_config(ctx, shape, host, "w", 1, OUT, False)
  await rig.add(cfg)
  sent = {t: [] for t in m.topics}
  for k in range(rng.randint(6, 30)):
    t = rng.choice(list(m.topics))
    v = message(rng, m.topics[t][1], 1000 + k, 0.1)
    if valid(m.topics[t][1], v):
      # every message is different
      if m.topics[t][1] == "bytes": v["data"] = b"%d" % k
      else: v["value"] = {"int": k, "float": k + 0.5, "str": f"s{k}"}[m.topics[t][1]]
      sent[t].append(v)
    await rig.data(t, v)
    if rng.random() < 0.2: await rig.settle(rng.choice((0, 0.001, 0.005)))
  await rig.settle(2)
  rig.alive()
  ctx.check(shape.overlap == 0, "concurrent-calls", shape.overlap)
  name = {m.topics[t][0]: t for t in m.topics}
  pos = {}
  def index(t, x): return next((i for i, v in enumerate(sent[t]) if v.get("value", v.get("data")) == x), None)
  want = []
  for k, (_, vals, ts, c, _, n) in enumerate(shape.calls):
    new = {t: index(t, vals[x]) for x, t in name.items()}
    ctx.check(None not in new.values(), "foreign-value", lambda: (k, vals))
    if k == 0: step = [t for t in new if ts is None or sent[t][new[t]]["timestamp"] == ts]
    else:
      step = [t for t in new if new[t] != pos[t]]
      ctx.check(len(step) == 1 and new[step[0]] == pos[step[0]] + 1, "call-per-message", lambda: (k, pos, new))
    ctx.check(len(step) >= 1, "call-timestamp", lambda: (k, ts, vals))
    at = [sent[t][new[t]]["timestamp"] for t in step]
    if ts is not None: ctx.check(ts in at, "call-timestamp", lambda: (k, ts, at))
    pos = new
    if shape.state: ctx.eq(n, k + 1, "state", None)
    if k: want.append((at[0], vals, ts, c, n))
  if all(sent.values()):
    ctx.check(bool(shape.calls) and all(pos[t] == len(sent[t]) - 1 for t in pos), "calls-missing", lambda: (len(shape.calls), pos, {t: len(l) for t, l in sent.items()}))
  else: ctx.eq(len(shape.calls), 0, "call-without-input", None)
  # the outputs of the calls, in their order
  outs = []
  for at, vals, ts, c, n in want:
    for topic, t, (x, ok) in zip(m.outs, shape.outputs, shape.values(vals, ts, c, n or 0)):
      if ok: outs.append({"topic": topic, "m": {"timestamp": at, **({"data": x} if t == "bytes" else {"value": float(x) if t in ("int", "float") else x})}})
  got = [v for _, v in rig.out()]
  ctx.check(len(outs) <= len(got) <= len(outs) + len(m.outs) and canon(got[len(got) - len(outs):]) == canon(outs), "outputs", lambda: (len(got), len(outs), got[:2], outs[:2]))
  ctx.count("calls", len(shape.calls)); ctx.count("burst_calls", len(shape.calls)); ctx.count("mode_" + shape.mode)
  await rig.finish()
  ctx.sigadd(shape.describe(), len(shape.calls), [c[2] for c in shape.calls])
  ctx.nontrivial = len(shape.calls) > 0

# ---------------------------------------------------------------- definitions
class NeedsArgs:
  def __init__(self, a): self.a = a
@dataclass
class NeedsField:
  a: int

@family("definition", quick=400, thorough=8000, loop="sync")
def definition(ctx):
  """What a function task says about itself follows from the function; functions it cannot run are refused when they are defined."""
  rng = ctx.rng
  env = {"Annotated": Annotated, "NeedsArgs": NeedsArgs, "NeedsField": NeedsField, "DConfig": DConfig, "MConfig": MConfig, "DState": DState}
  bad = rng.random() < 0.3
  if bad:
    src = rng.choice(("def f(a: list) -> int: pass", "def f(a): pass", "def f(a: int) -> list: pass", "def f(a: int) -> tuple[int, dict]: pass", "def f(a: Annotated[list, {}]) -> int: pass",
                      "def f(a: int, timestamp: str) -> int: pass", "def f(a: int, timestamp: float) -> int: pass", "def f(a: int, config: NeedsArgs) -> int: pass", "def f(a: int, config: NeedsField) -> int: pass",
                      "def f(a: int, state: NeedsArgs) -> int: pass", "def f(a: int, state: NeedsField, config: DConfig) -> int: pass", "def f(a: Annotated[int, 5]) -> int: pass", "def f(a: object) -> int: pass"))
    exec(src, env)
    ctx.op(src)
    try: fntask()(env["f"])
    except Exception as e:
      ctx.check(isinstance(e, (ValueError, TypeError)) or type(e).__name__ in ("PydanticSchemaGenerationError", "PydanticUserError"), "refusal", repr(e))
      ctx.count("refused")
    else: ctx.fail("unusable-function-accepted", src)
    ctx.sigadd(src)
    ctx.nontrivial = True
    return
  shape = Shape(ctx)
  ctx.op(shape.describe())
  c = shape.build()
  for _ in range(2):
    host = c.TaskHost()
    md = host.metadata
    label = (shape.label or shape.name.replace("_", " "))
    ctx.eq(md["cfg:label"].lower(), label.lower(), "label", None)
    ins, outs, ok = json.loads(md["cfg:inputs"]), json.loads(md["cfg:outputs"]), json.loads(md["cfg:outputkeys"])
    ctx.check(len({i["key"] for i in ins} | set(ok)) == len(ins) + len(ok) and len(outs) == len(ok) == len(shape.outputs) and len(ins) == len(shape.inputs), "keys", lambda: md)
    content = {"int": "number", "float": "number", "str": "text"}
    d = shape.config() if shape.config else None
    key = "step" if shape.salt % 2 else "width"
    for x, (n, t) in zip(ins, shape.inputs):
      ctx.check(x["type"] == "ts" and x["label"] == n.replace("_", " "), "input-metadata", lambda: x)
      self_io = shape.io[n]
      ctx.eq(x.get("content"), "video" if self_io else content.get(t), "input-content", (n, t))
      ctx.eq(x.get("extra"), 5 if self_io else None, "input-extra", (n, t))
      ctx.eq(x.get(key), d.step if self_io and d else None, "input-map", (n, t))
    for x, t, on in zip(outs, shape.outputs, shape.out_io):
      ctx.eq((x["type"], x.get("content"), x.get("extra"), x.get(key)), ("ts", "video" if on else content.get(t), 5 if on else None, d.step if on and d else None), "output-metadata", t)
    fields = json.loads(md["cfg:editorfields"])
    want = {"std_synchronized"} | ({"step", "scale", "flag", "tag"} if d else set())
    ctx.eq({f["key"] for f in fields}, want, "editor-fields", None)
    if d:
      cfg = json.loads(md["cfg:config"])
      ctx.check(all(cfg[k] == getattr(d, k) for k in ("step", "scale", "flag", "tag")), "default-config", lambda: cfg)
    json.dumps(md)
    ctx.count("defined")
  ctx.sigadd(shape.describe())
  ctx.nontrivial = True

# ---------------------------------------------------------------- in a system
@family("system", quick=60, thorough=1500)
async def system(ctx):
  """Function tasks run() over a link into a system: scheduled, started and stopped by the task manager, working as told."""
  rng = ctx.rng
  shape = Shape(ctx, allow_thread=False)
  if shape.config is None: shape.config = DConfig
  with contextlib.redirect_stdout(io.StringIO()):
    net = await with_discovery(ctx, KINDS, rng.randint(1, 3))
    async def port(kind=None):
      a, b, _, _ = await make_pair(rng, kind or net.kind())
      await net.switches[rng.randrange(len(net.switches))].add_link(a)
      return b
    tm = TaskManager()
    await tm.switch.add_link(await port())
    await settle(15)
    tm_task = asyncio.create_task(tm.run())
    await settle(15)
    fctx = shape.build()
    ctx.op(shape.describe())
    link = await port("queue")
    fn_task = asyncio.create_task(fctx.run(link))
    await settle(15)
    ctx.check(not fn_task.done(), "run-ended", lambda: fn_task)
    c = await net.add_client(); await c.client.request_address()
    tmc = TaskManagerClient(c.client)
    hosts = await asyncio.wait_for(tmc.list_task_hosts(), 100)
    ctx.eq(len(hosts), 1, "hosts", hosts)
    host = hosts[0]
    class H: metadata = host.metadata
    models, ids = [], []
    n = rng.choice((1, 2, 3))
    for k in range(n):
      cfg, m = task_config(ctx, shape, H, f"w{k}", 20 + 5 * k, OUT + 5 * k, False)
      t = await asyncio.wait_for(tmc.schedule_start_task(host.id, cfg), 100)
      ctx.check(t.status is TaskStatus.running, "not-started", lambda: (t.status, t.error))
      models.append(m); ids.append(t.id)
    rig = FnRig(ctx)
    p, q = Client(await port()), Client(await port("queue"))
    p.start(); q.start()
    rig.provider, rig.rec = p, Recorder(q, [], ctx)
    rig.rec.topics = set(range(OUT, OUT + 40))
    await p.register_out_topics(range(20, 40))
    await rig.rec.start_recv()
    await settle(15)
    ins = {t: x[1] for m in models for t, x in m.topics.items()}
    want, stopped = [], set()
    for k in range(rng.randint(5, 15)):
      t = rng.choice(list(ins))
      v = message(rng, ins[t], 1000 + k)
      await rig.data(t, v)
      for i, m in enumerate(models):
        if i not in stopped: want += m.step(t, "data", v)
      await settle(15)
      got = [v for _, v in rig.out()]
      ctx.check(canon(got) == canon(want), "outputs", lambda: (t, v, got[-2:], want[-2:]))
      if rng.random() < 0.1 and len(stopped) < n:
        i = rng.choice([i for i in range(n) if i not in stopped])
        r = await asyncio.wait_for(tmc.cancel_task_wait(ids[i]), 100)
        ctx.check(r.status is TaskStatus.stopped, "not-stopped", lambda: r)
        stopped.add(i); ctx.count("task_stops")
        await settle(5)
    check_calls(ctx, shape, models)
    fn_task.cancel()
    await asyncio.wait([fn_task], timeout=100)
    ctx.check(fn_task.done(), "run-does-not-stop", None)
    await settle(15)
    hosts = await asyncio.wait_for(tmc.list_task_hosts(), 100)
    ctx.eq(len(hosts), 0, "host-not-unregistered", None)
    tm_task.cancel()
    ctx.count("systems")
  ctx.sigadd(shape.describe(), len(shape.calls))
  ctx.nontrivial = len(shape.calls) > 0
