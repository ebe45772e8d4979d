"""C29: gate, SR latch, switch, string matcher and message detector against step-wise models."""
import asyncio, math, re
from streamtasks.system.tasks.gate import GateConfig, GateFailMode, GateTask
from streamtasks.system.tasks.srlatch import SRLatchConfig, SRLatchTask
from streamtasks.system.tasks.media.mediaswitch import MediaSwitchTask
from streamtasks.system.tasks.switch import SwitchConfig, SwitchTask
from streamtasks.system.tasks.stringmatcher import StringMatcherConfig, StringMatcherTask
from streamtasks.system.tasks.messagedetector import MessageDetectorConfig, MessageDetectorFailMode, MessageDetectorTask
from vlib.core import family
from vlib.rig import Rig
from vlib.taskmodel import OUT, finish, merged, same, spaced
BAD_NUMBER = ({}, 5, "x", [1, 2], {"value": 1}, {"timestamp": 5}, {"timestamp": "now", "value": 1}, {"timestamp": 5, "value": "on"}, {"timestamp": 5, "value": None},
  {"timestamp": 5, "value": [1]}, {"timestamp": None, "value": 1}, {"timestamp": "123456789012345678901234567890", "value": 1}, {"timestamp": math.inf, "value": 1}, {"timestamp": [5], "value": 0})
VALUES = (0, 1, 0.0, 1.0, 0.5, 0.51, 0.49, -1, -0.7, 2, 1e9, 0.5000001)

def number(rng, ts, v): return {"timestamp": ts, "value": v}
def any_payload(rng, ts):
  return rng.choice(({"timestamp": ts}, {"timestamp": ts, "value": rng.random()}, {"timestamp": ts, "text": "a" * rng.randint(0, 50), "n": [1, {"b": b"\x01"}]}, {"timestamp": ts, "id": rng.randrange(10**6)}))

# ---------------------------------------------------------------- models
class GateModel:
  def __init__(self, cfg):
    self.cfg, self.control, self.paused, self.errored, self.in_paused = cfg, cfg.initial_control, False, False, False
  def step(self, topic, kind, v):
    if topic == self.cfg.control_topic:
      if kind == "pause": self.paused = v
      elif valid_number(v): self.control, self.errored = float(v["value"]) > 0.5, False
      else: self.errored = True
    elif kind == "pause": self.in_paused = v
    elif self.open: return [v]
    return []
  @property
  def open(self):
    if self.in_paused or not self.control: return False
    return self.cfg.fail_mode == GateFailMode.OPEN or not (self.paused or self.errored)
  @property
  def out_paused(self): return not self.open

class LatchModel:
  out_paused = None
  def __init__(self, cfg): self.cfg, self.s, self.r, self.v = cfg, False, False, cfg.default_value
  def step(self, topic, kind, v):
    if kind == "pause" or not valid_number(v): return []
    on = float(v["value"]) > 0.5
    if topic == self.cfg.set_topic: self.s = on
    else: self.r = on
    if self.s and not self.r: self.v = True
    if self.r and not self.s: self.v = False
    return [{"timestamp": v["timestamp"], "value": 1.0 if self.v else 0.0}]

class SwitchModel:
  def __init__(self, cfg):
    self.pairs = [(p["input"], p["control"]) for p in cfg.pairs]
    self.control, self.paused, self.out_paused, self.sure = {}, {i: False for i, _ in self.pairs}, False, True
  @property
  def selected(self): return max(self.control, key=lambda k: self.control[k]) if self.control else None
  def step(self, topic, kind, v):
    for idx, (i, c) in enumerate(self.pairs):
      if topic == c:
        if kind == "pause":
          if v:
            if self.selected == idx: self.sure = False # NOTE: what the output's state is until the next message is not specified
            self.control.pop(idx, None)
        elif valid_number(v): self.control[idx] = float(v["value"]); self.update()
      if topic == i:
        if kind == "pause": self.paused[i] = v
        if self.selected == idx:
          self.update()
          if kind == "data": return [v]
    return []
  def update(self):
    if self.selected is not None: self.out_paused, self.sure = self.paused[self.pairs[self.selected][0]], True

class MediaSwitchModel(SwitchModel):
  """Like the switch, but what is passed on starts with a key frame: after a selection, and after packets of the input were left out."""
  def __init__(self, cfg): super().__init__(cfg); self.active = None
  def step(self, topic, kind, v):
    passed = super().step(topic, kind, v)
    idx = next((i for i, (t, _) in enumerate(self.pairs) if t == topic), None)
    if idx is None or kind != "data": return passed
    if self.selected == idx:
      if isinstance(v.get("packet"), dict) and v["packet"]["is_keyframe"]: self.active = idx
      return passed if self.active == idx else []
    if self.active == idx: self.active = None
    return []

class MatcherModel:
  def __init__(self, cfg, match): self.match, self.out_paused = match, False
  def step(self, topic, kind, v):
    if kind == "pause": self.out_paused = v; return []
    if not (isinstance(v, dict) and type(v.get("timestamp")) is int and isinstance(v.get("value"), str)): return []
    return [{"timestamp": v["timestamp"], "value": 1.0 if self.match(v["value"]) else 0.0}]

def valid_number(v):
  return isinstance(v, dict) and type(v.get("timestamp")) is int and type(v.get("value")) in (int, float)

# ---------------------------------------------------------------- gate
def gate_make(rng, cfg, bad=0.15, pauses=0.2):
  def make(topic, ts):
    if rng.random() < pauses: return "pause", rng.random() < 0.5
    if topic == cfg.control_topic:
      if rng.random() < bad: return "data", rng.choice(BAD_NUMBER)
      return "data", number(rng, ts, rng.choice(VALUES))
    return "data", any_payload(rng, ts) if rng.random() < 0.85 or not bad else rng.choice((5, "x", [1, 2], {}))
  return make

def gate_cfg(rng, sync): return GateConfig(fail_mode=rng.choice(list(GateFailMode)), synchronized=sync, initial_control=rng.random() < 0.5, control_topic=1, in_topic=2, out_topic=OUT)

@family("gate", quick=350, thorough=15000)
async def gate(ctx):
  cfg = gate_cfg(ctx.rng, False)
  rig = Rig(ctx)
  await rig.start(lambda c: GateTask(c, cfg), [1, 2], [OUT])
  await spaced(ctx, rig, GateModel(cfg), [1, 2], gate_make(ctx.rng, cfg), 25, burst=True)
  await finish(ctx, rig, cfg)

@family("gate-sync", quick=350, thorough=15000)
async def gate_sync(ctx):
  cfg = gate_cfg(ctx.rng, True)
  rig = Rig(ctx)
  await rig.start(lambda c: GateTask(c, cfg), [1, 2], [OUT])
  make = gate_make(ctx.rng, cfg, 0, 0)
  bad = lambda ts: {"timestamp": ts, "value": ctx.rng.choice(("x", None, [1]))}
  def mk(t, ts): return ("data", bad(ts)) if t == 1 and ctx.rng.random() < 0.15 else make(t, ts)
  await merged(ctx, rig, GateModel(cfg), [1, 2], mk, 6, lambda t, ts: make(t, ts)[1], control=1, ties=True)
  await finish(ctx, rig, cfg)

# ---------------------------------------------------------------- latch
def latch_make(rng, bad=0.2, pauses=0.1):
  def make(topic, ts):
    if rng.random() < pauses: return "pause", rng.random() < 0.5
    return "data", rng.choice(BAD_NUMBER) if rng.random() < bad else number(rng, ts, rng.choice(VALUES))
  return make

@family("latch", quick=200, thorough=8000)
async def latch(ctx):
  cfg = SRLatchConfig(default_value=ctx.rng.random() < 0.5, synchronized=False, set_topic=1, reset_topic=2, out_topic=OUT)
  rig = Rig(ctx)
  await rig.start(lambda c: SRLatchTask(c, cfg), [1, 2], [OUT])
  await spaced(ctx, rig, LatchModel(cfg), [1, 2], latch_make(ctx.rng), 30, burst=True)
  await finish(ctx, rig, cfg)

@family("latch-sync", quick=200, thorough=8000)
async def latch_sync(ctx):
  cfg = SRLatchConfig(default_value=ctx.rng.random() < 0.5, synchronized=True, set_topic=1, reset_topic=2, out_topic=OUT)
  rig = Rig(ctx)
  await rig.start(lambda c: SRLatchTask(c, cfg), [1, 2], [OUT])
  # the sentinels, the only ties, are messages without a usable value
  await merged(ctx, rig, LatchModel(cfg), [1, 2], latch_make(ctx.rng, 0, 0), 6, lambda t, ts: {"timestamp": ts, "value": "x"})
  await finish(ctx, rig, cfg)

# ---------------------------------------------------------------- switch
def switch_setup(ctx):
  rng = ctx.rng
  n = rng.randint(1, 4)
  cfg = SwitchConfig(pairs=[{"control": 1 + i, "input": 11 + i} for i in range(n)], output=OUT)
  ins = [p["control"] for p in cfg.pairs] + [p["input"] for p in cfg.pairs]
  used = [0]
  def make(topic, ts):
    if topic < 10:
      used[0] += 1 # values of different controls never tie
      return "data", number(rng, ts, rng.choice((0, 1, -5, 0.25, 100)) + used[0] * 1e-6)
    return "data", any_payload(rng, ts)
  return cfg, ins, make

@family("switch-sync", quick=300, thorough=10000)
async def switch_sync(ctx):
  cfg, ins, make = switch_setup(ctx)
  rig = Rig(ctx)
  await rig.start(lambda c: SwitchTask(c, cfg), ins, [OUT])
  model = SwitchModel(cfg)
  sent = set()
  def sentinel(t, ts):
    # inputs end a round with something that could be forwarded: only the selected one's may be
    return {"timestamp": ts, "value": "x"} if t < 10 else {"timestamp": ts, "end": t}
  await merged(ctx, rig, model, ins, make, 6, sentinel)
  await finish(ctx, rig, len(ins))

@family("switch", quick=200, thorough=8000)
async def switch(ctx): await play_switch(ctx, SwitchTask, SwitchModel)

@family("media-switch", quick=200, thorough=8000)
async def media_switch(ctx): await play_switch(ctx, MediaSwitchTask, MediaSwitchModel)

async def play_switch(ctx, task, model):
  """Every message reaches every topic's time first, so that any history can be played one by one."""
  rng = ctx.rng
  cfg, ins, make = switch_setup(ctx)
  if task is MediaSwitchTask:
    plain = make
    def make(topic, ts):
      if topic < 10: return plain(topic, ts)
      return "data", {"timestamp": ts, "packet": {"data": rng.randbytes(rng.randrange(1, 9)), "pts": rng.randrange(1000), "rel_dts": rng.randrange(3), "is_keyframe": rng.random() < 0.35}}
  rig = Rig(ctx)
  await rig.start(lambda c: task(c, cfg), ins, [OUT])
  model, want, ts = model(cfg), [], 100
  for t in ins: await rig.data(t, {"timestamp": ts, "value": "x"})
  await rig.settle(0.3)
  for t in ins: want += model.step(t, "data", {"timestamp": ts, "value": "x"})
  for _ in range(30):
    t = rng.choice(ins)
    if rng.random() < 0.25: kind, v = "pause", rng.random() < 0.5
    elif t < 10 and rng.random() < 0.15: kind, v = "data", {"timestamp": ts, "value": rng.choice(("x", None, {}))}
    else: kind, v = make(t, ts)
    ctx.op((t, kind, v))
    # same timestamp as everything before: nothing has to wait
    await (rig.pause(t, v) if kind == "pause" else rig.data(t, v))
    want += model.step(t, kind, v)
    if kind == "pause" and not v:
      # a resumed topic may be behind all others (C16): it catches up
      m = {"timestamp": ts, "value": "x"} if t < 10 else make(t, ts)[1]
      await rig.settle(0.3)
      await rig.data(t, m)
      want += model.step(t, "data", m)
    await rig.settle(0.3)
    rig.alive()
    got = [v for _, v in rig.out(OUT)]
    ctx.check(same(got, want), "outputs", lambda: (t, kind, v, got[-3:], want[-3:]))
    ctx.count("steps")
    if model.sure: ctx.eq(rig.out_paused(OUT), model.out_paused, "output-pause", (t, kind, v))
  await finish(ctx, rig, len(ins))

# ---------------------------------------------------------------- string matcher
WORDS = ("hello", "a.b", "(x", "[", "\\d", "é", "$", "^a", "a|b", "  ", "#", "A B", "tab\t", "x" * 60, "0", "日本", "*", "")
@family("matcher", quick=300, thorough=12000)
async def matcher(ctx):
  rng = ctx.rng
  is_regex = rng.random() < 0.5
  flags = "".join(rng.sample("ismxIMq? ", rng.randint(0, 3)))
  if is_regex:
    pattern = rng.choice((r"\d+", r"a.c", r"^x.*y$", r"(a|b)+z?", r"", r".*", r"[a-f ]{2,4}$", r"hello\s+world", r"a  b", r"\bend\b", r".*\bend\b", r"^\s*$", "a\n?b"))
    f = 0
    for c in flags.lower(): f |= {"i": re.I, "s": re.S, "m": re.M, "x": re.X}.get(c, 0)
    rx = re.compile(pattern, f)
    match = lambda text: rx.match(text) is not None
    texts = ["123", "12a", "abc", "ABC", "a\nc", "xzzzy", "x\ny", "xy\n", "ababz", "", " ", "\n", "aa bb", "hello \n world", "HELLO  WORLD", "a  b", "ab", "a\nb", "the end", "end.", "END", "bend"]
  else:
    pattern = "".join(rng.choice(WORDS) for _ in range(rng.choice((0, 1, 1, 2))))
    fold = "i" in flags.lower()
    low = lambda s: "".join(c.lower() if c.isascii() else c for c in s) if fold else s
    match = lambda text: low(pattern) in low(text)
    texts = [pattern, pattern.upper(), pattern.swapcase(), pattern[:-1], "xx" + pattern, pattern + "yy", "line\n" + pattern + "\nline", "x" + pattern + "\n", pattern[::-1], "", "hello", "\n\n", "  ".join(pattern), "\r\n" + pattern]
    texts = [t for t in texts if all(c.isascii() or c in pattern for c in t)]
  cfg = StringMatcherConfig(pattern=pattern, flags=flags, is_regex=is_regex, in_topic=1, out_topic=OUT)
  def make(topic, ts):
    k = rng.random()
    if k < 0.12: return "pause", rng.random() < 0.5
    if k < 0.3: return "data", rng.choice((5, "x", {}, {"timestamp": ts}, {"timestamp": ts, "value": 5}, {"timestamp": ts, "value": None}, {"timestamp": "x", "value": "hello"}, {"value": "hello"}, {"timestamp": ts, "value": ["hello"]}, {"timestamp": "9" * 40, "value": "hello"}))
    return "data", {"timestamp": ts, "value": rng.choice(texts)}
  rig = Rig(ctx)
  await rig.start(lambda c: StringMatcherTask(c, cfg), [1], [OUT])
  ctx.op(cfg)
  await spaced(ctx, rig, MatcherModel(cfg, match), [1], make, 30, burst=True)
  await finish(ctx, rig, cfg)

# ---------------------------------------------------------------- message detector
@family("detector", quick=400, thorough=15000)
async def detector(ctx):
  """The signal is 1 unless the input is paused, nothing came for the time-out, or (fail mode closed) the last message was invalid."""
  rng = ctx.rng
  time_out = rng.choice((0, 0, 1.0, 3.0, 0.5))
  repeat = rng.choice((0, 0, 0.7, 5.0))
  cfg = MessageDetectorConfig(fail_mode=rng.choice(list(MessageDetectorFailMode)), time_out=time_out, repeat_interval=repeat, in_topic=1, signal_topic=OUT)
  ctx.op(cfg)
  rig = Rig(ctx)
  loop = ctx.loop
  await rig.start(lambda c: MessageDetectorTask(c, cfg), [1], [OUT], settle=0.1)
  started = loop.time() - 0.1
  paused, invalid, last = False, False, started
  changes = [(started, 1.0)]    # when the signal took which value
  LAG = 0.09
  def signal(now):
    if paused or (time_out and now - last >= time_out): return 0.0
    return 0.0 if invalid and cfg.fail_mode == MessageDetectorFailMode.CLOSED else 1.0
  stamps = [(started, None)]
  for _ in range(20):
    # no event close to the moment of a time-out
    wait = rng.choice((0.2, 0.2, 0.35, 0.8, 1.6, 4.0))
    now = loop.time()
    if time_out and abs(now + wait - last - time_out) < 0.2: wait += 0.43
    if time_out and now - last < time_out <= now + wait - last: changes.append((last + time_out, 0.0))
    await rig.settle(wait)
    now = loop.time()
    rig.alive()
    out = rig.out(OUT)
    ctx.check(bool(out), "no-signal", cfg)
    ctx.eq(out[-1][1]["value"], signal(now), "signal", (paused, invalid, now - last))
    ctx.count("steps")
    for _ in range(rng.choice((1, 1, 1, 2, 3))):
      k = rng.random()
      before = signal(now)
      if k < 0.3:
        paused = rng.random() < 0.5
        await rig.pause(1, paused)
      elif k < 0.5:
        await rig.data(1, rng.choice((5, "x", {}, {"timestamp": None}, {"timestamp": "5"}, {"timestamp": math.nan}, {"timestamp": math.inf}, [1], {"time": 5})))
        invalid, last = True, loop.time()
      else:
        ts = rng.choice((0, 1000, 10**12, 5 * 10**9 + rng.randrange(1000), 2.5e6))
        await rig.data(1, {"timestamp": ts, "value": 1})
        stamps.append((loop.time(), int(ts) - int(loop.time() * 1000)))
        invalid, last = False, loop.time()
      if signal(loop.time()) != before: changes.append((loop.time(), signal(loop.time())))
  out = rig.out(OUT)
  # what is sent is the signal at that time (give or take the way to and fro)
  for t, v in out:
    ctx.check(isinstance(v, dict) and set(v) == {"timestamp", "value"}, "shape", lambda: v)
    cur = [c for at, c in changes if at <= t - LAG * 2][-1:] + [c for at, c in changes if t - LAG * 2 < at <= t + 0.001]
    ctx.check(v["value"] in cur, "signal-value", lambda: (t, v, changes))
    # time runs on from the last valid timestamp
    offs = [o for at, o in stamps if at <= t - LAG * 2][-1:] + [o for at, o in stamps if t - LAG * 2 < at <= t + 0.001]
    if None not in offs: ctx.check(any(abs(v["timestamp"] - (int(t * 1000) + o)) <= 250 for o in offs), "timestamp", lambda: (t, v, offs))
  if repeat:
    times = [t for t, _ in out] + [loop.time()]
    for a, b in zip(times, times[1:]): ctx.check(b - a <= repeat + 0.2, "repeat", lambda: (a, b, repeat))
    ctx.count("repeats")
  await finish(ctx, rig, cfg)
