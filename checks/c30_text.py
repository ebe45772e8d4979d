"""C30: string concatenator, text formatter, number-to-text and time-to-text against step-wise models."""
import math, time
from streamtasks.system.tasks.stringconcatenator import StringConcatenatorConfig, StringConcatenatorTask
from streamtasks.system.tasks.textformatter import TextFormatterConfig, TextFormatterTask
from streamtasks.system.tasks.numbertotext import NumberToTextConfig, NumberToTextTask
from streamtasks.system.tasks.timetotext import TimeToTextConfig, TimeToTextTask
from vlib.core import family
from vlib.rig import Rig
from vlib.taskmodel import OUT, finish, merged, spaced

TEXTS = ("", "a", "hello", "x" * 300, "é日本", "line\nline", "{a}", "%d", " ", "\t", "\x00", "0.5", "🙂")
BIG = "1" * 40   # a number, but not one a message can carry
BAD_TEXT = (5, "x", {}, [1], {"value": "a"}, {"timestamp": 5}, {"timestamp": 5, "value": 5}, {"timestamp": 5, "value": None}, {"timestamp": 5, "value": ["a"]}, {"timestamp": "now", "value": "a"},
  {"timestamp": None, "value": "a"}, {"timestamp": math.nan, "value": "a"}, {"timestamp": BIG, "value": "a"}, {"timestamp": [1], "value": "a"}, {"timestamp": 1e300, "value": "a"}, {"timestamp": 5.5, "value": "a"})
BAD_NUMBER = (5, "x", {}, [1], {"value": 1}, {"timestamp": 5}, {"timestamp": 5, "value": "on"}, {"timestamp": 5, "value": None}, {"timestamp": 5, "value": [1]}, {"timestamp": "now", "value": 1},
  {"timestamp": None, "value": 1}, {"timestamp": math.inf, "value": 1}, {"timestamp": BIG, "value": 1}, {"timestamp": -1e300, "value": 1}, {"timestamp": 0.25, "value": 1})

def text_ok(v): return isinstance(v, dict) and type(v.get("timestamp")) is int and isinstance(v.get("value"), str)
def number_ok(v): return isinstance(v, dict) and type(v.get("timestamp")) is int and type(v.get("value")) in (int, float)

# ---------------------------------------------------------------- concatenator
class ConcatModel:
  def __init__(self): self.text, self.control, self.out_paused = "", 0, False
  def step(self, topic, kind, v):
    if topic == 1:
      if kind == "pause": self.out_paused = v; return []
      if not number_ok(v): return []
      rising, self.control = self.control <= 0.5 < v["value"], v["value"]
      if not rising or not self.text: return []
      res, self.text = [{"timestamp": v["timestamp"], "value": self.text}], ""
      return res
    if kind == "data" and text_ok(v): self.text += v["value"]
    return []

def concat_make(rng, bad, pauses):
  n = [0]
  def make(topic, ts):
    if rng.random() < pauses: return "pause", rng.random() < 0.5
    if topic == 1: return "data", rng.choice(BAD_NUMBER) if rng.random() < bad else {"timestamp": ts, "value": rng.choice((0, 1, 0, 1, 0.5, 0.6, 0.0, 5, -1))}
    n[0] += 1
    return "data", rng.choice(BAD_TEXT) if rng.random() < bad else {"timestamp": ts, "value": rng.choice(TEXTS) + str(n[0])}
  return make

@family("concat", quick=250, thorough=10000)
async def concat(ctx):
  cfg = StringConcatenatorConfig(synchronized=False, control_topic=1, in_topic=2, out_topic=OUT)
  rig = Rig(ctx)
  await rig.start(lambda c: StringConcatenatorTask(c, cfg), [1, 2], [OUT])
  await spaced(ctx, rig, ConcatModel(), [1, 2], concat_make(ctx.rng, 0.2, 0.1), 40, burst=True)
  await finish(ctx, rig, "concat", len(rig.out()))

@family("concat-sync", quick=250, thorough=10000)
async def concat_sync(ctx):
  cfg = StringConcatenatorConfig(synchronized=True, control_topic=1, in_topic=2, out_topic=OUT)
  rig = Rig(ctx)
  await rig.start(lambda c: StringConcatenatorTask(c, cfg), [1, 2], [OUT])
  make = concat_make(ctx.rng, 0, 0)
  # at the same time the text comes first
  await merged(ctx, rig, ConcatModel(), [1, 2], make, 6, lambda t, ts: make(t, ts)[1], control=2, ties=True)
  await finish(ctx, rig, "concat-sync", len(rig.out()))

@family("concat-race", quick=250, thorough=10000)
async def concat_race(ctx):
  """Texts that arrive while an output is on its way: every text appears exactly once, in order."""
  rng = ctx.rng
  cfg = StringConcatenatorConfig(synchronized=False, control_topic=1, in_topic=2, out_topic=OUT)
  rig = Rig(ctx)
  await rig.start(lambda c: StringConcatenatorTask(c, cfg), [1, 2], [OUT])
  want, ts = "", 0
  for i in range(40):
    ts += 1
    want += f"<{i}>"
    await rig.data(2, {"timestamp": ts, "value": f"<{i}>"})
    if rng.random() < 0.6: await rig.data(1, {"timestamp": ts, "value": 1}); await rig.data(1, {"timestamp": ts, "value": 0})
    for _ in range(rng.randrange(4)): await rig.settle(rng.choice((0, 0, 0.001, 0.003)))
  await rig.settle(1)
  await rig.data(1, {"timestamp": ts, "value": 0})
  await rig.data(1, {"timestamp": ts, "value": 1})
  await rig.settle(1)
  got = "".join(v["value"] for _, v in rig.out(OUT))
  ctx.count("steps", 40)
  ctx.check(got == want, "texts", lambda: (got, want))
  await finish(ctx, rig, "race", len(rig.out()))

# ---------------------------------------------------------------- formatter
class FormatModel:
  out_paused = None
  def __init__(self, tokens, tracks):
    self.tokens, self.defaults = tokens, {t["in_topic"]: (t["name"], t["default_text"]) for t in tracks}
    self.values = {t["name"]: t["default_text"] for t in tracks}
  def step(self, topic, kind, v):
    name, default = self.defaults[topic]
    if kind == "pause": self.values[name] = default; return []
    if not text_ok(v): return []
    self.values[name] = v["value"]
    text = self.render()
    return [] if text is None else [{"timestamp": v["timestamp"], "value": text}]
  def render(self):
    res = ""
    for k, *a in self.tokens:
      if k == "lit": res += a[0]
      elif k == "bad": return None
      elif k == "item":
        if a[0] not in self.values or a[1] >= len(self.values[a[0]]): return None
        res += self.values[a[0]][a[1]]
      else:
        if a[0] not in self.values: return None
        v = self.values[a[0]]
        v = {"": str, "r": repr, "a": ascii, "s": str}[a[1]](v)
        res += pad(v, *a[2:])
    return res

def pad(v, align, width, cut):
  if cut is not None: v = v[:cut]
  n = max(0, width - len(v))
  return v + " " * n if align == "<" else " " * n + v if align == ">" else v

def template(rng, names, broken):
  tokens, text = [], ""
  for _ in range(rng.randint(0, 6)):
    k = rng.random()
    if k < 0.4:
      lit = rng.choice(("", "a", " - ", "{", "}", "{a}", "{{", "%s", "\n", "é", "\\n"))
      tokens.append(("lit", lit)); text += lit.replace("{", "{{").replace("}", "}}")
    elif names:
      n = rng.choice(names)
      conv, align, width, cut = rng.choice(("", "", "", "r", "s", "a")), rng.choice("<>"), rng.choice((0, 0, 3, 12)), rng.choice((None, None, 0, 2))
      if rng.random() < 0.15: i = rng.choice((0, 3)); tokens.append(("item", n, i)); text += "{" + n + f"[{i}]" + "}"; continue
      tokens.append(("var", n, conv, align, width, cut))
      spec = (align + str(width) if width else "") + ("" if cut is None else f".{cut}")
      text += "{" + n + ("!" + conv if conv else "") + (":" + spec if spec else "") + "}"
  if broken:
    text += rng.choice(("{nobody}", "{", "}", "{}", "{0}", "{" + (names or ["a"])[0] + ".nothing}", "{" + (names or ["a"])[0] + ":d}", "{" + (names or ["a"])[0] + "!x}", "{" + (names or ["a"])[0] + "[x]}", "{" + (names or ["a"])[0] + ":?}"))
    tokens.append(("bad",))
  return tokens, text

@family("format", quick=500, thorough=20000)
async def fmt(ctx):
  rng = ctx.rng
  names = rng.sample(("a", "b", "text", "x1", "Name"), rng.randint(1, 4))
  tracks = [{"name": n, "default_text": rng.choice(("", "-", "default")), "in_topic": i + 1} for i, n in enumerate(names)]
  tokens, text = template(rng, names, rng.random() < 0.2)
  sync = rng.random() < 0.5
  cfg = TextFormatterConfig(variable_tracks=tracks, template=text, synchronized=sync, out_topic=OUT)
  ctx.op(cfg)
  rig = Rig(ctx)
  ins = [t["in_topic"] for t in tracks]
  await rig.start(lambda c: TextFormatterTask(c, cfg), ins, [OUT])
  model = FormatModel(tokens, tracks)
  ctx.count("broken-templates" if ("bad",) in tokens else "templates")
  if sync:
    make = lambda t, ts: ("data", {"timestamp": ts, "value": rng.choice(TEXTS)})
    await merged(ctx, rig, model, ins, make, 5, lambda t, ts: {"timestamp": ts, "value": rng.choice((None, 5, [1]))})
  else:
    def make(t, ts):
      k = rng.random()
      if k < 0.12: return "pause", rng.random() < 0.5
      return "data", rng.choice(BAD_TEXT) if k < 0.3 else {"timestamp": ts, "value": rng.choice(TEXTS)}
    await spaced(ctx, rig, model, ins, make, 25, burst=True)
  await finish(ctx, rig, text)
  if ("bad",) in tokens: ctx.nontrivial = True

# ---------------------------------------------------------------- number to text
class Echo:
  """The input's control is the output's; the outputs themselves are compared apart."""
  def __init__(self): self.out_paused = False
  def step(self, topic, kind, v):
    if kind == "pause": self.out_paused = v
    return []

@family("number", quick=200, thorough=8000)
async def num(ctx):
  rng = ctx.rng
  cfg = NumberToTextConfig(in_topic=1, out_topic=OUT)
  rig = Rig(ctx)
  await rig.start(lambda c: NumberToTextTask(c, cfg), [1], [OUT])
  want, paused = [], False
  for i in range(40):
    k = rng.random()
    if k < 0.1: paused = rng.random() < 0.5; await rig.pause(1, paused)
    elif k < 0.3: await rig.data(1, rng.choice(BAD_NUMBER))
    else:
      v = rng.choice((0, 1, -1, 0.1, 1 / 3, 1e300, -1e-300, 5e-324, 123456789.123456789, 2**53, rng.uniform(-1e6, 1e6), rng.randint(-10**9, 10**9), math.inf, -math.inf, math.nan, 1.7976931348623157e308, -0.0))
      ts = rng.choice((0, -5, 10**13, i, 2**63 - 1))
      want.append((ts, v))
      await rig.data(1, {"timestamp": ts, "value": v})
    if rng.random() < 0.5: await rig.settle(0.3); ctx.eq(rig.out_paused(OUT), paused, "output-pause")
  await rig.settle(1)
  got = [v for _, v in rig.out(OUT)]
  ctx.count("steps", 40)
  ctx.check(len(got) == len(want), "outputs", lambda: (len(got), len(want)))
  for g, (ts, v) in zip(got, want):
    ctx.check(set(g) == {"timestamp", "value"} and g["timestamp"] == ts and isinstance(g["value"], str), "shape", lambda: (g, ts))
    f = float(g["value"])
    ctx.check(f == v or (math.isnan(f) and math.isnan(v)), "value", lambda: (g, v))
    ctx.sigadd(g["value"])
  await finish(ctx, rig, "number")

# ---------------------------------------------------------------- time to text
@family("time", quick=250, thorough=10000)
async def tm(ctx):
  rng = ctx.rng
  f = rng.choice(("%d/%m/%Y, %H:%M:%S", "%Y-%m-%d %H:%M:%S.%f", "%s", "", "no fields %%", "%A %B %j", "%I:%M %p", "%y%U%w", "日 %d", "%H", "%f"))
  cfg = TimeToTextConfig(date_format=f, in_topic=1, out_topic=OUT)
  rig = Rig(ctx)
  await rig.start(lambda c: TimeToTextTask(c, cfg), [1], [OUT])
  paused, pos = False, 0
  for i in range(40):
    k = rng.random()
    if k < 0.1: paused = rng.random() < 0.5; await rig.pause(1, paused); ts = None
    elif k < 0.25: ts = None; await rig.data(1, rng.choice((5, "x", {}, [1], {"time": 5}, {"timestamp": None}, {"timestamp": "5"}, {"timestamp": math.nan}, {"timestamp": math.inf}, {"timestamp": [1]})))
    else:
      ts = rng.choice((0, 1, 999, 1000, 86400000 - 1, 1700000000123, rng.randrange(4 * 10**12), rng.randrange(4 * 10**12), -1, -86400001, 253402300799999, 10**15, 10**17, -10**17, 2**63 - 1, 2**64 - 1, 1.5e12 + 0.75, 1e300, 3.7))
      await rig.data(1, {"timestamp": ts, "x": i})
    await rig.settle(0.2)
    rig.alive()
    got = [v for _, v in rig.out(OUT)][pos:]
    pos += len(got)
    ctx.count("steps")
    ctx.eq(rig.out_paused(OUT), paused, "output-pause")
    if ts is None: ctx.check(not got, "output-without-input", lambda: got); continue
    ts = int(ts)
    ctx.check(len(got) <= 1, "outputs", lambda: got)
    if -30000000000000 < ts < 250000000000000: # the years a date can have
      want = strftime(f, ts)
      ctx.check(len(got) == 1 and got[0] == {"timestamp": ts, "value": want}, "text", lambda: (f, ts, got, want))
      ctx.count("dates")
      ctx.sigadd((f, want))
    else:
      ctx.count("extreme")
      for g in got: ctx.check(g["timestamp"] == ts and isinstance(g["value"], str), "shape", lambda: g)
  await finish(ctx, rig, f)

def strftime(f, ts):
  s, ms = divmod(ts, 1000)
  return time.strftime(f.replace("%f", f"{ms * 1000:06d}"), time.localtime(s))
