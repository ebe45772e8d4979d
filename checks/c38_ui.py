"""C38: what user interface tasks show is what they received, what is set in them is what they send."""
import asyncio, contextlib, html, io, json, math
from html.parser import HTMLParser
import numpy as np
from streamtasks.asgi import ASGIProxyApp
from streamtasks.media.packet import MediaMessage
from streamtasks.media.video import VideoCodecInfo, VideoFrame
from streamtasks.message.types import NumberMessage, TextMessage, TimestampChuckMessage
from streamtasks.net.serialization import RawData
from streamtasks.net.utils import str_to_endpoint
from streamtasks.system.task import MetadataFields
from streamtasks.system.tasks.ui.audiofrequencydisplay import AudioFrequencyDisplayConfig, AudioFrequencyDisplayTask
from streamtasks.system.tasks.ui.radiobuttonsui import RadioButtonConfig, RadioButtonsUIConfig, RadioButtonsUITask
from streamtasks.system.tasks.ui.sliderui import SliderUIConfig, SliderUITask
from streamtasks.system.tasks.ui.statusdisplay import StatusDisplayConfig, StatusDisplayTask
from streamtasks.system.tasks.ui.switchui import SwitchUIConfig, SwitchUITask
from streamtasks.system.tasks.ui.textdisplay import TextDisplayConfig, TextDisplayTask
from streamtasks.system.tasks.ui.textinput import TextInputConfig, TextInputTask
from streamtasks.system.tasks.ui.valuedisplaybar import ValueDisplayBarConfig, ValueDisplayBarTask
from streamtasks.system.tasks.ui.videoviewer import VideoViewerConfig, VideoViewerTask
from streamtasks.system.tasks.ui.webviewer import WebViewerConfig, WebViewerTask
from streamtasks.utils import get_timestamp_ms
from vlib import http
from vlib.core import family
from vlib.disco import *
from vlib.values import text

FAST = ("queue", "rawqueue", "v-zero", "v-small", "sock", "y-zero", "y-small", "b-zero", "b-small")
SLACK = 0.15

def strict(data):
  """JSON as a browser reads it."""
  def bad(c): raise ValueError("not JSON: " + c)
  return json.loads(data, parse_constant=bad)

class UI:
  """A running user interface task and somebody who uses it."""
  @staticmethod
  async def open(ctx, cls, cfg, ins=(), outs=(), kinds=FAST, task_kinds=FAST):
    rng = ctx.rng
    self = UI(); self.ctx, self.rng = ctx, rng
    quiet = contextlib.redirect_stdout(io.StringIO())
    quiet.__enter__()
    ctx.cleanups.append(lambda: quiet.__exit__(None, None, None))
    self.net = await with_discovery(ctx, kinds, rng.randint(1, 3))
    self.pub = await self.net.add_client()
    self.outs = {}
    for t in ins:
      o = self.outs[t] = self.pub.client.out_topic(t)
      await o.start(); await o.set_registered(True)
    self.sub = await self.net.add_client()
    self.log, self.readers = [], []
    for t in outs:
      i = self.sub.client.in_topic(t)
      await i.start(); await i.set_registered(True)
      self.readers.append(asyncio.create_task(self.read(i, t)))
    await settle(3)
    self.worker = await self.net.add_client(kind=rng.choice(task_kinds))
    self.task = cls(self.worker.client, cfg)
    meta = await asyncio.wait_for(self.task.setup(), 60)
    self.user = await self.net.add_client(); await self.user.client.request_address()
    self.app = ASGIProxyApp(self.user.client, str_to_endpoint(meta[MetadataFields.ASGISERVER]))
    ctx.eq(meta.get("cfg:frontendpath"), "index.html", "frontend-path")
    await settle(1)
    self.started = ctx.loop.time()
    self.run = asyncio.create_task(self.task.run())
    self.pages = []
    return self
  async def read(self, i, t):
    while True:
      d = (await i.recv_data()).data
      self.log.append((self.ctx.loop.time(), t, d))
      self.ctx.count("outputs")
  async def call(self, method, path, body=None, **kw):
    self.ctx.count("requests")
    try: r = await http.call(self.app, method, path, body, timeout=60, **kw)
    except TimeoutError: r = None
    self.alive()
    self.ctx.check(r is not None and r.complete, "request-hangs", lambda: (method, path, body, r))
    return r
  def alive(self):
    self.ctx.check(not self.run.done(), "task-ended", lambda: repr(self.run.exception() if not self.run.cancelled() else "cancelled")[:600])
  async def value(self):
    r = await self.call("GET", "/value")
    self.ctx.eq(r.status, 200, "value-status", lambda: r)
    try: return strict(r.body)
    except ValueError as e: self.ctx.fail("value-is-not-json", (r.body[:200], str(e)))
  async def page(self):
    """A browser tab: connects, and then asks for the value."""
    ws = http.WS(self.app, "/value")
    ts = [asyncio.create_task(ws.accepted.wait()), asyncio.create_task(ws.closed.wait())]
    done, _ = await asyncio.wait(ts, timeout=60, return_when="FIRST_COMPLETED")
    for t in ts: t.cancel()
    self.ctx.check(ws.accepted.is_set() and not ws.closed.is_set(), "page-refused", lambda: repr(ws.error))
    ws.first = await self.value()
    self.pages.append(ws)
    self.ctx.count("pages")
    return ws
  def shown(self, ws):
    if not ws.out: return ws.first
    try: return strict(ws.out[-1])
    except ValueError as e: self.ctx.fail("page-is-not-sent-json", (ws.out[-1][:200], str(e)))
  async def close_some(self):
    for ws in list(self.pages):
      if self.rng.random() < 0.4: ws.disconnect(); self.pages.remove(ws); ws.gone = len(ws.out); self.ctx.count("closed_pages")
  async def judge(self, want, what, same=lambda a, b: a == b):
    self.alive()
    got = await self.value()
    self.ctx.check(same(got, want), what, lambda: {"got": got, "want": want})
    for k, ws in enumerate(self.pages):
      self.ctx.check(not ws.closed.is_set(), "page-closed", lambda: repr(ws.error))
      s = self.shown(ws)
      self.ctx.check(same(s, want), what + "-on-page", lambda: {"page": k, "shows": s, "value": want, "messages": ws.out[-5:], "first": ws.first})
      self.ctx.count("pages_judged")
  async def assets(self, config, script):
    r = await self.call("GET", "/config")
    self.ctx.check(r.status == 200 and json.loads(r.body) == config.model_dump(mode="json"), "config", lambda: (r, config))
    r = await self.call("GET", "/index.html")
    self.ctx.check(r.status == 200 and b"./main.js" in r.body and dict(r.headers).get(b"content-type", b"").startswith(b"text/html"), "index", lambda: (r, r.headers))
    r = await self.call("GET", "/main.js")
    self.ctx.check(r.status == 200 and b"renderUI" in r.body and b"javascript" in dict(r.headers).get(b"content-type", b""), "script", lambda: (r, r.headers))
    for p in script: self.ctx.check(p.encode() in r.body, "wrong-script", lambda: (p, r.body[:300]))
    r = await self.call(self.rng.choice(("GET", "POST")), "/nothing", b"{}")
    self.ctx.eq(r.status, 404, "unknown-path")

def number(rng): return rng.choice((0, 1, -1, 0.5, rng.uniform(-5, 5), rng.randrange(-10**6, 10**6), rng.uniform(-1e300, 1e300), 1e-9))

# ---------------------------------------------------------------- controls
class Control:
  def __init__(self, rng):
    self.rng = rng
    self.kind = rng.choice(("slider", "slider", "switch", "radio", "radio", "text"))
    R = self.R = rng.choice((0, 0, 0, 1, 0.5, 2.5, 3))
    k = self.kind
    self.topics = [5]
    if k == "slider":
      self.cls, d = SliderUITask, number(rng)
      self.cfg = SliderUIConfig(out_topic=5, repeat_interval=R, label=text(rng), default_value=d, min_value=-1, max_value=9)
      self.state, self.script = {"value": float(d)}, ("slider",)
    elif k == "switch":
      self.cls, d = SwitchUITask, rng.random() < 0.5
      self.cfg = SwitchUIConfig(out_topic=5, repeat_interval=R, label=text(rng), default_value=d)
      self.state, self.script = {"value": d}, ("switch",)
    elif k == "radio":
      self.topics = rng.sample(rng.choice((range(5, 90), (5, 50, 51, 55, 500, 6, 65))), rng.randint(1, 4))
      self.cls = RadioButtonsUITask
      self.cfg = RadioButtonsUIConfig(repeat_interval=R, button_tracks=[RadioButtonConfig(out_topic=t, label=text(rng)) for t in self.topics])
      self.state, self.script = {"selected_topic": -1}, ("radio",)
    else:
      self.cls = TextInputTask
      self.cfg = TextInputConfig(out_topic=5, repeat_interval=R)
      self.state, self.script = {"value": ""}, ("text",)
  def pick(self):
    rng, k = self.rng, self.kind
    if k == "slider": return {"value": float(number(rng))}
    if k == "switch": return {"value": rng.random() < 0.5}
    if k == "radio": return {"selected_topic": rng.choice(self.topics + [-1])}
    return {"value": rng.choice((text(rng), "hello %d" % rng.randrange(1000), " ", "", "\n", " x "))}
  def bad(self):
    rng, k = self.rng, self.kind
    v = rng.choice((b"", b"{", b"[]", b"5", b"null", b'"x"', b"{}", b'{"other": 1}', b"\xff\xfe", b'{"value": }'))
    if rng.random() < 0.4: v = json.dumps({"value": {"slider": [1], "switch": "perhaps", "text": 3, "radio": 1}[k], "selected_topic": {"radio": "none"}.get(k, 0)}).encode()
    return v
  def emission(self, state):
    """topic -> number or text, or None if nothing is sent."""
    if self.kind == "radio": return {t: (1 if t == state["selected_topic"] else 0) for t in self.topics}
    if self.kind == "text": return {5: state["value"]} if state["value"].strip() else None
    return {5: float(state["value"])}

def rounds(ctx, ctl, log, what, whole=False):
  """Messages grouped by emission: (time, {topic: value})."""
  out = {}
  for at, t, d in log:
    try: m = (TextMessage if ctl.kind == "text" else NumberMessage).model_validate(d)
    except Exception as e: ctx.fail("malformed-output", (d, repr(e)))
    ctx.check(abs(m.timestamp - get_timestamp_ms()) < 7200_000, "timestamp-is-not-now", lambda: (m, get_timestamp_ms()))
    if len(ctl.topics) == 1: out[len(out)] = [at, {t: m.value}]; continue
    # the messages of one emission have the same timestamp; several may be sent in the same moment
    k = next((k for k in out if k[0] == m.timestamp and t not in out[k][1]), None) or (m.timestamp, len(out))
    out.setdefault(k, [at, {}])[1][t] = m.value
  res = sorted(out.values(), key=lambda r: r[0])
  # the log may begin and end in the middle of an emission
  for k, (at, e) in enumerate(res): ctx.check(len(e) == len(ctl.topics) or whole is False and k in (0, len(res) - 1), "incomplete-emission", lambda: {"what": what, "at": k, "emissions": res[max(0, k - 2):k + 3], "now": ctx.loop.time()})
  return [r for r in res if len(r[1]) == len(ctl.topics)]

@family("controls", quick=160, thorough=6000)
async def controls(ctx):
  """Every value that is set is sent once, and then again at the configured interval; all open pages show it."""
  rng = ctx.rng
  ctl = Control(rng)
  ctx.op(ctl.kind, "repeat", ctl.R, ctl.state)
  ui = await UI.open(ctx, ctl.cls, ctl.cfg, outs=ctl.topics)
  state = ctl.state
  def repeats(rs, start, until, emission, what):
    """rs are the repetitions of what was sent at `start`."""
    if ctl.R == 0 or emission is None:
      ctx.check(not rs, "sent-without-reason", lambda: {"what": what, "sent": rs[:6], "repeat": ctl.R}); return
    last = start
    for at, e in rs:
      ctx.check(e == emission, "repeats-something-else", lambda: {"what": what, "sent": e, "want": emission})
      ctx.check(abs(at - last - ctl.R) < SLACK, "repeat-interval", lambda: {"what": what, "gap": at - last, "want": ctl.R})
      last = at
    ctx.check(until - last < ctl.R + SLACK, "repetition-stops", lambda: {"what": what, "since": until - last, "want": ctl.R})
    ctx.count("repeats", len(rs))
  await settle(rng.choice((1, 4)))
  # what is sent at the start may be too early for anybody to hear it
  first = rounds(ctx, ctl, ui.log, "start")
  e0 = ctl.emission(state)
  for _, e in first: ctx.check(e == e0, "initial-value", lambda: (e, e0))
  if ctl.R and e0: ctx.check(first or ctx.loop.time() - ui.started < ctl.R + SLACK, "initial-value-not-repeated", lambda: (ctl.R, ctx.loop.time() - ui.started))
  if ctl.R == 0: ctx.check(len(first) <= 1, "initial-value-repeated", first)
  ui.log.clear()
  await ui.assets(ctl.cfg, ctl.script)
  for step in range(rng.randint(4, 12)):
    op = rng.choice(("page", "set", "set", "set", "burst", "burst", "bad", "close", "quiet"))
    ctx.op(op); ctx.sigadd(ctl.kind, op)
    if op == "page": await ui.page()
    elif op == "close": await ui.close_some()
    elif op == "bad":
      body = ctl.bad()
      r = await ui.call("POST", "/value", body)
      ctx.check(r.status == 400, "bad-value-accepted", lambda: (body, r)); ctx.count("bad_values")
    elif op == "quiet": await settle(rng.choice((1, 7)))
    elif op == "set":
      # everything before it has been sent
      await settle(0.3)
      state = ctl.pick()
      ctx.op(state)
      mark, t0 = len(ui.log), ctx.loop.time()
      r = await ui.call("POST", "/value", state, chunks=rng.choice((1, 1, 3)))
      ctx.eq(r.status, 200, "set-status", lambda: r)
      await settle(rng.choice((0.3, 0.3, 1.2, 6)))
      want = ctl.emission(state)
      rs = rounds(ctx, ctl, ui.log[mark:], "set", ctl.R == 0)
      if want is not None:
        # a repetition of the value before may still get in between
        while rs and rs[0][1] != want and rs[0][0] - t0 < SLACK and ctl.R: rs.pop(0)
        ctx.check(rs and rs[0][1] == want, "value-not-sent", lambda: {"set": state, "sent": rs[:5], "repeat": ctl.R})
        ctx.check(rs[0][0] - t0 < SLACK * 2, "value-sent-late", lambda: rs[0][0] - t0)
        if len(rs) > 1 and ctl.R and rs[1][1] == want and rs[1][0] - rs[0][0] < ctl.R - SLACK and rs[0][0] - t0 < SLACK: rs.pop(0) # an equal value was just repeated
        repeats(rs[1:], rs[0][0], ctx.loop.time(), want, ("set", state))
      else:
        while rs and rs[0][0] - t0 < SLACK and ctl.R: rs.pop(0)
        ctx.check(not rs, "blank-sent", lambda: rs[:4])
      ctx.count("sets")
      await ui.judge(state, "value")
    elif op == "burst":
      await settle(0.3)
      vs = [ctl.pick() for _ in range(rng.randint(2, 6))]
      mark, before = len(ui.log), state
      async def post(v, d):
        if d: await asyncio.sleep(d)
        r = await ui.call("POST", "/value", v)
        ctx.eq(r.status, 200, "set-status", lambda: r)
      await asyncio.gather(*(post(v, rng.choice((0, 0, 0.001, rng.random() * 0.02))) for v in vs))
      await settle(0.5 + ctl.R)
      state = await ui.value()
      ctx.check(state in vs, "value-is-none-of-those-set", lambda: (state, vs))
      rs = rounds(ctx, ctl, ui.log[mark:], "burst", ctl.R == 0)
      ok = [ctl.emission(v) for v in [before] + vs]
      for _, e in rs: ctx.check(e in ok, "sent-what-was-not-set", lambda: (e, vs))
      want = ctl.emission(state)
      if want is not None: ctx.check(rs and rs[-1][1] == want, "last-value-not-sent", lambda: {"value": state, "sent": rs[-4:], "set": vs, "repeat": ctl.R})
      elif ctl.R: ctx.check(not rs or ctx.loop.time() - rs[-1][0] > 0.3, "blank-repeated", lambda: rs[-3:])
      if not ctl.R: ctx.check(len(rs) <= len(vs), "sent-too-often", lambda: (rs, vs))
      ctx.count("bursts")
      await ui.judge(state, "value-after-burst")
  await settle(1)
  mark, t0 = len(ui.log), ctx.loop.time()
  await ui.judge(state, "final-value")
  await settle(max(4, 2.5 * ctl.R))
  rs = rounds(ctx, ctl, ui.log[mark:], "end")
  want = ctl.emission(state)
  if ctl.R and want is not None:
    ctx.check(rs and rs[0][0] - t0 < ctl.R + SLACK, "not-repeated", lambda: (ctl.R, rs[:2], t0))
    ctx.eq(rs[0][1], want, "repeats-something-else")
    repeats(rs[1:], rs[0][0], ctx.loop.time(), want, "end")
  else: ctx.check(not rs, "sent-without-reason", lambda: rs[:4])
  ui.alive()
  ctx.nontrivial = True

# ---------------------------------------------------------------- displays
class Display:
  def __init__(self, rng):
    self.rng = rng
    self.kind = k = rng.choice(("text", "text", "status", "bar"))
    if k == "text":
      self.append, self.sep = rng.random() < 0.7, rng.choice(("", "", ", ", "\n", "|", "ab"))
      self.max = rng.choice((-1, 0, 1, 5, 20, 2000))
      self.cls = TextDisplayTask
      self.cfg = TextDisplayConfig(in_topic=5, append=self.append, seperator=self.sep, max_length=self.max)
      self.values, self.script = [""], ("value",)
    else:
      d = number(rng)
      if k == "status": self.cls, self.cfg, self.script = StatusDisplayTask, StatusDisplayConfig(in_topic=5, threshold=d, text_above=text(rng)), ("threshold", "text_above")
      else: self.cls, self.cfg, self.script = ValueDisplayBarTask, ValueDisplayBarConfig(in_topic=5, default_value=d, direction=rng.choice(("vertical", "horizontal"))), ("min_value", "direction")
      self.values = [float(d)]
  def cut(self, s): return s if self.max == -1 else s[len(s) - self.max:] if self.max < len(s) else s
  def message(self):
    rng, k = self.rng, self.kind
    if rng.random() < 0.15:
      return rng.choice(({}, [], 5, "x", {"timestamp": 1}, {"timestamp": 1, "value": [1]}, {"timestamp": 1, "value": {}}, {"timestamp": 1, "value": None}, {"timestamp": "soon", "value": "a"})), False
    if k == "text": return {"timestamp": rng.randrange(10**12), "value": rng.choice((text(rng), "w%d" % rng.randrange(100), "\u2028<b>&amp;"))}, True
    v = number(rng)
    if rng.random() < 0.1: v = rng.choice((float("nan"), float("inf"), float("-inf")))
    return {"timestamp": rng.randrange(10**12), "value": v}, True
  def apply(self, v):
    if self.kind != "text": self.values = [float(v)]; return
    if not self.append: self.values = [self.cut(v)]; return
    if self.started: self.values = [self.cut(s + self.sep + v) for s in self.values]
    else: self.values = [self.cut(self.sep + v), self.cut(v)]
    self.started = True
  started = False
  def same(self, got, _):
    if not isinstance(got, dict) or set(got) != {"value"}: return False
    g = got["value"]
    for v in self.values:
      if isinstance(v, float) and not math.isfinite(v):
        if g is None or isinstance(g, str): return True
      elif g == v and isinstance(g, str) == isinstance(v, str): return True
    return False

@family("displays", quick=120, thorough=5000)
async def displays(ctx):
  """Every open page shows what was received last, or the text received so far."""
  rng = ctx.rng
  d = Display(rng)
  ctx.op(d.kind, d.cfg)
  ui = await UI.open(ctx, d.cls, d.cfg, ins=[5])
  await settle(2)
  await ui.assets(d.cfg, d.script)
  await ui.judge(d.values, "initial-value", d.same)
  for _ in range(rng.randint(3, 10)):
    op = rng.choice(("page", "send", "send", "burst", "burst", "page-during-burst", "close"))
    ctx.op(op); ctx.sigadd(d.kind, op)
    async def send(k, gap):
      for _ in range(k):
        m, ok = d.message()
        if ok: d.apply(m["value"])
        ctx.count("messages" if ok else "malformed")
        await ui.outs[5].send(RawData(m))
        if gap: await asyncio.sleep(rng.choice((0, 0.0005, 0.002)))
    if op == "page": await ui.page()
    elif op == "close": await ui.close_some()
    elif op == "page-during-burst": await asyncio.gather(*(ui.page() for _ in range(rng.randint(1, 2))), send(rng.randint(3, 20), True))
    else: await send(1 if op == "send" else rng.randint(2, 20), rng.random() < 0.5)
    await settle(0.5)
    await ui.judge(d.values, "value", d.same)
  await settle(1)
  await ui.judge(d.values, "final-value", d.same)
  ctx.nontrivial = True

# ---------------------------------------------------------------- sound
FMTS = {"s16": (np.int16, 30000), "s32": (np.int32, 2**30), "flt": (np.float32, 1), "dbl": (np.float64, 1), "u8": (np.uint8, 100)}

@family("frequencies", quick=30, thorough=1500)
async def frequencies(ctx):
  """Each second of sound is shown as the strengths of its frequency ranges, the strongest being 1."""
  rng = ctx.rng
  rate, fmt = rng.choice((1000, 2000, 4000, 3001, 8000, 44100)), rng.choice(("s16", "s16", "s32", "flt", "dbl"))
  size = rng.choice((1, 7, 10, 100, 333, rate // 2, rate) if rate < 8000 else (100, 333, rate // 2))
  ctx.op(rate, fmt, size); ctx.sigadd(fmt, rate, size)
  ui = await UI.open(ctx, AudioFrequencyDisplayTask, AudioFrequencyDisplayConfig(in_topic=5, rate=rate, sample_format=fmt, bin_size=size), ins=[5])
  await settle(2)
  dt, amp = FMTS[fmt]
  got = await ui.value()
  ctx.eq(got, {"freq_bins": []}, "initial-value")
  if rng.random() < 0.7: await ui.page()
  held, want, now = np.zeros(0), [], 0
  def same(g, w):
    b = g.get("freq_bins") if isinstance(g, dict) else None
    return isinstance(b, list) and len(b) == len(w) and all(isinstance(x, (int, float)) for x in b) and bool(np.allclose(np.array(b, float), np.array(w, float), rtol=1e-3, atol=1e-4))
  for _ in range(rng.randint(2, 5)):
    n = rng.choice((rate, rate // 3, 2 * rate + 1, rng.randrange(1, 2 * rate)))
    kind = rng.choice(("tone", "noise", "silence", "tones"))
    t = np.arange(n) / rate
    if kind == "silence": s = np.zeros(n)
    elif kind == "noise": s = np.frombuffer(rng.randbytes(2 * n), np.int16) / 32768 * 0.9
    else: s = sum(np.sin(2 * np.pi * rng.uniform(1, rate / 2) * t) for _ in range(1 if kind == "tone" else 3)) / 3
    s = (s * amp * (rng.choice((1, 1, 0.01, 1e-5)) if fmt in ("flt", "dbl") else 1)).astype(dt)
    ctx.sigadd(kind)
    for part in np.array_split(s, rng.randint(1, 4)):
      if not len(part): continue
      await ui.outs[5].send(RawData(TimestampChuckMessage(timestamp=now, data=part.tobytes()).model_dump()))
      now += 1000 * len(part) // rate
      ctx.count("chunks")
    held = np.concatenate((held, s.astype(np.float64)))
    for _ in range(rng.choice((0, 0, 1, 2))): # what is no sound is left out
      m = rng.choice(({}, {"timestamp": now}, {"timestamp": now, "data": None}, {"data": b"12345678"}, 5, "x", {"timestamp": now, "data": b""}, {"timestamp": now, "data": b"1"}, {"timestamp": now, "data": bytes(9)}, {"timestamp": now, "data": b"123"}))
      ctx.op("malformed", m); ctx.count("malformed-sound")
      await ui.outs[5].send(RawData(m))
    while len(held) >= rate:
      f = np.abs(np.fft.fft(held[:rate])[:rate // 2])
      b = np.array([f[k:k + size].sum() for k in range(0, len(f), size)])
      want = b / b.max() if b.max() > 0 else b
      held = held[rate:]
      ctx.count("spectra")
    await settle(1)
    await ui.judge(want, "frequencies", same)
  ctx.nontrivial = bool(len(want) > 0)

# ---------------------------------------------------------------- web pages
class Frames(HTMLParser):
  def __init__(self): super().__init__(); self.frames = []; self.tags = []
  def handle_starttag(self, tag, attrs):
    self.tags.append(tag)
    if tag == "iframe": self.frames.append(dict(attrs))

@family("web-viewer", quick=16, thorough=300)
async def web_viewer(ctx):
  """The page shows exactly the configured address."""
  rng = ctx.rng
  url = rng.choice(("", "https://example.org/", "https://example.org/a?b=1&c=2&copy=3&lt;=4", 'https://example.org/?q="x"', "http://[::1]:80/#a", "https://e.org/<script>", "https://e.org/ä?x='y'", "data:text/html,<b>\"hi\"</b>", "/relative?a=1&amp;b=2", text(rng).replace("\0", "").replace("\r", "")))
  ctx.op(url); ctx.sigadd(url)
  ui = await UI.open(ctx, WebViewerTask, WebViewerConfig(url=url))
  await settle(1)
  r = await ui.call("GET", "/index.html")
  ctx.check(r.status == 200 and dict(r.headers).get(b"content-type", b"").startswith(b"text/html"), "index", lambda: (r, r.headers))
  p = Frames(); p.feed(r.body.decode()); p.close()
  ctx.check(len(p.frames) == 1 and p.frames[0].get("src") == url, "address", lambda: (url, p.frames))
  ctx.check("script" not in p.tags and "b" not in p.tags, "address-becomes-markup", lambda: (url, p.tags))
  ctx.count("viewers")
  ctx.nontrivial = True

# ---------------------------------------------------------------- video
_video = {}
async def video():
  if not _video:
    info = VideoCodecInfo(64, 48, 30, "yuv420p", "h264")
    e, out = info.get_encoder(), []
    gen = np.random.default_rng(5)
    for k in range(90):
      f = VideoFrame.from_ndarray(gen.integers(0, 255, (48, 64, 3), np.uint8), "rgb24"); f.set_ts(k * info.time_base, info.time_base)
      out += await e.encode(f)
    out += await e.flush()
    _video["p"] = out
  return _video["p"]

def nals(b):
  """The picture data of a packet, without delimiters."""
  return b"".join(p for p in b.replace(b"\0\0\0\1", b"\0\0\1").split(b"\0\0\1") if p and p[0] & 31 not in (9, 12)).replace(b"\0", b"")

@family("video-viewer", quick=24, thorough=600, loop="real")
async def video_viewer(ctx):
  """Each open page is sent the video from when it was opened, complete and in order."""
  import av
  rng = ctx.rng
  pk = await video()
  ui = await UI.open(ctx, VideoViewerTask, VideoViewerConfig(in_topic=5, width=64, height=48, rate=30, pixel_format="yuv420p"), ins=[5], kinds=("queue", "rawqueue", "v-zero", "y-zero"), task_kinds=("queue", "v-zero", "y-zero"))
  await settle(0.3)
  r = await ui.call("GET", "/index.html")
  ctx.check(r.status == 200 and b"mpegts" in r.body, "index", lambda: r)
  pages, n = [], 0
  async def feed(k):
    nonlocal n
    for _ in range(k):
      if n >= len(pk): break
      if rng.random() < 0.1:
        await ui.outs[5].send(RawData(rng.choice(({}, {"timestamp": 4}, {"timestamp": 1, "packet": 5})))); ctx.count("malformed")
      await ui.outs[5].send(RawData(MediaMessage(timestamp=n * 33, packet=pk[n]).model_dump()))
      n += 1
      ctx.count("packets")
      if rng.random() < 0.3: await asyncio.sleep(0.003)
  if rng.random() < 0.3: await feed(rng.randint(1, 20)); await settle(0.3)
  for _ in range(rng.randint(1, 3)):
    ws = http.WS(ui.app, "/video")
    try: await asyncio.wait_for(ws.accepted.wait(), 30)
    except TimeoutError: ctx.fail("page-refused", repr(ws.error))
    await settle(0.4)
    ws.start = n
    pages.append(ws); ctx.count("pages")
    await feed(rng.choice((5, 20, 40)))
    if len(pages) > 1 and rng.random() < 0.3:
      w = rng.choice(pages[:-1]); w.disconnect(); ctx.count("closed_pages")
      if getattr(w, "end", None) is None: w.end = n
  await feed(90)
  last = [None]
  for _ in range(200):
    await asyncio.sleep(0.05)
    size = [len(w.out) for w in pages]
    if size == last[0]: last.append(0)
    else: last = [size]
    if len(last) > 8: break
  ui.alive()
  for k, ws in enumerate(pages):
    data = b"".join(bytes(o) for o in ws.out)
    left = getattr(ws, "end", None)
    ctx.check(left is not None or not ws.closed.is_set(), "page-closed", lambda: repr(ws.error))
    got = []
    if data:
      try:
        with av.open(io.BytesIO(data), format="mpegts") as c:
          for p in c.demux(video=0):
            if p.size: got.append(nals(bytes(p)))
      except av.AVError as e: ctx.check(len(data) < 2000, "not-a-video", lambda: (len(data), repr(e)))
    every = [nals(p.data) for p in pk[:n]]
    lo = len(got)
    if left is not None and got: got.pop() # cut off in the middle
    # packets under way when the page was opened may be shown as well
    at = min(every.index(got[0]), ws.start) if got and got[0] in every else ws.start
    want = every[at:]
    ctx.check(got == want[:len(got)], "video-differs", lambda: {"page": k, "start": ws.start, "got": len(got), "want": len(want), "first": next((i for i, (a, b) in enumerate(zip(got, want)) if a != b), None), "sizes": ([len(x) for x in got[:5]], [len(x) for x in want[:5]])})
    ctx.count("packets_shown", lo)
    if left is None: ctx.check(len(want) - len(got) <= HELD, "video-is-held-back", lambda: {"page": k, "got": len(got), "want": len(want)})
  ctx.sigadd(len(pages), n)
  ctx.nontrivial = True
HELD = 30
