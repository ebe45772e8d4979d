"""C31: time buffer, replay buffer, repeater, timestamp updater, synchronizer, pulse generator and named topics, in virtual time."""
import asyncio, copy, math, os
from streamtasks.net.messages import TopicControlData
from streamtasks.net.serialization import RawData
from streamtasks.services.constants import NetworkAddressNames
from streamtasks.client.discovery import wait_for_address_name
from streamtasks.system.named_topic_manager import NamedTopicManager
from streamtasks.system.tasks.timebuffer import TimeBufferConfig, TimeBufferTask
from streamtasks.system.tasks.replaybuffer import ReplayBufferConfig, ReplayBufferTask
from streamtasks.system.tasks.repeater import RepeaterConfig, RepeaterTask
from streamtasks.system.tasks.timestampupdater import TimestampUpdaterConfig, TimestampUpdaterTask
from streamtasks.system.tasks.synchronizer import SynchronizerConfig, SynchronizerTask
from streamtasks.system.tasks.pulsegenerator import PulseGeneratorConfig, PulseGeneratorTask
from streamtasks.system.tasks.namedinput import NamedInputConfig, NamedInputTask
from streamtasks.system.tasks.namedoutput import NamedOutputConfig, NamedOutputTask
from vlib.core import family
from vlib.disco import with_discovery
from vlib.net import KINDS, make_pair, settle
from vlib.rig import Recorder, Rig
from vlib.taskmodel import OUT, finish, merged
from vlib.values import canon

UNTIMED = (5, "x", [1, 2], {}, {"time": 5}, {"timestamp": "x"}, {"timestamp": None}, {"timestamp": math.nan}, {"timestamp": 1e300}, {"timestamp": [1]}, True, 0.5, {1: 2}, [], {"timestamp": {}})
TIMED_EXTRA = ({}, {"value": 1.5}, {"value": "text"}, {"data": b"\x00" * 2000}, {"nested": {"a": [1, {"b": b"x"}]}}, {"value": None, "x": [[], {}]})

def timed(rng, ts, n): return {"timestamp": ts, "n": n, **copy.deepcopy(rng.choice(TIMED_EXTRA))}
def untimed(rng): return copy.deepcopy(rng.choice(UNTIMED))
def ts_of(v):
  t = v.get("timestamp") if isinstance(v, dict) else None
  if type(t) is float and math.isfinite(t): t = int(t)
  return t if type(t) is int and -2**63 <= t < 2**64 else None
def wall(ctx): return ctx.loop.wall() * 1000

# ---------------------------------------------------------------- time buffer
@family("buffer-clock", quick=250, thorough=10000)
async def buffer_clock(ctx):
  """Every message leaves once, in order, when it is `size` old (at once if it has no time), however late or early it came."""
  rng = ctx.rng
  size = rng.choice((1, 50, 1000, 5000))
  cfg = TimeBufferConfig(time_reference="clock", size=size, in_topic=1, out_topic=OUT)
  rig = Rig(ctx)
  await rig.start(lambda c: TimeBufferTask(c, cfg), [1], [OUT])
  sent, due, paused = [], [], False
  n = rng.randint(10, 60)
  for i in range(n):
    k = rng.random()
    if k < 0.12:
      paused = rng.random() < 0.6
      await rig.pause(1, paused)
      ctx.op(("pause", paused))
    else:
      now = wall(ctx)
      v = untimed(rng) if k < 0.25 else timed(rng, int(now) + rng.choice((0, 0, 0, -size // 2, -size * 3, rng.randrange(-size, size + 1))), i)
      if rng.random() < 0.05 and isinstance(v, dict) and ts_of(v): v["timestamp"] = float(v["timestamp"]) + 0.5
      ctx.op((now, v))
      sent.append(v)
      t = ts_of(v)
      due.append(max(due[-1] if due else 0, now, t + size if t is not None else 0))
      await rig.data(1, v)
    if rng.random() < 0.6: await rig.settle(rng.choice((0.001, 0.01, size / 1000 * rng.random(), size / 1000, size / 400)))
    rig.alive()
  await rig.settle(size / 1000 * 2 + 5)
  out = [(ctx.loop.epoch * 1000 + t * 1000, v) for t, v in rig.out(OUT)]
  ctx.check([canon(v) for _, v in out] == [canon(v) for v in sent], "messages", lambda: (len(out), len(sent), [v for _, v in out][:4], sent[:4]))
  for (t, v), d in zip(out, due):
    ctx.check(t >= d - 3, "too-early", lambda: (t - d, v))
    ctx.check(t <= d + 400, "too-late", lambda: (t - d, v))
  ctx.count("buffered", len(sent))
  ctx.eq(rig.out_paused(OUT), paused, "output-pause", "everything has left")
  await finish(ctx, rig, size)

@family("buffer-stop", quick=60, thorough=1500)
async def buffer_stop(ctx):
  """A stopped buffer does not let its messages go early."""
  rng = ctx.rng
  ref = rng.choice(("clock", "clock", "message"))
  cfg = TimeBufferConfig(time_reference=ref, size=60000, in_topic=1, out_topic=OUT)
  rig = Rig(ctx)
  await rig.start(lambda c: TimeBufferTask(c, cfg), [1], [OUT])
  for i in range(rng.randint(1, 5)): await rig.data(1, timed(rng, int(wall(ctx)), i))
  await rig.settle(rng.choice((0.01, 1, 30)))
  await rig.finish()
  await rig.settle(1)
  ctx.check(not rig.out(OUT), "too-early", lambda: rig.out(OUT))
  ctx.count("buffered")
  ctx.sigadd(ref, len(rig.sent))
  ctx.nontrivial = True

@family("buffer-message", quick=250, thorough=10000)
async def buffer_message(ctx):
  """A message leaves once the newest message is `size` younger, or when the input pauses; never reordered, lost or doubled."""
  rng = ctx.rng
  size = rng.choice((1, 50, 1000))
  cfg = TimeBufferConfig(time_reference="message", size=size, in_topic=1, out_topic=OUT)
  rig = Rig(ctx)
  await rig.start(lambda c: TimeBufferTask(c, cfg), [1], [OUT])
  ts, sent, ever_paused, paused, pauses = rng.choice((0, 10**12)), [], False, False, rng.random() < 0.5
  arrivals = []
  for i in range(rng.randint(10, 60)):
    k = rng.random()
    if k < 0.12 and pauses:
      paused = rng.random() < 0.6
      ever_paused |= paused
      await rig.pause(1, paused)
    else:
      ts += rng.choice((0, 1, size // 3, size, size * 2, -size // 4))
      v = untimed(rng) if k < 0.22 else timed(rng, ts, i)
      sent.append(v)
      arrivals.append(ctx.loop.time())
      await rig.data(1, v)
    ctx.op((size, sent[-1:], paused))
    if rng.random() < 0.4:
      await rig.settle(rng.choice((0, 0.001, 0.004, 0.5)))
  await rig.settle(1)
  rig.alive()
  last_input_ts = ts
  out = [v for _, v in rig.out(OUT)]
  ctx.check([canon(v) for v in out] == [canon(v) for v in sent[:len(out)]], "messages", lambda: (len(out), out[-2:], sent[:len(out)][-2:]))
  left = sent[len(out):]
  ctx.count("buffered", len(sent)); ctx.count("held", len(left))
  if left:
    first, newest = ts_of(left[0]), ts_of(sent[-1])
    # what is due has left
    if first is not None and newest is not None: ctx.check(newest - first < size, "overdue", lambda: (size, left[0], sent[-1]))
    elif first is None: ctx.check(len(left) == 1, "overdue", lambda: left)
  if not ever_paused:
    # nothing has left without a younger message (untimed ones may go once another follows)
    for i, (t, v) in enumerate(rig.out(OUT)):
      if ts_of(v) is None: continue
      seen = [ts_of(m) for m, a in zip(sent, arrivals) if a <= t and ts_of(m) is not None]
      ctx.check(max(seen) - ts_of(v) >= size, "too-early", lambda: (size, v, max(seen)))
  ctx.eq(rig.out_paused(OUT), paused and not left, "output-pause", "at the end")
  await finish(ctx, rig, size)
  ctx.nontrivial = True

# ---------------------------------------------------------------- replay buffer
@family("replay", quick=300, thorough=10000, cpu_limit=6)
async def replay(ctx):
  """Recordings play completely, in order, with their spacing, as often as asked and no longer than asked."""
  rng = ctx.rng
  loop_mode = rng.random() < 0.4
  cfg = ReplayBufferConfig(loop=loop_mode, in_topic=1, play_topic=2, out_topic=OUT)
  ctx.op(("loop", loop_mode))
  rig = Rig(ctx)
  await rig.start(lambda c: ReplayBufferTask(c, cfg), [1, 2], [OUT])
  off = rng.choice((0, -10**12, 12345))      # the play signal's clock
  sig = lambda: int(wall(ctx)) + off
  buf, n, playing = [], [0], False
  def record():
    # time stands still, goes on or (rarely) back in a recording
    last = next((ts_of(v) for v in reversed(buf) if ts_of(v) is not None), 5 * 10**11)
    n[0] += 1
    return untimed(rng) if rng.random() < 0.15 else timed(rng, last + rng.choice((0, 1, 20, 100, 500, 500, -3)), n[0])
  for _ in range(rng.choice((1, 1, 2, 6))):
    v = record(); buf.append(v); await rig.data(1, v)
  await rig.settle(0.3)
  for _ in range(rng.randint(2, 4)):
    ctx.check(not rig.out(OUT) or not playing, "playing-without-play", lambda: rig.out(OUT))
    pos = len(rig.log)
    t0, w0 = ctx.loop.time(), sig()
    await rig.data(2, {"timestamp": w0, "value": rng.choice((1, 0.6, 5.0))})
    before, late = len(buf), []
    span = max([ts_of(v) for v in buf if ts_of(v) is not None], default=0) - next((ts_of(v) for v in buf if ts_of(v) is not None), 0)
    dur = rng.choice((0.05, span / 1000 * rng.random(), span / 1000 + 1, span / 1000 * 2 + 1))
    end = ctx.loop.time() + min(dur, 20 if span > 100 or not loop_mode else 0.5)
    while ctx.loop.time() < end:
      await rig.settle(min(rng.choice((0.1, 0.5, 2)), max(0.001, end - ctx.loop.time())))
      k = rng.random()
      if k < 0.15 and not loop_mode: v = record(); late.append(v); buf.append(v); await rig.data(1, v)
      elif k < 0.3: await rig.data(2, rng.choice(({"timestamp": sig(), "value": 1}, {"timestamp": sig(), "value": "x"}, {}, 5, {"value": 0}, {"timestamp": "x", "value": 0})))
      elif k < 0.35: await rig.pause(2, rng.random() < 0.5)
    rig.alive()
    await rig.settle(0.05)
    got = [(t, m) for t, _, k, m in rig.log[pos:] if k == "data"]
    ended = rig.out_paused(OUT)
    ctx.count("plays")
    judge(ctx, loop_mode, buf, before, got, ended, t0, w0)
    how = rng.random()
    if how < 0.7:
      await rig.data(2, {"timestamp": sig(), "value": rng.choice((0, 0.5, -1))})
      stop = "signal"
    else:
      # a source that paused and goes on starts a new recording
      await rig.pause(1, True); await rig.settle(0.1); await rig.pause(1, False)
      stop = "restart"
      buf = []
    await rig.settle(0.1)
    pos = len(rig.log)
    await rig.settle(rng.choice((0.5, 3)))
    late_out = [m for _, _, k, m in rig.log[pos:] if k == "data"]
    ctx.check(not late_out, "plays-on", lambda: (stop, late_out[:3]))
    if stop == "signal": ctx.eq(rig.out_paused(OUT), True, "output-pause", "after stop")
    else:
      await rig.data(2, {"timestamp": sig(), "value": 0}); await rig.settle(0.2)
    ctx.count("stops")
    for _ in range(rng.choice((0, 1, 3)) if buf else rng.choice((1, 3))):
      v = record(); buf.append(v); await rig.data(1, v)
    await rig.settle(0.2)
  await finish(ctx, rig, loop_mode)

def judge(ctx, loop_mode, buf, before, got, ended, t0, w0):
  """got: what one playback emitted, (time, message); buf: the recording, whose first `before` messages were there at its start."""
  i, passes, base, start = 0, 0, None, None
  TOL = 60
  for t, m in got:
    if i == len(buf):
      ctx.check(loop_mode, "more-than-recorded", lambda: (m, len(buf)))
      i, base, passes = 0, None, passes + 1
      ctx.count("loops")
    v = buf[i]
    tv = ts_of(v)
    if tv is None: ctx.check(canon(m) == canon(v), "replayed-message", lambda: (i, m, v))
    else:
      ctx.check(isinstance(m, dict) and canon({**m, "timestamp": 0}) == canon({**v, "timestamp": 0}), "replayed-message", lambda: (i, m, v))
      if base is None:
        base, start, first = m["timestamp"] - tv, t, tv
        if passes == 0: ctx.check(abs(m["timestamp"] - w0) <= TOL, "start-time", lambda: (m["timestamp"], w0))
      ctx.eq(m["timestamp"] - tv, base, "replayed-spacing", lambda: (i, m, v))
      ctx.check((t - start) * 1000 >= tv - first - TOL, "too-early", lambda: (i, t - start, tv - first))
    i += 1
  # nothing that was due is missing
  if not loop_mode:
    if ended: ctx.check(i >= before, "incomplete", lambda: (i, before, buf[i:i + 1]))
    if i < before:
      tv = ts_of(buf[i])
      # the time at which this one is to come: that of its own, or right after the one before
      due = start + (tv - first) / 1000 if tv is not None and base is not None else got[-1][0] if got else t0
      ctx.check(ctx.loop.time() <= due + 2 * TOL / 1000, "stuck", lambda: (i, buf[i], ctx.loop.time() - due))
  else: ctx.check(not ended, "loop-ended", lambda: (passes, i))

@family("replay-race", quick=200, thorough=8000, cpu_limit=6)
async def replay_race(ctx):
  """Play and stop signals, recordings and source restarts in quick succession: what counts in the end is the last signal."""
  rng = ctx.rng
  cfg = ReplayBufferConfig(loop=rng.random() < 0.7, in_topic=1, play_topic=2, out_topic=OUT)
  rig = Rig(ctx)
  await rig.start(lambda c: ReplayBufferTask(c, cfg), [1, 2], [OUT])
  buf, stamps = [], []
  async def record(v): buf.append(v["n"]); stamps.append(v["timestamp"]); await rig.data(1, v)
  for r in range(4):
    value = 0
    for i in range(rng.randint(3, 14)):
      k = rng.random()
      if k < 0.5: value = rng.choice((0, 1)); await rig.data(2, {"timestamp": int(wall(ctx)), "value": value})
      elif k < 0.9: await record({"timestamp": 1000 + 20 * (100 * r + i), "n": (r, i)})
      else: buf.clear(); stamps.clear(); await rig.pause(1, True); await rig.pause(1, False)
      if rng.random() < 0.4: await rig.settle(rng.choice((0, 0.001, 0.004, 0.02)))
    await record({"timestamp": 1000 + 20 * (100 * r + 50), "n": (r, "last")})
    await rig.data(2, {"timestamp": int(wall(ctx)), "value": 0}); 
    await rig.settle(0.3)
    pos = len(rig.log)
    await rig.settle(3)
    ctx.check(len(rig.log) == pos, "plays-on", lambda: rig.log[pos:][:3])
    ctx.eq(rig.out_paused(OUT), True, "output-pause", "after the last stop signal")
    # and one playback runs, not several
    await rig.data(2, {"timestamp": int(wall(ctx)), "value": 1})
    await rig.settle(0.01)
    await rig.data(2, {"timestamp": int(wall(ctx)), "value": 1})
    await rig.settle((stamps[-1] - stamps[0]) / 1000 + 0.8)
    got = [(t, m) for t, _, k, m in rig.log[pos:] if k == "data"]
    seq = [tuple(m["n"]) for _, m in got]
    one = list(buf)
    ctx.check(one[-1] in seq, "not-played", lambda: seq[:20])
    times = [m["timestamp"] for _, m in got]
    ctx.check(all(a <= b + 80 for a, b in zip(times, times[1:])), "interleaved", lambda: (seq[:30], times[:30]))
    ctx.check(all(x == one[i % len(one)] for i, x in enumerate(seq)), "interleaved", lambda: (one, seq[:40]))
    if not cfg.loop: ctx.check(seq == one, "played-twice", lambda: seq)
    ctx.count("plays"); ctx.count("stops")
    await rig.data(2, {"timestamp": int(wall(ctx)), "value": 0})
    await rig.settle(0.3)
  await finish(ctx, rig, cfg.loop)

# ---------------------------------------------------------------- repeater
@family("repeater", quick=250, thorough=10000)
async def repeater(ctx):
  rng = ctx.rng
  rate = rng.choice((1, 4, 10, 2.5, 50))
  cfg = RepeaterConfig(rate=rate, fail_closed=rng.random() < 0.5, in_topic=1, out_topic=OUT)
  ctx.op(cfg)
  rig = Rig(ctx)
  await rig.start(lambda c: RepeaterTask(c, cfg), [1], [OUT])
  LAG = 0.05
  events = [(ctx.loop.time(), None, False, None)]    # (time, repeated message, paused, offset)
  passed, cur, paused, off = [], None, False, None
  for i in range(rng.randint(5, 15)):
    k = rng.random()
    if k < 0.2: paused = rng.random() < 0.5; await rig.pause(1, paused)
    elif k < 0.4:
      v = untimed(rng)
      if cfg.fail_closed: cur = None
      else: passed.append(v)
      await rig.data(1, v)
    else:
      ts = rng.choice((int(wall(ctx)), 0, 10**12 + i))
      cur, off = timed(rng, ts, i), ts - wall(ctx)
      await rig.data(1, cur)
    events.append((ctx.loop.time(), cur, paused, off))
    ctx.op(events[-1])
    await rig.settle(rng.choice((0.01, 0.3, 1, 1, 3)))
    rig.alive()
  events.append((ctx.loop.time() + 100, None, paused, None))
  out = rig.out(OUT)
  rest = [canon(v) for v in passed]
  reps = []
  for t, v in out:
    if rest and canon(v) == rest[0]: rest.pop(0); continue
    reps.append((t, v))
    # one of the states that may have been current when this was sent
    cands = [e for e, nx in zip(events, events[1:]) if e[0] <= t and nx[0] >= t - LAG and e[1] is not None]
    ok = [e for e in cands if isinstance(v, dict) and canon({**e[1], "timestamp": 0}) == canon({**v, "timestamp": 0}) and not e[2] or (cands and len(cands) > 1 and isinstance(v, dict) and v.get("n") == e[1]["n"])]
    ctx.check(bool(ok), "repeated-message", lambda: (t, v, cands))
    ctx.check(any(abs(v["timestamp"] - (wall_at(ctx, t) + e[3])) <= 80 for e in cands), "timestamp", lambda: (v, [wall_at(ctx, t) + e[3] for e in cands]))
  ctx.check(not rest, "invalid-not-passed-on", lambda: rest[:2])
  # at its rate: in every stretch with a current message
  for (a, cur, p, _), (b, *_ ) in zip(events, events[1:]):
    b = min(b, ctx.loop.time())
    cnt = sum(1 for t, v in reps if a + LAG < t < b)
    dur = b - a - LAG
    if dur <= 0: continue
    if cur is None or p: ctx.check(cnt == 0, "repeats-without-message", lambda: (a, b, cnt))
    else:
      ctx.check(dur * rate - 1.01 - LAG * rate <= cnt <= dur * rate + 2.01 + LAG * rate, "rate", lambda: (a, b, cnt, dur * rate))
      ctx.count("repeats", cnt)
  ctx.eq(rig.out_paused(OUT), paused, "output-pause", "at the end")
  await finish(ctx, rig, rate)
  ctx.nontrivial = len(reps) > 0

def wall_at(ctx, t): return (ctx.loop.epoch + t) * 1000

# ---------------------------------------------------------------- timestamp updater
@family("updater", quick=200, thorough=8000)
async def updater(ctx):
  rng = ctx.rng
  ref, offset = rng.choice(("message", "clock")), rng.choice((0, 1, -5000, 10**6))
  cfg = TimestampUpdaterConfig(time_reference=ref, time_offset=offset, fail_closed=rng.random() < 0.5, in_topic=1, out_topic=OUT)
  ctx.op(cfg)
  rig = Rig(ctx)
  await rig.start(lambda c: TimestampUpdaterTask(c, cfg), [1], [OUT])
  want, paused = [], False
  for i in range(40):
    k = rng.random()
    if k < 0.1: paused = rng.random() < 0.5; await rig.pause(1, paused)
    else:
      v = untimed(rng) if k < 0.35 else timed(rng, rng.choice((0, -5, i, 10**12, 2**64 - 1, -2**63, 2.0**40 + 0.5)), i)
      w = wall(ctx)
      t = ts_of(v)
      new = None if ref == "message" and t is None else (t if ref == "message" else w) + offset
      if not isinstance(v, dict) or "timestamp" not in v: new = None
      if new is not None and not -2**63 <= new < 2**64: new = None # no message can carry it
      if new is None:
        if not cfg.fail_closed: want.append((v, None))
      else: want.append((v, new))
      await rig.data(1, v)
    if rng.random() < 0.4: await rig.settle(rng.choice((0.01, 0.3)))
    rig.alive()
  await rig.settle(1)
  rig.alive()
  got = [v for _, v in rig.out(OUT)]
  ctx.check(len(got) == len(want), "messages", lambda: (len(got), len(want), got[:3], want[:3]))
  for g, (v, new) in zip(got, want):
    ctx.count("updated")
    if new is None: ctx.check(canon(g) == canon(v), "message-changed", lambda: (g, v)); continue
    ctx.check(isinstance(g, dict) and list(g) == list(v) and canon({**g, "timestamp": 0}) == canon({**v, "timestamp": 0}), "message-changed", lambda: (g, v))
    ctx.check(g["timestamp"] == new if ref == "message" else abs(g["timestamp"] - new) <= 250, "timestamp", lambda: (g, new))
  ctx.eq(rig.out_paused(OUT), paused, "output-pause", "at the end")
  await finish(ctx, rig, ref, offset)

# ---------------------------------------------------------------- synchronizer
class PassModel:
  """One synchronized stream of several: all messages, in order."""
  out_paused = None
  def __init__(self, pairs): self.pairs = dict(pairs)
  def step(self, topic, kind, v): return [v] if kind == "data" else []

@family("synchronizer", quick=200, thorough=8000)
async def synchronizer(ctx):
  rng = ctx.rng
  n = rng.randint(1, 4)
  pairs = [(i + 1, OUT + 1 + i) for i in range(n)]
  cfg = SynchronizerConfig(topics=pairs)
  rig = Rig(ctx)
  await rig.start(lambda c: SynchronizerTask(c, cfg), [a for a, _ in pairs], [b for _, b in pairs])
  ts, sent, dropped = 1000, {a: [] for a, _ in pairs}, 0
  order = []
  for a, _ in pairs: await rig.data(a, {"timestamp": ts, "first": a}); sent[a].append({"timestamp": ts, "first": a}); await rig.settle(0.05)
  await rig.settle(0.5)
  for r in range(4):
    q = {a: [] for a, _ in pairs}
    for i in range(rng.randint(1, 20)):
      ts += rng.choice((1, 5, 50))
      a = rng.choice(list(q))
      q[a].append(timed(rng, ts, i))
      order.append((ts, a))
    ts += 10
    for a in q: q[a].append({"timestamp": ts, "end": a})
    want = {a: list(l) for a, l in q.items()}
    while any(q.values()):
      a = rng.choice([x for x in q if q[x]])
      if rng.random() < 0.1: await rig.data(a, untimed(rng)); ctx.count("untimed") # has no place in time: nowhere to be put
      await rig.data(a, q[a].pop(0))
      if rng.random() < 0.2: await rig.settle(rng.choice((0, 0.003, 0.1)))
    await rig.settle(0.5)
    for a in q: sent[a] += want[a]
    rig.alive()
    for a, b in pairs:
      got = [v for _, v in rig.out(b)]
      ctx.check([canon(v) for v in got] == [canon(v) for v in sent[a]], "messages", lambda: (a, len(got), len(sent[a]), got[-2:], sent[a][-2:]))
    ctx.count("rounds")
    if rng.random() < 0.5:
      a, b = rng.choice(pairs)
      for p in (True, False):
        await rig.pause(a, p); await rig.settle(0.3)
        ctx.eq(rig.out_paused(b), p, "output-pause", a)
      ts += 1
      for x, _ in pairs: sent[x].append({"timestamp": ts, "resume": x}); await rig.data(x, {"timestamp": ts, "resume": x})
      await rig.settle(0.3)
  # together: the streams advance in the order of time
  times = [v["timestamp"] for _, tp, k, v in rig.log if k == "data"]
  ctx.check(all(a <= b for a, b in zip(times, times[1:])), "order-of-time", lambda: times)
  await finish(ctx, rig, n)

# ---------------------------------------------------------------- early traffic
@family("early", quick=200, thorough=6000)
async def early(ctx):
  """Inputs that arrive while a task starts: it comes up, and works."""
  rng = ctx.rng
  name, make, good = rng.choice((
    ("repeater", lambda c: RepeaterTask(c, RepeaterConfig(rate=10, in_topic=1, out_topic=OUT)), lambda i: {"timestamp": i, "n": i}),
    ("buffer", lambda c: TimeBufferTask(c, TimeBufferConfig(size=1, in_topic=1, out_topic=OUT)), lambda i: {"timestamp": i, "n": i}),
    ("buffer-m", lambda c: TimeBufferTask(c, TimeBufferConfig(size=1, time_reference="message", in_topic=1, out_topic=OUT)), lambda i: {"timestamp": i * 10, "n": i}),
    ("updater", lambda c: TimestampUpdaterTask(c, TimestampUpdaterConfig(in_topic=1, out_topic=OUT)), lambda i: {"timestamp": i, "n": i})))
  rig = Rig(ctx)
  i, stop = 0, False
  async def traffic():
    nonlocal i
    while not stop:
      i += 1
      await rig.data(1, good(i))
      await asyncio.sleep(rng.choice((0, 0, 0.0005, 0.002)))
  gap = rng.choice((0, 0.001, 0.05))
  rig.before = lambda: asyncio.create_task(traffic())
  await rig.start(make, [1], [OUT], settle=0.3)
  stop = True
  await rig.settle(1)
  rig.alive()
  for _ in range(3): i += 1; await rig.data(1, good(i + 5)); await rig.settle(0.5)
  out = [v for _, v in rig.out(OUT)]
  last = i + 5 if name != "buffer-m" else i + 4
  ctx.check(any(v.get("n") == last for v in out), "no-output", lambda: (name, last, out[-3:]))
  ns = [v["n"] for v in out]
  ctx.check(all(a <= b for a, b in zip(ns, ns[1:])) and (name == "repeater" or len(set(ns)) == len(ns)), "order", lambda: ns)
  if name != "repeater":
    missing = set(range(ns[0], i - 2)) - set(ns)
    ctx.check(not missing, "lost", lambda: sorted(missing)[:5])
  ctx.count("early")
  await finish(ctx, rig, name)

# ---------------------------------------------------------------- pulses
@family("pulse", quick=60, thorough=1500)
async def pulse(ctx):
  rng = ctx.rng
  interval, kind = rng.choice((0.05, 0.5, 1, 7)), rng.choice(("id", "ts"))
  cfg = PulseGeneratorConfig(interval=interval, message_type=kind, out_topic=OUT)
  rig = Rig(ctx)
  await rig.start(lambda c: PulseGeneratorTask(c, cfg), [], [OUT])
  await rig.settle(interval * 20.5)
  rig.alive()
  out = rig.out(OUT)
  ctx.check(16 <= len(out) <= 22 + 0.2 / interval, "pulses", lambda: (len(out), interval))
  for (a, v), (b, w) in zip(out, out[1:]): ctx.check(abs(b - a - interval) <= 0.03, "interval", lambda: (b - a, interval))
  if kind == "ts":
    for t, v in out: ctx.check(set(v) == {"timestamp"} and abs(v["timestamp"] - wall_at(ctx, t)) < 50, "timestamp", lambda: (v, wall_at(ctx, t)))
  else:
    ctx.check(all(set(v) == {"id"} and isinstance(v["id"], str) and v["id"] for _, v in out) and len({v["id"] for _, v in out}) == len(out), "ids", lambda: out)
  ctx.count("pulses", len(out))
  await finish(ctx, rig, interval, kind)

# ---------------------------------------------------------------- named topics
@family("named", quick=60, thorough=1500)
async def named(ctx):
  """What enters named outputs leaves the named inputs of that name, unchanged and in order, pauses included."""
  rng = ctx.rng
  net = await with_discovery(ctx, KINDS, rng.randint(1, 3))
  os.environ["DATA_DIR"] = ctx.tmpdir()
  w = NamedTopicManager(register_endpoits=[])
  a, b, _, _ = await make_pair(rng, "queue")
  await net.switches[0].add_link(a); await w.switch.add_link(b)
  await settle(3)
  runs = [asyncio.create_task(w.run())]
  await settle(10)
  names = rng.sample(("a", "b c", "ä", "x" * 50), rng.randint(1, 3))
  src, dst = await net.add_client(), await net.add_client()
  src.client.start(); dst.client.start()
  inputs, outputs, tasks, writers = {}, {}, [], {}
  topic = iter(range(1000, 2000))
  for n in names:
    inputs[n] = next(topic)
    outputs[n] = [next(topic) for _ in range(rng.randint(1, 2))]
  await src.client.register_out_topics(list(inputs.values()))
  rec = Recorder(dst.client, [t for l in outputs.values() for t in l], ctx)
  await rec.start_recv()
  async def task(make):
    c = (await net.add_client()).client
    t = make(c)
    async def run():
      await t.setup()
      try: await t.run()
      finally: c._link.close()
    tasks.append(asyncio.create_task(run()))
    if isinstance(t, NamedOutputTask): writers[t.config.name] = tasks[-1]
    if rng.random() < 0.5: await settle(rng.choice((0.01, 1)))
  makes_out = {n: lambda c, n=n: NamedOutputTask(c, NamedOutputConfig(name=n, metadata={"x": 1}, in_topic=inputs[n])) for n in names}
  makes = list(makes_out.values())
  makes += [lambda c, n=n, o=o: NamedInputTask(c, NamedInputConfig(name=n, out_topic=o)) for n in names for o in outputs[n]]
  rng.shuffle(makes)
  for m in makes: await task(m)
  await settle(20)
  sent, paused = {n: [] for n in names}, {n: False for n in names}
  for i in range(40):
    n = rng.choice(names)
    if rng.random() < 0.15: paused[n] = rng.random() < 0.5; await src.client.send_stream_control(inputs[n], TopicControlData(paused=paused[n]))
    else:
      v = untimed(rng) if rng.random() < 0.2 else timed(rng, i, i)
      sent[n].append(v)
      await src.client.send_stream_data(inputs[n], RawData(copy.deepcopy(v)))
    if rng.random() < 0.3: await settle(rng.choice((0.01, 0.5)))
    if rng.random() < 0.06:   # the named output is stopped and another one takes over
      await settle(5)
      old = writers.pop(n)
      tasks.remove(old)
      old.cancel()
      await asyncio.wait([old], timeout=100)
      await settle(rng.choice((0, 0.01, 5)))
      inputs[n], paused[n] = next(topic), False
      await src.client.register_out_topics([inputs[n]])
      ctx.op("replaced", n)
      await task(makes_out[n])
      await settle(20)
      ctx.count("named_replaced")
  await settle(5)
  for t in tasks + runs:
    if t.done(): ctx.fail("task-ended", repr(t))
  for n in names:
    for o in outputs[n]:
      got = [v for _, tp, k, v in rec.log if k == "data" and tp == o]
      ctx.check([canon(v) for v in got] == [canon(v) for v in sent[n]], "messages", lambda: (n, len(got), len(sent[n])))
      p = [v for _, tp, k, v in rec.log if k == "paused" and tp == o]
      ctx.eq(p[-1] if p else False, paused[n], "output-pause", n)
      ctx.count("named")
  for t in tasks + runs: t.cancel()
  await asyncio.wait(tasks + runs, timeout=100)
  ctx.sigadd(len(names), len(makes), str(sent)[:200])
  ctx.nontrivial = any(sent.values())
