"""C32: audio through buffers, frames, chunkers, the sequencer, the mixer, the volume scaler and the volume meter."""
import asyncio, copy, math, struct
from fractions import Fraction
import numpy as np
from streamtasks.media.audio import AudioFrame, audio_buffer_to_samples, get_audio_bytes_per_time_sample, sample_format_to_dtype
from streamtasks.media.util import AudioChunker, AudioSequencer, AudioSmoother, PaddedAudioChunker
from streamtasks.media.video import VideoFrame, copy_av_video_frame, video_buffer_to_ndarray
from streamtasks.system.tasks.media.audiomixer import AudioMixerConfig, AudioMixerTask
from streamtasks.system.tasks.media.audiovolumemeter import AudioVolumeMeterConfig, AudioVolumeMeterTask
from streamtasks.system.tasks.media.audiovolumescaler import AudioVolumeScalerConfig, AudioVolumeScalerTask
from vlib.core import family
from vlib.rig import Rig
from vlib.taskmodel import OUT

CODES = {"dbl": "d", "flt": "f", "s16": "h", "s32": "i", "s64": "q", "u8": "B"}
RANGE = {"h": (-2**15, 2**15 - 1), "i": (-2**31, 2**31 - 1), "q": (-2**63, 2**63 - 1), "B": (0, 255)}
RATES = (8000, 11025, 16000, 22050, 32000, 44100, 48000)

def values(rng, code, n):
  if code in "df":
    return [rng.choice((0.0, 1.0, -1.0, 0.5)) if rng.random() < 0.1 else struct.unpack("f", struct.pack("f", rng.uniform(-1, 1)))[0] for _ in range(n)]
  lo, hi = RANGE[code]
  return [rng.choice((0, lo, hi)) if rng.random() < 0.1 else rng.randint(lo, hi) for _ in range(n)]
def pack(code, vals): return struct.pack(f"={len(vals)}{code}", *vals)
def unpack(code, data): return list(struct.unpack(f"={len(data) // struct.calcsize('=' + code)}{code}", data))

# ---------------------------------------------------------------- buffers and frames
@family("formats", quick=600, thorough=20000, loop="sync")
def formats(ctx):
  """Sample buffers, arrays and frames of every format hold the same numbers."""
  rng = ctx.rng
  base, planar, channels, n, rate = rng.choice(list(CODES)), rng.random() < 0.5, rng.choice((1, 1, 2, 2, 3, 4, 6, 8)), rng.choice((1, 2, 7, 100, 1000)), rng.choice(RATES)
  fmt, code = base + ("p" if planar else ""), CODES[base]
  vals = values(rng, code, n * channels)
  buf = pack(code, vals)
  if rng.random() < 0.5: buf = rng.choice((bytearray, memoryview))(buf)
  ctx.op(fmt, channels, n, rate)
  ctx.sigadd(fmt, channels, n)
  ctx.eq(get_audio_bytes_per_time_sample(fmt, channels), len(buf) // n, "bytes-per-sample", fmt)
  arr = audio_buffer_to_samples(buf, fmt, channels)
  ctx.eq(arr.shape, (channels, n) if planar else (n, channels), "shape", fmt)
  ctx.check(arr.reshape(-1).tolist() == vals, "sample-values", lambda: (fmt, arr.reshape(-1).tolist()[:4], vals[:4]))
  ctx.eq(np.dtype(sample_format_to_dtype(fmt)), arr.dtype, "dtype", fmt)
  ctx.count("formats")
  ctx.nontrivial = True
  if base == "s64" or (planar and channels == 8): return   # PyAV has no such frames
  frame = AudioFrame.from_buffer(buf, fmt, channels, rate)
  ctx.check(frame.to_bytes() == bytes(buf), "frame-bytes", fmt)
  f = frame.frame
  ctx.eq((f.samples, f.sample_rate, f.format.name, len(f.layout.channels)), (n, rate, fmt, channels), "frame", fmt)
  ctx.eq(frame.to_ndarray().reshape(-1).tolist(), vals, "frame-values", fmt)
  ctx.count("frames")

PACKED = {"gray": 1, "rgb8": 1, "bgr8": 1, "yuyv422": 2, "rgb24": 3, "bgr24": 3, "rgba": 4, "bgra": 4, "argb": 4, "abgr": 4}

@family("images", quick=300, thorough=8000, loop="sync")
def images(ctx):
  """Image buffers of every packed format become arrays and frames, and the same bytes again; a copied frame is the same frame."""
  rng = ctx.rng
  fmt = rng.choice(list(PACKED))
  w, h = (rng.choice((1, 2, 3, 16, 17, 31, 64, 100)) for _ in range(2))
  if fmt == "yuyv422": w, h = w + w % 2, h + h % 2
  buf = rng.randbytes(w * h * PACKED[fmt])
  given = rng.choice((bytes, bytearray, memoryview))(buf)
  arr = video_buffer_to_ndarray(given, w, h)
  ctx.eq(arr.shape, (h, w) if PACKED[fmt] == 1 else (h, w, PACKED[fmt]), "image-shape", fmt)
  ctx.check(arr.tobytes() == buf, "image-bytes", fmt)
  frame = VideoFrame.from_buffer(given, w, h, fmt)
  ctx.eq((frame.frame.width, frame.frame.height, frame.frame.format.name), (w, h, fmt), "image-frame", fmt)
  ctx.check(frame.to_bytes() == buf, "frame-bytes", lambda: (fmt, w, h))
  frame.set_ts(Fraction(rng.randrange(1000), 25), Fraction(1, 25))
  copied = copy_av_video_frame(frame.frame)
  ctx.check(VideoFrame(copied).to_bytes() == buf and (copied.pts, copied.dts, copied.time_base) == (frame.frame.pts, frame.frame.dts, frame.frame.time_base), "copied-frame", lambda: (fmt, w, h))
  copied.planes[0].update(bytes(copied.planes[0].buffer_size))
  ctx.check(frame.to_bytes() == buf, "copy-shares-memory", lambda: (fmt, w, h))
  if fmt in ("rgb24", "bgr24", "rgba", "bgra", "argb", "abgr"):
    other = rng.choice([f for f in ("rgb24", "bgr24", "rgba", "bgra", "argb", "abgr")])
    conv = frame.convert(pixel_format=other).to_ndarray()
    order = lambda f: ["rgba".index(c) for c in f.replace("24", "")]
    a, b = frame.to_ndarray(), conv
    for i, c in enumerate(order(other)):
      if c in order(fmt): ctx.check((b[:, :, i] == a[:, :, order(fmt).index(c)]).all() if not (c == 3) else True, "converted-channel", lambda: (fmt, other, c))
  ctx.count("images")
  ctx.sigadd(fmt, w, h)
  ctx.nontrivial = True

# ---------------------------------------------------------------- chunkers
@family("chunks", quick=500, thorough=15000, loop="sync")
def chunks(ctx):
  """Chunks are consecutive pieces of the stream, given out as soon as they are full, each with the time its first sample has."""
  rng = ctx.rng
  padded = rng.random() < 0.5
  rate, size = rng.choice(RATES), rng.choice((1, 3, 100, 320, 441, 1000, 4096))
  pad = rng.choice((0, 1, 10, 64, 500)) if padded else 0
  ch = PaddedAudioChunker(size, rate, pad) if padded else AudioChunker(size, rate)
  t0 = rng.choice((0, 1000, 10**12))
  dtype = rng.choice((np.int16, np.float32, np.int32))
  grid = rng.random() < 0.3
  total, stream, got = 0, [], 0
  ctx.op(padded, rate, size, pad)
  for _ in range(rng.randint(1, 30)):
    n = rng.choice((size, size * 2, size * rng.randint(1, 40), rng.randrange(1, size * 3 + 5), 1, rng.randrange(1, 2000)))
    if grid: n = size
    data = (np.arange(total, total + n) % 30011).astype(dtype)
    ts = t0 + total * 1000 // rate
    if rng.random() < 0.3: data = data.reshape((-1, 1))
    total += n
    ctx.op(n, ts)
    for chunk, t in ch.next(data, ts):
      first = got * size
      ctx.eq(chunk.size, size + 2 * pad, "chunk-size", got)
      ctx.check(chunk.tolist() == (np.arange(first, first + size + 2 * pad) % 30011).astype(dtype).tolist(), "chunk-content", lambda: (got, chunk[:4]))
      if padded: ctx.eq(ch.strip_padding(chunk).tolist(), (np.arange(first + pad, first + pad + size) % 30011).astype(dtype).tolist(), "chunk-strip", got)
      want = t0 + Fraction((first + pad) * 1000, rate)
      ctx.check(abs(t - want) <= 2.001, "chunk-time", lambda: (got, t, float(want)))
      got += 1
      ctx.count("chunks")
    ctx.eq(got, max(0, (total - 2 * pad) // size), "chunks-given-out", (total, size, pad))
  ctx.sigadd(padded, rate, size, pad, total)
  ctx.nontrivial = got > 0

@family("smooth", quick=150, thorough=4000, loop="sync")
def smooth(ctx):
  """Overlapping pieces of one signal come out of the smoother as they were; different ones fade into each other."""
  rng = ctx.rng
  over = rng.choice((2, 10, 128, 1000))
  n = over * rng.randint(2, 5) + rng.randrange(0, 5)
  sm = AudioSmoother(over)
  same = rng.random() < 0.5
  sig = np.random.default_rng(rng.randrange(2**32)).uniform(-1, 1, size=n * 12)
  prev, pos = None, 0
  for i in range(rng.randint(2, 10)):
    raw = sig[pos:pos + n].copy() if same else np.random.default_rng(rng.randrange(2**32)).uniform(-1, 1, size=n)
    out = sm.smooth(raw.copy())
    ctx.eq(out.size, n, "smooth-size", i)
    ctx.check(np.allclose(out[over:], raw[over:]), "smooth-tail", i)
    if prev is None: ctx.check(np.allclose(out, raw), "smooth-first", i)
    else:
      k = np.linspace(0, 1, over)
      ctx.check(np.allclose(out[:over], raw[:over] * k + prev[-over:] * (1 - k)), "smooth-overlap", i)
      if same: ctx.check(np.allclose(out, raw), "smooth-identity", i)
    prev = raw
    pos += n - over
    ctx.count("smoothed")
  ctx.sigadd(over, n, same, i)
  ctx.nontrivial = True

# ---------------------------------------------------------------- sequencer
@family("sequencer", quick=500, thorough=15000, loop="sync")
def sequencer(ctx):
  """Every sample is played once, in order and at its time; silence where there is none; only what overlaps something earlier or comes late is left out."""
  rng = ctx.rng
  rate, channels, keep = rng.choice(RATES), rng.choice((1, 2)), rng.choice((0, 0, 0, 50))
  stretch = rng.choice((1, 1, 1, 1.05))
  jitter = rng.choice(("none", "ms", "gaps", "overlap", "wild"))
  if stretch > 1: jitter = "none" if rng.random() < 0.3 else "ms"
  seq = AudioSequencer(rate, stretch, keep)
  dtype = rng.choice((np.int32, np.float64))
  t = Fraction(rng.choice((0, 5000, 10**12)), 1000)
  ideal, horizon = {}, None         # tag -> time, end of everything inserted
  must = {}
  tag, out, t_pop, pops = 1, [], None, 0
  ctx.op(rate, channels, keep, stretch, jitter)
  tol = Fraction(16, 10) / rate if stretch == 1 else Fraction(60, 1000)
  dropped = 0
  def pop(n):
    nonlocal t_pop, pops
    a = seq.pop_start(t_pop, n)
    ctx.eq(a.shape, (n, channels), "pop-shape", n)
    if channels == 2: ctx.check((a[:, 0] == -a[:, 1]).all(), "channels-mixed", n)
    out.extend((t_pop + Fraction(i, rate), v) for i, v in enumerate(a[:, 0].tolist()))
    t_pop += Fraction(n, rate)
    pops += 1
    ctx.count("pops")
  for _ in range(rng.randint(3, 25)):
    n = rng.choice((1, 10, 100, 441, 1024, rng.randrange(1, 3000)))
    if stretch > 1: n = rng.randrange(1024, 4000)
    when = t
    if jitter == "ms": when = Fraction(round(t * 1000), 1000)
    elif jitter == "gaps" and rng.random() < 0.4: when = t + Fraction(rng.choice((1, 7, 100, 400)), 1000)
    elif jitter == "overlap" and rng.random() < 0.4: when = t - Fraction(rng.choice((1, 7, 100, 400)), 1000)
    elif jitter == "wild": when = t + Fraction(rng.randrange(-300, 300), 1000)
    tags = np.arange(tag, tag + n)
    arr = np.stack([tags, -tags][:channels], axis=1).astype(dtype)
    for i, g in enumerate(tags.tolist()):
      at = when + Fraction(i, rate)
      ideal[g] = at
      if (horizon is None or at >= horizon + 3 * Fraction(1, rate)) and (t_pop is None or at >= t_pop + 3 * Fraction(1, rate)): must[g] = at
    tag += n
    end = when + Fraction(n, rate)
    horizon = end if horizon is None else max(horizon, end)
    before = arr.copy()
    seq.insert(when, arr)
    ctx.check((arr == before).all(), "input-modified", n)
    ctx.count("inserts")
    ctx.op(float(when), n)
    if t_pop is None: t_pop = seq.start_time
    t = end if jitter != "overlap" else max(end, horizon)
    if jitter == "wild": t = max(end, when) if rng.random() < 0.7 else horizon
    ctx.check(abs(seq.end_time - max(horizon, seq.start_time)) <= tol if jitter in ("none", "ms", "gaps") and pops == 0 else True, "end-time", lambda: (float(seq.end_time), float(horizon)))
    if rng.random() < 0.6:
      m = seq.get_max_samples(t_pop)
      ctx.check(m <= max(0, int((horizon - t_pop) * rate) + 3 - keep) if stretch == 1 else True, "max-samples", lambda: (m, float((horizon - t_pop) * rate), keep))
      k = rng.choice((m, m, m // 2, rng.randrange(0, m + 1)))
      if k > 0: pop(k)
    elif rng.random() < 0.05: pop(rng.choice((1, 50, 2000)))
  if t_pop < horizon: pop(int((horizon - t_pop) * rate) + 8)
  last, seen = 0, set()
  if stretch == 1:
    for at, v in out:
      if v == 0: continue
      ctx.check(v in ideal, "unknown-sample", v)
      ctx.check(v > last, "sample-order", lambda: (v, last))
      ctx.check(abs(at - ideal[v]) <= tol, "sample-time", lambda: (v, float((at - ideal[v]) * rate), "samples off"))
      last = v
      seen.add(v)
    late = [v for v in must if v not in seen]
    if late: ctx.fail("sample-lost", (len(late), late[:3], float(must[late[0]]), len(must)))
    dropped = len(ideal) - len(seen)
    ctx.count("samples", len(seen)); ctx.count("overlapping", dropped)
  else:
    nz = [(at, v) for at, v in out if v != 0]
    for (a, v), (b, w) in zip(nz, nz[1:]): ctx.check(w >= v - 1e-6, "sample-order", lambda: (v, w))
    for at, v in nz[::17]:
      g = min(max(1, round(v)), tag - 1)
      ctx.check(abs(at - ideal[g]) <= tol, "sample-time", lambda: (v, float(at - ideal[g])))
    ctx.count("stretched", len(nz))
  ctx.sigadd(rate, jitter, keep, tag, pops)
  ctx.nontrivial = pops > 0 and tag > 10

# ---------------------------------------------------------------- mixer
MALFORMED = ({}, {"timestamp": 5}, {"timestamp": "x", "data": b"\x00" * 8}, {"timestamp": 5, "data": None}, 7, "text", [1], {"data": b"1234"})

class MixModel:
  """The mixer, on exact sample positions."""
  def __init__(self, tracks, keep, spms): self.start, self.buf, self.paused, self.keep, self.spms = [None] * tracks, [[] for _ in range(tracks)], [False] * tracks, keep, spms
  def pause(self, i, v):
    if self.paused[i] and not v: self.start[i], self.buf[i] = None, []
    self.paused[i] = v
  def data(self, i, ms, frames):
    pos = ms * self.spms
    if self.start[i] is None: self.start[i], self.buf[i] = pos, list(frames)
    else:
      end = self.start[i] + len(self.buf[i])
      if pos >= end: self.buf[i] += [0] * (pos - end) + list(frames)
      else: self.buf[i] += frames[end - pos:]
    live = [k for k in range(len(self.buf)) if not self.paused[k]]
    if not live or any(self.start[k] is None for k in live): return None
    at = min(self.start[k] for k in live)
    n = min(max(0, len(self.buf[k]) - (at - self.start[k]) - self.keep) for k in live)
    if n <= 0: return None
    res = [0] * n
    for k in range(len(self.buf)):
      if self.start[k] is None: continue
      off = at - self.start[k]
      stop = max(0, min(n + off, len(self.buf[k])))
      first = min(max(0, off), len(self.buf[k]))
      part = [0] * min(max(0, -off), n) + self.buf[k][first:stop]
      for j, v in enumerate(part): res[j] += v
      self.start[k] += stop
      self.buf[k] = self.buf[k][stop:]
      if self.paused[k] and not self.buf[k]: self.start[k] = None
    return at, res

def mix_setup(ctx, sync):
  rng = ctx.rng
  tracks, rate, channels = rng.choice((1, 2, 2, 3, 4)), rng.choice((8000, 16000, 32000)), rng.choice((1, 2))
  base = rng.choice(("s16", "s32", "flt", "dbl", "s64"))
  keep_ms = rng.choice((0, 0, 0, 20))
  cfg = AudioMixerConfig(audio_tracks=[dict(in_topic=i + 1) for i in range(tracks)], sample_format=base, rate=rate, channels=channels, buffer_keep_size=keep_ms * rate // 1000, max_stretch_ratio=1, synchronized=sync, out_topic=OUT)
  return cfg, rate // 1000, CODES[base], keep_ms * rate // 1000

def tone(rng, n): return [rng.choice((0, 0, 1, -1, 100, -100, rng.randrange(-4000, 4000))) for _ in range(n)]

def chunk_of(code, channels, frames): return pack(code, [float(v * (c + 1)) if code in "df" else v * (c + 1) for v in frames for c in range(channels)])

def mixed_out(ctx, rig, code, channels):
  res = []
  for _, m in rig.out(OUT):
    vals = unpack(code, m["data"])
    ctx.eq(len(vals) % channels, 0, "whole-samples", len(vals))
    for c in range(1, channels): ctx.check(vals[c::channels] == [v * (c + 1) for v in vals[0::channels]], "channels-mixed", c)
    res.append((m["timestamp"], vals[0::channels]))
  return res

@family("mixer", quick=120, thorough=4000)
async def mixer(ctx):
  """Sums, sample for sample, whatever the arrival order; silence where a track has nothing; malformed messages change nothing."""
  rng = ctx.rng
  sync = rng.random() < 0.5
  cfg, spms, code, keep = mix_setup(ctx, sync)
  tracks = len(cfg.audio_tracks)
  rig = Rig(ctx)
  await rig.start(lambda c: AudioMixerTask(c, cfg), [t.in_topic for t in cfg.audio_tracks], [OUT])
  base = rng.choice((1, 1000, 10**12))
  msgs, content, ends = [], {}, []
  for t in range(tracks):
    ms, mine = base + rng.choice((0, 0, 5, 40)), []
    for _ in range(rng.randint(2, 8)):
      if rng.random() < 0.15: ms += rng.choice((1, 10, 60))
      d = rng.choice((1, 5, 20, 20))
      frames = tone(rng, d * spms)
      for j, v in enumerate(frames): content[(t, ms * spms + j)] = v
      mine.append((t, ms, frames))
      ms += d
    ends.append(ms * spms)
    msgs.append(mine)
  starts = [m[0][1] * spms for m in msgs]
  left = [list(m) for m in msgs]
  while any(left):
    t = rng.choice([i for i in range(tracks) if left[i]])
    k = rng.random()
    if k < 0.12:
      odd = rng.choice(MALFORMED) if k < 0.06 else {"timestamp": left[t][0][1], "data": chunk_of(code, cfg.channels, left[t][0][2]) + b"\x01"}
      ctx.count("malformed")
      await rig.data(t + 1, copy.deepcopy(odd))
      continue
    _, ms, frames = left[t].pop(0)
    ctx.op(t, ms, len(frames))
    await rig.data(t + 1, {"timestamp": ms, "data": chunk_of(code, cfg.channels, frames)})
    if rng.random() < 0.4: await rig.settle(rng.choice((0, 0.01, 0.3)))
  if sync:
    for t in range(tracks):   # the synchronizer hands out what is before everyone's latest
      await rig.data(t + 1, {"timestamp": max(ends) // spms + 1000, "data": b""})
      await rig.data(t + 1, {"timestamp": max(ends) // spms + 1001, "data": b""})
  await rig.settle(2)
  rig.alive()
  out = mixed_out(ctx, rig, code, cfg.channels)
  pos = min(starts)
  for ts, vals in out:
    ctx.eq(ts, round(Fraction(pos, spms)), "output-time", pos)
    want = [sum(content.get((t, pos + j), 0) for t in range(tracks)) for j in range(len(vals))]
    if vals != want: ctx.fail("mixed-samples", next((pos + j, vals[j], want[j], pos) for j in range(len(vals)) if vals[j] != want[j]))
    pos += len(vals)
    ctx.count("mixed", len(vals))
  if sync:  # the closing messages make silence; everything before is complete
    ctx.check(pos >= min(ends) - keep, "mixed-length", lambda: (pos, min(ends) - keep))
  else: ctx.eq(pos, max(min(starts), min(ends) - keep), "mixed-length", (starts, ends, keep))
  await rig.finish()
  ctx.sigadd(tracks, sync, code, len(out), pos)
  ctx.nontrivial = len(out) > 0

@family("mixer-pauses", quick=120, thorough=4000)
async def mixer_pauses(ctx):
  """Paused tracks hold nobody up, and play on only with what comes after they resume."""
  rng = ctx.rng
  cfg, spms, code, keep = mix_setup(ctx, False)
  tracks = len(cfg.audio_tracks)
  rig = Rig(ctx)
  await rig.start(lambda c: AudioMixerTask(c, cfg), [t.in_topic for t in cfg.audio_tracks], [OUT])
  model, want = MixModel(tracks, keep, spms), []
  ms = [rng.choice((1, 1000))] * tracks
  for _ in range(rng.randint(8, 40)):
    t = rng.randrange(tracks)
    if rng.random() < 0.2:
      v = rng.random() < 0.5
      await rig.pause(t + 1, v)
      if v != model.paused[t]: ctx.count("track_pauses")
      model.pause(t, v)
      if rng.random() < 0.5: ms[t] = max(ms)
      ctx.op("pause", t, v)
    else:
      k = rng.random()
      if k < 0.1: ms[t] += rng.choice((1, 10, 60))
      elif k < 0.15: ms[t] -= rng.choice((1, 5))
      d = rng.choice((1, 5, 20))
      frames = tone(rng, d * spms)
      await rig.data(t + 1, {"timestamp": max(0, ms[t]), "data": chunk_of(code, cfg.channels, frames)})
      r = model.data(t, max(0, ms[t]), frames)
      if r: want.append(r)
      ms[t] = max(0, ms[t]) + d
      ctx.op("data", t, ms[t], d)
    await rig.settle(0.3)
    rig.alive()
    got = mixed_out(ctx, rig, code, cfg.channels)
    ctx.check(len(got) == len(want), "mixed-messages", lambda: (len(got), len(want), [g[0] for g in got[-2:]], [(w[0] / spms, len(w[1])) for w in want[-2:]]))
    if want:
      (ts, vals), (at, res) = got[-1], want[-1]
      ctx.eq(ts, round(Fraction(at, spms)), "output-time", at)
      ctx.check(vals == res, "mixed-samples", lambda: (ts, len(vals), len(res), next(((j, a, b) for j, (a, b) in enumerate(zip(vals, res)) if a != b), None)))
    ctx.count("steps")
  await rig.finish()
  ctx.sigadd(tracks, code, len(want), sum(len(w[1]) for w in want))
  ctx.nontrivial = len(want) > 0

# ---------------------------------------------------------------- volume
async def until(ctx, cond, t=20):
  end = asyncio.get_running_loop().time() + t
  while not cond():
    if asyncio.get_running_loop().time() > end: return False
    await asyncio.sleep(0.005)
  return True

@family("scaler", quick=64, thorough=1500, loop="real")
async def scaler(ctx):
  """One message out per message in, same time, every sample scaled and limited to what the format holds."""
  rng = ctx.rng
  base, planar, channels = rng.choice(("s16", "s32", "s64", "flt", "dbl")), rng.random() < 0.3, rng.choice((1, 2))
  fmt, code = base + ("p" if planar else ""), CODES[base]
  default = rng.choice((1, 1, 0.5, 0, 3))
  sync = rng.random() < 0.5
  with_scale = not sync and rng.random() < 0.7
  cfg = AudioVolumeScalerConfig(sample_format=fmt, rate=8000, channels=channels, default_scale=default, synchronized=sync, in_topic=1, scale_topic=2 if with_scale else None, out_topic=OUT)
  rig = Rig(ctx, kind=rng.choice(("queue", "rawqueue", "v-zero", "y-zero")))
  await rig.start(lambda c: AudioVolumeScalerTask(c, cfg), [1, 2], [OUT], settle=0.1)
  scale, ts, want = float(default), 1000, []
  lo, hi = RANGE.get(code, (-1, 1))
  for _ in range(rng.randint(3, 15)):
    ts += rng.choice((1, 20))
    k = rng.random()
    if k < 0.15:
      bad = rng.choice(MALFORMED + ({"timestamp": ts, "data": b"\x01" * (channels * struct.calcsize("=" + code) + 1)},) * 6)
      ctx.count("malformed")
      await rig.data(1, copy.deepcopy(bad))
    elif k < 0.45 and with_scale:
      ctx.check(await until(ctx, lambda: len(rig.out(OUT)) >= len(want)), "scaled-missing", lambda: (len(rig.out(OUT)), len(want)))
      kind = rng.random()
      if kind < 0.7:
        scale = rng.choice((0.0, 0.25, 0.5, 1.0, 2.0, -1.0, 10.0, rng.uniform(0, 2)))
        await rig.data(2, {"timestamp": ts, "value": scale})
      elif kind < 0.85: scale = float(default); await rig.data(2, {"timestamp": ts, "value": "loud"})
      else: scale = float(default); await rig.pause(2, True); await rig.pause(2, False)
      await rig.settle(0.03)
      ctx.count("scales")
    else:
      vals = values(rng, code, rng.choice((1, 10, 300)) * channels)
      await rig.data(1, {"timestamp": ts, "data": pack(code, vals)})
      want.append((ts, vals, scale))
      ctx.op(ts, len(vals), scale)
  if sync: await rig.data(1, {"timestamp": ts + 1000, "data": pack(code, [0] * channels)})
  ctx.check(await until(ctx, lambda: len(rig.out(OUT)) >= len(want)), "scaled-missing", lambda: (len(rig.out(OUT)), len(want), fmt))
  rig.alive()
  for (_, m), (ts, vals, scale) in zip(rig.out(OUT), want):
    ctx.eq(m["timestamp"], ts, "scaled-time", ts)
    got = unpack(code, m["data"])
    ctx.eq(len(got), len(vals), "scaled-length", ts)
    for g, v in zip(got, vals):
      w = min(max(v * Fraction(scale), lo), hi)
      err = abs(g - w)
      ctx.check(err <= (1e-5 if code in "df" else max(1, abs(w) * Fraction(1, 2**52))) and (scale != 1 or code == "q" or g == v), "scaled-sample", lambda: (fmt, v, scale, g, float(w)))
      ctx.count("scaled")
  await rig.finish()
  ctx.sigadd(fmt, channels, scale, len(want), str(rig.out(OUT)[-1:])[:200])
  ctx.nontrivial = len(want) > 0

@family("meter", quick=48, thorough=1000, loop="real")
async def meter(ctx):
  """One volume per full time window: the root of the mean magnitude, relative to full scale, stamped with the window's start."""
  rng = ctx.rng
  base = rng.choice(("s16", "s32", "flt", "dbl"))
  code, rate, window = CODES[base], rng.choice((8000, 11025, 44100)), rng.choice((1, 10, 50, 100))
  cfg = AudioVolumeMeterConfig(sample_format=base, rate=rate, time_window=window, in_topic=1, out_topic=OUT)
  rig = Rig(ctx, kind=rng.choice(("queue", "rawqueue", "v-zero", "y-zero")))
  await rig.start(lambda c: AudioVolumeMeterTask(c, cfg), [1], [OUT], settle=0.1)
  size = rate * window // 1000
  t0, stream = rng.choice((0, 1000, 10**12)), []
  for _ in range(rng.randint(3, 15)):
    if rng.random() < 0.2:
      ctx.count("malformed")
      await rig.data(1, copy.deepcopy(rng.choice(MALFORMED + ({"timestamp": t0, "data": b"\x01" * (struct.calcsize("=" + code) + 1)},) * 6)))
      continue
    n = rng.choice((size, size * 2, rng.randrange(1, size * 3 + 2)))
    lo, hi = RANGE.get(code, (-1.0, 1.0))
    mode = rng.choice(("noise", "low", "high", "quiet"))
    vals = values(rng, code, n) if mode == "noise" else [lo] * n if mode == "low" else [hi] * n if mode == "high" else [type(lo)(1 / 3 if code in "df" else 17)] * n
    await rig.data(1, {"timestamp": t0 + len(stream) * 1000 // rate, "data": pack(code, vals)})
    stream += vals
    ctx.op(n, mode)
  want = []
  full = RANGE[code][1] if code in RANGE else 1
  for i in range(len(stream) // size):
    part = stream[i * size:(i + 1) * size]
    want.append((t0 + Fraction(i * size * 1000, rate), math.sqrt(sum(abs(v) for v in part) / full / size)))
  ctx.check(await until(ctx, lambda: len(rig.out(OUT)) >= len(want)), "volume-missing", lambda: (len(rig.out(OUT)), len(want)))
  await rig.settle(0.02)
  rig.alive()
  got = rig.out(OUT)
  ctx.eq(len(got), len(want), "volumes", (len(stream), size))
  for (_, m), (t, v) in zip(got, want):
    ctx.check(abs(m["timestamp"] - t) <= 2.001, "volume-time", lambda: (m, float(t)))
    ctx.check(math.isclose(m["value"], v, rel_tol=1e-4, abs_tol=1e-6), "volume", lambda: (m, v))
    ctx.count("volumes")
  await rig.finish()
  ctx.sigadd(base, rate, window, len(stream))
  ctx.nontrivial = len(want) > 0
