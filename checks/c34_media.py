"""C34: packets, reformatting, resampling, encoding and decoding, transcoding, containers and the tasks around them."""
import asyncio, copy, dataclasses, os
import uuid
from fractions import Fraction
import av
import numpy as np
from streamtasks.media.audio import AudioCodecInfo, AudioFrame, AudioResampler, AudioResamplerInfo, sample_format_to_dtype
from streamtasks.media.container import InputContainer, OutputContainer
from streamtasks.media.packet import MediaMessage, MediaPacket
from streamtasks.media.video import VideoCodecInfo, VideoFrame, VideoReformatter, VideoReformatterInfo
from streamtasks.net.serialization import RawData
from vlib.core import family

VRATES = (1, 2, 3, 7, 10, 12.5, 15, 23.976, 24000 / 1001, 24, 25, 29.97, 30000 / 1001, 30, 48, 50, 59.94, 60, 90, 120, 144)
ARATES = (8000, 11025, 16000, 22050, 32000, 44100, 48000)
def exact(rate): return Fraction(rate).limit_denominator(10**6)

# ---------------------------------------------------------------- packets
BASES = tuple(1 / exact(r) for r in VRATES) + tuple(Fraction(1, r) for r in ARATES) + (Fraction(1, 1000), Fraction(1, 90000), Fraction(1, 12800), Fraction(1, 11988), Fraction(1, 10**6))

@family("packets", quick=1500, thorough=60000, loop="sync")
def packets(ctx):
  """A packet keeps its data, kind and times in any time base, across messages and back."""
  rng = ctx.rng
  src, dst = rng.choice(BASES), rng.choice(BASES)
  ctx.op(src, dst)
  dts = rng.choice((0, 0, -2, -1, 1, 10**6, 10**11)) * rng.choice((1, 1, 3))
  last = None
  step = dst / src
  for _ in range(rng.randint(3, 12)):
    k = rng.choice((1, 1, 2)) * (step if step.denominator == 1 and rng.random() < 0.7 else rng.choice((1, 1, 400, 512, 3003)))
    dts += int(k)
    off = rng.choice((0, 0, 1, 2, 5)) * int(k)
    pts, key, data = dts + off, rng.random() < 0.3, rng.randbytes(rng.choice((1, 2, 100, 5000)))
    p = av.Packet(data)
    p.pts, p.dts, p.time_base, p.is_keyframe = pts, rng.choice((dts, dts, dts, None)), src, key
    known = p.dts is not None
    m = MediaPacket.from_av_packet(p, dst)
    for name, got, x in (("pts", m.pts, pts), ("dts", m.dts, dts if known else pts)):
      x = x * src / dst
      ctx.check(type(got) is int and abs(got - x) < 1 and (x.denominator != 1 or got == x), "packet-" + name, lambda: (got, x, pts, dts, known, src, dst))
    ctx.check(m.data == data and m.is_keyframe == key, "packet-data", lambda: (m.is_keyframe, key, len(m.data)))
    if known:
      ctx.check(last is None or m.dts >= last, "packet-order", lambda: (m.dts, last))
      last = m.dts
    msg = MediaMessage.model_validate(RawData(bytes(RawData(MediaMessage(timestamp=7, packet=m).model_dump()).serialize())).data)
    ctx.check(msg.packet == m and msg.timestamp == 7 and msg.packet.dts == m.dts, "packet-message", lambda: (msg.packet, m))
    b = msg.packet.to_av_packet(dst)
    ctx.check((bytes(b), b.pts, b.dts, b.time_base, b.is_keyframe) == (data, m.pts, m.dts, dst, key), "packet-back", lambda: (b.pts, b.dts, b.time_base, b.is_keyframe, m.pts, m.dts))
    ctx.check(MediaPacket.from_av_packet(b, dst) == m, "packet-round-trip", lambda: m)
    moved, to = dataclasses.replace(m), rng.randrange(-5, 1000)
    moved.dts = to
    ctx.check(moved.dts == to and moved.pts - moved.dts == m.pts - m.dts, "packet-move", lambda: (moved, m))
    ctx.count("packets")
  ctx.sigadd(src, dst, dts)
  ctx.nontrivial = True

# ---------------------------------------------------------------- frames
def noise(rng, n): return np.frombuffer(rng.randbytes(n), dtype=np.uint8)
def blank(w, h, fmt): return av.VideoFrame(w, h, fmt)
def fill(rng, w, h, fmt, value=None):
  """A frame of noise, or one value everywhere, and its bytes."""
  f = blank(w, h, fmt)
  for p in f.planes:
    p.update(rng.randbytes(p.buffer_size) if value is None else bytes([value]) * p.buffer_size)
  return f, f.to_ndarray().tobytes()
def other_lines(frame):
  """The same picture as a decoder gives it: lines padded differently."""
  fmt = frame.format.name
  e = VideoCodecInfo(frame.width, frame.height, 30, fmt, "rawvideo").get_encoder()
  frame.pts, frame.time_base = 0, Fraction(1, 30)
  d = av.codec.CodecContext.create("rawvideo", "r")
  d.width, d.height, d.pix_fmt = frame.width, frame.height, fmt
  return d.decode(av.Packet(e.encode_sync(VideoFrame(frame))[0].data))[0]

@family("reformat", quick=400, thorough=15000)
async def reformat(ctx):
  """Frames at one rate become frames at another: as many as the time that passed allows, in order, on time, of the wanted shape."""
  rng = ctx.rng
  fr, to = rng.choice(VRATES), rng.choice(VRATES)
  r = exact(to) / exact(fr)
  if r > 30: return
  slack = 0 if isinstance(fr, int) and isinstance(to, int) else Fraction(1, 10**6)
  w, h = rng.choice((2, 16, 32, 38, 64)), rng.choice((2, 4, 22, 48))
  fi = rng.choice(("rgb24", "bgr24", "rgba", "bgra", "yuv420p", "gray"))
  same = rng.random() < 0.6
  fo = fi if same else rng.choice(("rgb24", "bgr24", "gray"))
  ow, oh = (w, h) if rng.random() < 0.6 else (rng.choice((2, 10, 40)), rng.choice((2, 12, 30)))
  kept = fo == fi and (ow, oh) == (w, h)
  ref = VideoReformatter(VideoReformatterInfo(to, fo, ow, oh), VideoReformatterInfo(fr, fi, w, h))
  n = rng.choice((1, 5, 20, 60)) if r < 6 else rng.choice((1, 4, 10))
  irregular, padded = rng.random() < 0.3, rng.random() < 0.4
  start = rng.choice((0, 0, 0, 1, 7, 1000))
  tb = 1 / exact(fr)
  base = rng.choice((tb, tb, Fraction(1, 90000), None))
  if base is None or tb / base != int(tb / base): base = tb
  ctx.op(fr, to, w, h, fi, fo, ow, oh, n, irregular, padded, start)
  count, last, k_in, total = 0, None, start, Fraction(0)
  for k in range(n):
    if irregular: k_in += rng.choice((1, 1, 1, 2, 10, 0) if k else (0,))
    elif k: k_in += 1
    v = rng.randrange(256)
    f, raw = fill(rng, w, h, fi, None if kept else v)
    if padded: f = other_lines(f)
    t = k_in * tb
    f.time_base, f.pts, f.dts = base, int(t / base), int(t / base)
    out = await ref.reformat(VideoFrame(f))
    total += r
    count += len(out)
    ctx.check(abs(count - total) < 1 + slack, "frame-count", lambda: (k, count, float(total), fr, to))
    for i, o in enumerate(out):
      a = o.frame
      ctx.eq((a.width, a.height, a.format.name), (ow, oh, fo), "shape", k)
      ctx.eq(a.time_base, 1 / exact(to), "time-base", (fr, to))
      ctx.check(a.pts == a.dts and o.ptime == o.dtime == a.pts * a.time_base, "frame-time", lambda: (a.pts, a.dts))
      ctx.check(last is None or a.pts > last, "frame-order", lambda: (a.pts, last))
      if i == 0 and not (last is not None and a.pts == last + 1): ctx.check(abs(a.pts - t * exact(to)) <= 1 + slack, "frame-on-time", lambda: (k, a.pts, float(t * exact(to))))
      if i: ctx.eq(a.pts, last + 1, "frame-gap", k)
      if not irregular: ctx.check(abs(o.ptime - t) <= tb + a.time_base, "frame-drift", lambda: (k, float(o.ptime), float(t)))
      last = a.pts
      if kept: ctx.check(o.to_bytes() == raw, "frame-content", lambda: (k, i, fi, w, h, padded))
      elif fi != "yuv420p":
        px = np.frombuffer(o.to_bytes(), dtype=np.uint8).astype(int)
        ctx.check(abs(px - v).max() <= 2, "frame-colour", lambda: (fi, fo, v, px[:6]))
      ctx.count("reformatted")
    if len(out) > 1:
      if len({p.planes[0].buffer_ptr for p in (o.frame for o in out)}) != len(out): ctx.fail("shared-buffers", k)
      ctx.count("upsampled")
    if not out: ctx.count("downsampled")
  ctx.sigadd(fr, to, fi, fo, ow, oh, n, count)
  ctx.nontrivial = count > 0

def tone(rng, n, channels, rate):
  """Band-limited sound, (n, channels) in -0.6..0.6."""
  t = np.arange(n)[:, None] / rate
  out = np.zeros((n, channels))
  for _ in range(3): out += 0.2 * np.sin(2 * np.pi * rng.uniform(100, min(1800, rate / 6)) * t + np.array([rng.uniform(0, 6) for _ in range(channels)]))
  return out
def pack(samples, fmt):
  dt = np.dtype(sample_format_to_dtype(fmt))
  if dt.kind == "f": a = samples.astype(dt)
  elif dt == np.uint8: a = (np.round(samples * 127) + 128).astype(np.uint8)
  else: a = np.round(samples * np.iinfo(dt).max).astype(dt)
  return (a.T if fmt.endswith("p") else a).tobytes("C"), a
def unpack(data, fmt, channels):
  """(samples, channels) floats."""
  a = np.frombuffer(data, dtype=sample_format_to_dtype(fmt))
  a = a.reshape((channels, -1)).T if fmt.endswith("p") else a.reshape((-1, channels))
  if a.dtype.kind == "f": return a.astype(float)
  if a.dtype == np.uint8: return (a.astype(float) - 128) / 127
  return a / np.iinfo(a.dtype).max
def frames_of(samples, fmt, channels, rate, size, jitter=False):
  for i in range(0, len(samples), size):
    data, _ = pack(samples[i:i + size], fmt)
    f = AudioFrame.from_buffer(data, fmt, channels, rate)
    t = Fraction(i, rate)
    if jitter: t = Fraction(int(t * 1000), 1000)
    f.set_ts(t, Fraction(1, rate))
    yield f
def alike(a, b):
  """How much of a is explained by b."""
  n = min(len(a), len(b))
  if n < 200: return 1.0
  a, b = a[:n].reshape(-1), b[:n].reshape(-1)
  return float(np.dot(a, b) / np.sqrt(np.dot(a, a) * np.dot(b, b) + 1e-12))

@family("resample", quick=250, thorough=8000)
async def resample(ctx):
  """Sound in another format, rate or number of channels: as long, on time, the same signal."""
  rng = ctx.rng
  fi, fo = (rng.choice(("s16", "s16p", "flt", "fltp", "s32", "s32p", "dbl", "u8")) for _ in range(2))
  ri, ro = rng.choice(ARATES), rng.choice(ARATES)
  if rng.random() < 0.4: ro = ri
  ci = rng.choice((1, 2))
  co = ci if rng.random() < 0.7 else 3 - ci
  n, size = rng.choice((500, 4000, 20000)), rng.choice((160, 441, 1024, 777))
  jitter = rng.random() < 0.4
  known = rng.random() < 0.7
  ctx.op(fi, fo, ri, ro, ci, co, n, size, jitter)
  res = AudioResampler(AudioResamplerInfo(fo, co, ro), AudioResamplerInfo(fi, ci, ri) if known else None)
  src = tone(rng, n, ci, ri)
  if ci == 2 and co == 1: src[:, 1] = src[:, 0]
  parts, count, fed = [], 0, 0
  for f in frames_of(src, fi, ci, ri, size, jitter):
    fed += f.frame.samples
    for o in await res.reformat(f):
      a = o.frame
      ctx.eq((a.format.name, a.sample_rate, len(a.layout.channels)), (fo, ro, co), "resampled-shape", fi)
      ctx.check(a.pts == a.dts and o.ptime is not None and abs(o.ptime - Fraction(count, ro)) < Fraction(3, 1000), "resampled-time", lambda: (float(o.ptime), count / ro))
      parts.append(unpack(o.to_bytes(), fo, co))
      ctx.eq(len(parts[-1]), a.samples, "resampled-samples", fo)
      count += a.samples
      ctx.count("resampled")
    ctx.check(count <= fed * ro / ri + 2, "too-long", lambda: (count, fed * ro / ri))
    ctx.check(count >= fed * ro / ri - (0 if ri == ro else 40 + 40 * max(1, ro / ri)), "too-short", lambda: (count, fed * ro / ri))
  got = np.concatenate(parts) if parts else np.zeros((0, co))
  want = src if ci == co else (np.repeat(src, 2, axis=1) if co == 2 else src[:, :1])
  if ri == ro and ci == co:
    tol = 0.03 if "u8" in (fi, fo) else 1e-3
    ctx.check(len(got) == n and abs(got - want).max() < tol, "resampled-values", lambda: (fi, fo, abs(got - want[:len(got)]).max()))
    ctx.count("exact")
  elif len(got):
    at = np.arange(len(got)) * ri / ro
    ref = np.stack([np.interp(at, np.arange(n), want[:, c]) for c in range(co)], axis=1)
    cut = min(len(got), 300)
    ctx.check(len(got) - 2 * cut < 200 or alike(got[cut:-cut], ref[cut:-cut]) > 0.95, "resampled-signal", lambda: alike(got[cut:-cut], ref[cut:-cut]))
    ctx.count("signals")
  ctx.sigadd(fi, fo, ri, ro, ci, co, n, size)
  ctx.nontrivial = len(got) > 0

# ---------------------------------------------------------------- encoding and decoding
# encoder, decoder, pixel format, options, content survives exactly
VCODECS = [("ffv1", "ffv1", "yuv420p", {}, True), ("ffv1", "ffv1", "bgra", {}, True), ("rawvideo", "rawvideo", "yuv420p", {}, True), ("rawvideo", "rawvideo", "rgb24", {}, True), ("png", "png", "rgb24", {}, True),
  ("libx264", "h264", "yuv420p", {"qp": "0", "preset": "ultrafast"}, True), ("libvpx-vp9", "vp9", "yuv420p", {"lossless": "1"}, True),
  ("mpeg4", "mpeg4", "yuv420p", {}, False), ("mpeg4", "mpeg4", "yuv420p", {"bf": "2"}, False), ("mpeg4", "mpeg4", "yuv420p", {"bf": "1", "threads": "2"}, False), ("mpeg2video", "mpeg2video", "yuv420p", {"bf": "2"}, False),
  ("libx264", "h264", "yuv420p", {}, False), ("libx264", "h264", "yuv420p", {"bf": "3", "b-adapt": "0", "bit_rate": "300000"}, False)]
def dim(rng, codec): return (rng.choice((16, 32, 48, 64)), rng.choice((16, 32, 48))) if codec not in ("ffv1", "rawvideo", "png") else (rng.choice((2, 16, 38, 64)), rng.choice((2, 6, 22, 48)))

@family("video-codec", quick=220, thorough=6000)
async def video_codec(ctx):
  """Frames encoded and decoded again: every one, in order, with its time (and content where the codec keeps it)."""
  rng = ctx.rng
  enc, dec, fmt, opts, lossless = rng.choice(VCODECS)
  w, h = dim(rng, enc)
  rate = rng.choice([r for r in VRATES if enc != "mpeg2video" or r in (25, 30, 50, 30000 / 1001, 24, 60)])
  n = rng.choice((1, 2, 5, 12, 30))
  ms = rng.random() < 0.5
  tb = 1 / exact(rate)
  ei, di = VideoCodecInfo(w, h, rate, fmt, enc, dict(opts)), VideoCodecInfo(w, h, rate, fmt, dec)
  ctx.op(enc, fmt, opts, w, h, rate, n, ms)
  ctx.check(ei.time_base == tb and ei.options == opts, "codec-info", lambda: (ei.time_base, tb))
  e, d = ei.get_encoder(), di.get_decoder()
  made = (e.codec_context.bit_rate, e.codec_context.thread_count)
  skip = rng.choice((0, 0, 0, 3))       # frames that are missing in the source
  raws, times, pk = [], [], []
  k = 0
  for i in range(n):
    f, raw = fill(rng, w, h, fmt)
    f = VideoFrame(f)
    t = Fraction(round(k * tb * 1000), 1000) if ms else k * tb
    f.set_ts(t, tb)
    ctx.eq(f.frame.pts, k, "frame-tick", (rate, ms))
    raws.append(raw); times.append(k)
    pk += await e.encode(f)
    k += 1 + (skip if skip and rng.random() < 0.2 else 0)
  pk += await e.flush()
  ctx.eq(len(pk), n, "packet-count", enc)
  for a, b in zip(pk, pk[1:]): ctx.check(a.dts < b.dts, "dts-order", lambda: [(p.pts, p.dts) for p in pk])
  for p in pk: ctx.check(p.rel_dts >= 0, "dts-after-pts", lambda: (p.pts, p.dts))
  ctx.eq(sorted(p.pts for p in pk), times, "packet-times", enc)
  ctx.check(pk[0].is_keyframe, "first-keyframe", enc)
  if any(a.pts > b.pts for a, b in zip(pk, pk[1:])): ctx.count("reordered")
  out = []
  for p in pk:
    m = MediaMessage.model_validate(MediaMessage(timestamp=0, packet=p).model_dump())
    out += await d.decode(m.packet)
  out += await d.flush()
  ctx.eq([o.ptime for o in out], [t * tb for t in times], "decoded-times", (enc, opts))
  for i, (o, raw) in enumerate(zip(out, raws)):
    ctx.eq((o.frame.width, o.frame.height, o.frame.format.name), (w, h, fmt), "decoded-shape", enc)
    if lossless: ctx.check(o.to_bytes() == raw, "decoded-content", lambda: (enc, fmt, i, w, h))
    ctx.count("decoded")
  # the same codec again makes the same encoder
  if opts and rng.random() < 0.5:
    e2 = ei.get_encoder()
    ctx.check(ei.options == opts and (e2.codec_context.bit_rate, e2.codec_context.thread_count) == made, "second-encoder", lambda: (ei.options, opts))
    e2.close()
  ctx.sigadd(enc, fmt, str(opts), w, h, rate, n, len(pk[0].data))
  ctx.nontrivial = len(out) > 0

# encoder, sample format, rates, exact, most samples more at the end and delay at the start
ACODECS = [("pcm_s16le", "s16", ARATES, True, 0), ("pcm_f32le", "flt", ARATES, True, 0), ("pcm_s32le", "s32", ARATES, True, 0), ("pcm_u8", "u8", ARATES, True, 0),
  ("aac", "fltp", (16000, 32000, 44100, 48000), False, 2100), ("mp2", "s16", (32000, 44100, 48000), False, 1800), ("libopus", "flt", (16000, 24000, 48000), False, 3000), ("ac3", "fltp", (32000, 44100, 48000), False, 3200)]

@family("audio-codec", quick=160, thorough=4000)
async def audio_codec(ctx):
  """Sound encoded and decoded again: as long, on time, the same signal (sample by sample where the codec keeps it)."""
  rng = ctx.rng
  codec, fmt, rates, lossless, extra = rng.choice(ACODECS)
  rate, ch = rng.choice(rates), rng.choice((1, 2))
  n, size = rng.choice((3000, 10000, 30000)), rng.choice((160, 960, 1024, 1152, 777))
  jitter = rng.random() < 0.5
  opts = {} if lossless else {"bit_rate": "192000" if codec != "libopus" else "128000"}
  info = AudioCodecInfo(codec, ch, rate, fmt, dict(opts))
  ctx.op(codec, rate, ch, n, size, jitter)
  e, d = info.get_encoder(), AudioCodecInfo(codec, ch, rate, fmt).get_decoder()
  ctx.check(info.time_base == Fraction(1, rate) and info.options == opts, "codec-info", info.time_base)
  src = tone(rng, n, ch, rate)
  pk = []
  for f in frames_of(src, fmt, ch, rate, size, jitter): pk += await e.encode(f)
  pk += await e.flush()
  for a, b in zip(pk, pk[1:]): ctx.check(a.dts < b.dts and a.pts < b.pts, "packet-order", lambda: [(p.pts, p.dts) for p in pk])
  out = []
  for p in pk: out += await d.decode(MediaMessage.model_validate(MediaMessage(timestamp=0, packet=p).model_dump()).packet)
  out += await d.flush()
  first, pos, parts = out[0].ptime, 0, []
  for o in out:
    ctx.check(abs(o.ptime - first - Fraction(pos, rate)) < Fraction(3, 1000), "decoded-time", lambda: (codec, float(o.ptime), float(first), pos / rate))
    a = unpack(o.to_bytes(), o.frame.format.name, len(o.frame.layout.channels))
    ctx.eq((a.shape, o.frame.sample_rate), ((o.frame.samples, ch), rate if codec != "libopus" else 48000), "decoded-shape", codec) if codec != "libopus" else None
    parts.append(a)
    pos += o.frame.samples * rate // o.frame.sample_rate
    ctx.count("decoded")
  got = np.concatenate(parts)
  if lossless:
    ctx.eq((len(got), first), (n, 0), "decoded-length", codec)
    data, want = pack(src, fmt)
    ctx.check(pack_back(out, fmt) == data, "decoded-samples", lambda: (codec, fmt))
    ctx.count("exact")
  else:
    ctx.check(n <= pos - 0 + extra and pos <= n + extra and -extra <= first * rate <= 0, "decoded-length", lambda: (codec, pos, n, float(first * rate)))
    if codec != "libopus" or rate == 48000:
      lead = int(-first * rate)
      ctx.check(alike(got[lead + 1500:lead + n - 1500], src[1500:n - 1500]) > 0.9, "decoded-signal", lambda: (codec, rate, ch, alike(got[lead + 1500:lead + n - 1500], src[1500:n - 1500])))
      ctx.count("signals")
  ctx.sigadd(codec, rate, ch, n, size)
  ctx.nontrivial = True
def pack_back(frames, fmt): return b"".join(o.to_bytes() for o in frames)

@family("transcode", quick=160, thorough=4000)
async def transcode(ctx):
  """From one codec, rate, size and format to another: the right number of frames, on time, none lost at the end."""
  rng = ctx.rng
  if rng.random() < 0.3: return await transcode_audio(ctx)
  (c1, d1, f1, o1, l1), (c2, d2, f2, o2, l2) = (rng.choice([c for c in VCODECS if c[0] != "mpeg2video"]) for _ in range(2))
  w, h = rng.choice((16, 32, 64)), rng.choice((16, 32, 48))
  W, H = (w, h) if rng.random() < 0.6 else (rng.choice((16, 48)), rng.choice((16, 64)))
  fr, to = rng.choice(VRATES), rng.choice(VRATES)
  if rng.random() < 0.4: to = fr
  r = exact(to) / exact(fr)
  if r > 12: return
  n = rng.choice((1, 4, 12, 24))
  ctx.op(c1, f1, c2, f2, (w, h), (W, H), fr, to, n)
  i1, i2 = VideoCodecInfo(w, h, fr, f1, c1, dict(o1)), VideoCodecInfo(W, H, to, f2, c2, dict(o2))
  enc, raws, pk, tb = i1.get_encoder(), [], [], 1 / exact(fr)
  for k in range(n):
    f, raw = fill(rng, w, h, f1)
    f = VideoFrame(f); f.set_ts(k * tb, tb)
    raws.append(raw)
    pk += await enc.encode(f)
  pk += await enc.flush()
  tr = VideoCodecInfo(w, h, fr, f1, d1).get_transcoder(i2)
  ctx.check(not tr.flushed, "flushed-early", None)
  res = []
  for p in pk: res += await tr.transcode(p)
  res += await tr.flush()
  ctx.check(tr.flushed, "not-flushed", None)
  dec, out = VideoCodecInfo(W, H, to, f2, d2).get_decoder(), []
  if res:
    for a, b in zip(res, res[1:]): ctx.check(a.dts < b.dts, "dts-order", lambda: [(p.pts, p.dts) for p in res])
    for p in res: out += await dec.decode(p)
    out += await dec.flush()
  slack = 0 if isinstance(fr, int) and isinstance(to, int) else Fraction(1, 10**6)
  ctx.check(abs(len(out) - n * r) < 1 + slack and len(out) == len(res), "frame-count", lambda: (len(out), len(res), float(n * r)))
  tb2 = 1 / exact(to)
  for j, o in enumerate(out):
    ctx.eq(o.ptime, j * tb2, "transcoded-time", j)
    ctx.eq((o.frame.width, o.frame.height, o.frame.format.name), (W, H, f2), "transcoded-shape", j)
    if l1 and l2 and f1 == f2 and (w, h) == (W, H):
      near = [raws[k] for k in range(n) if abs(k * tb - o.ptime) <= tb + tb2]
      ctx.check(o.to_bytes() in near, "transcoded-content", lambda: (j, c1, c2))
      if fr == to: ctx.check(o.to_bytes() == raws[j], "transcoded-content", lambda: (j, c1, c2))
      ctx.count("exact")
    ctx.count("transcoded")
  ctx.sigadd(c1, f1, c2, f2, w, h, W, H, fr, to, n, len(out))
  ctx.nontrivial = len(out) > 0

async def transcode_audio(ctx):
  rng = ctx.rng
  A = [c for c in ACODECS if c[0] != "libopus"]
  (c1, f1, r1, l1, x1), (c2, f2, r2, l2, x2) = rng.choice(A), rng.choice(A)
  ra, rb = rng.choice(r1), rng.choice(r2)
  if ra in r2 and rng.random() < 0.4: rb = ra
  ca = rng.choice((1, 2))
  n, size = rng.choice((8000, 20000)), rng.choice((960, 1024, 777))
  ctx.op(c1, ra, c2, rb, ca, n, size)
  i1, i2 = AudioCodecInfo(c1, ca, ra, f1), AudioCodecInfo(c2, ca, rb, f2)
  src, enc, pk = tone(rng, n, ca, ra), i1.get_encoder(), []
  for f in frames_of(src, f1, ca, ra, size): pk += await enc.encode(f)
  pk += await enc.flush()
  tr = AudioCodecInfo(c1, ca, ra, f1).get_transcoder(i2)
  res = []
  for p in pk: res += await tr.transcode(p)
  res += await tr.flush()
  dec, out = AudioCodecInfo(c2, ca, rb, f2).get_decoder(), []
  for p in res: out += await dec.decode(p)
  out += await dec.flush()
  total = sum(o.frame.samples for o in out)
  want = n * rb / ra
  more = x1 * rb / ra + x2 + 200
  ctx.check(want - (400 if ra != rb else 0) <= total <= want + more, "transcoded-length", lambda: (c1, c2, total, want, more))
  for a, b in zip(out, out[1:]): ctx.check(abs(b.ptime - a.ptime - Fraction(a.frame.samples, rb)) < Fraction(4, 1000), "transcoded-gap", lambda: (float(a.ptime), float(b.ptime), a.frame.samples))
  if l1 and l2 and ra == rb and c1 == c2:
    ctx.check(b"".join(o.to_bytes() for o in out) == pack(src, f1)[0], "transcoded-samples", lambda: (c1, c2))
    ctx.count("exact")
  ctx.count("transcoded", len(out))
  ctx.sigadd(c1, ra, c2, rb, ca, n, size)
  ctx.nontrivial = True

# ---------------------------------------------------------------- containers
MUX = { # container: (video codecs, audio codecs, ms-precise times)
  "mp4": ((("mpeg4", "yuv420p", {}), ("mpeg4", "yuv420p", {"bf": "2"})), (("aac", "fltp", (16000, 32000, 44100, 48000)), ("ac3", "fltp", (32000, 44100, 48000)), ("libmp3lame", "fltp", (32000, 44100, 48000))), False),
  "matroska": ((("mpeg4", "yuv420p", {}), ("mpeg4", "yuv420p", {"bf": "2"}), ("ffv1", "yuv420p", {}), ("ffv1", "bgra", {})), (("aac", "fltp", (16000, 32000, 44100, 48000)), ("ac3", "fltp", (32000, 48000)), ("pcm_s16le", "s16", ARATES)), True),
  "avi": ((("mpeg4", "yuv420p", {}), ("ffv1", "yuv420p", {})), (("aac", "fltp", (32000, 44100, 48000)), ("pcm_s16le", "s16", ARATES)), False),
  "mov": ((("mpeg4", "yuv420p", {}), ("mpeg4", "yuv420p", {"bf": "2"})), (("aac", "fltp", (32000, 48000)), ("pcm_s16le", "s16", ARATES)), False),
  "nut": ((("ffv1", "yuv420p", {}), ("ffv1", "bgra", {})), (("pcm_s16le", "s16", ARATES), ("pcm_f32le", "flt", ARATES)), False),
  "mpegts": ((("mpeg4", "yuv420p", {}),), (("ac3", "fltp", (32000, 48000)),), True),
  "wav": ((), (("pcm_s16le", "s16", ARATES), ("pcm_f32le", "flt", ARATES)), False),
}
CRATES = (5, 10, 15, 24, 25, 30, 30000 / 1001, 50, 60)

async def make_video(ctx, info, n):
  e, pk, raws = info.get_encoder(), [], []
  for k in range(n):
    f, raw = fill(ctx.rng, info.width, info.height, info.pixel_format)
    f = VideoFrame(f); f.set_ts(k * info.time_base, info.time_base)
    raws.append(raw)
    pk += await e.encode(f)
  return pk + await e.flush(), raws
async def make_audio(ctx, info, n):
  e = info.get_encoder()
  size, pk = e.codec_context.frame_size or 1024, []
  src = tone(ctx.rng, n * size, info.channels, info.sample_rate)
  for f in frames_of(src, info.sample_format, info.channels, info.sample_rate, size): pk += await e.encode(f)
  return pk + await e.flush(), src

def pick_streams(rng, fmt):
  vs, as_, _ = MUX[fmt]
  v = a = None
  if vs and (not as_ or rng.random() < 0.8):
    c, pf, o = rng.choice(vs)
    v = VideoCodecInfo(rng.choice((16, 32, 64)), rng.choice((16, 48)), rng.choice(CRATES), pf, c, dict(o))
  if as_ and (v is None or rng.random() < 0.6):
    c, sf, rs = rng.choice(as_)
    a = AudioCodecInfo(c, rng.choice((1, 2)), rng.choice(rs), sf)
  return v, a

def same_packets(ctx, got, want, info, ms, tag):
  """Every packet once, in order, with its data and its distance in time from the first."""
  if info.codec.startswith("pcm"):
    # the boundaries of raw audio are up to the container
    ctx.check(b"".join(p.data for p in got) == b"".join(p.data for p in want), "container-samples", lambda: (tag, sum(len(p.data) for p in got), sum(len(p.data) for p in want)))
    pos = 0
    size = np.dtype(sample_format_to_dtype(info.sample_format)).itemsize * info.channels
    for p in got:
      ctx.check(abs((p.pts - got[0].pts) - pos) <= (info.sample_rate // 1000 + 2 if ms else 0), "container-time", lambda: (tag, p.pts, pos))
      pos += len(p.data) // size
  else:
    ctx.check([p.data for p in got] == [p.data for p in want], "container-packets", lambda: (tag, len(got), len(want)))
    tol = 0 if not ms else (info.rate // 1000 + 2 if info.type == "audio" else 0)
    for g, w in zip(got, want):
      ctx.check(abs((g.pts - got[0].pts) - (w.pts - want[0].pts)) <= tol, "container-time", lambda: (tag, [(p.pts, p.dts) for p in got[:6]], [(p.pts, p.dts) for p in want[:6]]))
      ctx.check(info.type == "audio" or g.is_keyframe == w.is_keyframe, "container-keyframe", tag)
  for x, y in zip(got, got[1:]): ctx.check(x.dts < y.dts or (ms and x.dts <= y.dts), "container-order", lambda: (tag, [(p.pts, p.dts) for p in got[:8]]))
  for p in got: ctx.check(p.rel_dts >= 0, "container-dts", lambda: (tag, p.pts, p.dts))
  ctx.count("demuxed", len(got))

async def read_all(ctx, stream, pause):
  out, rng = [], ctx.rng
  while True:
    try: out += await stream.demux()
    except EOFError: break
    if pause and rng.random() < 0.2: await asyncio.sleep(rng.choice((0, 0.001)))
  for _ in range(2):
    try:
      x = await stream.demux()
      ctx.fail("after-the-end", len(x))
    except EOFError: pass
  return out

async def write_file(ctx, path, fmt, streams):
  oc = await OutputContainer.open(path, format=fmt)
  rng, jobs = ctx.rng, []
  async def feed(st, pk, pause):
    for p in pk:
      kept = copy.deepcopy(p)
      await st.mux(p)
      ctx.check(p == kept, "mux-changes-packet", lambda: (p.pts, kept.pts))
      if pause and rng.random() < 0.3: await asyncio.sleep(rng.choice((0, 0, 0.001)))
    st.duration = Fraction(10**6)
  for info, pk in streams:
    st = oc.add_video_stream(info) if info.type == "video" else oc.add_audio_stream(info)
    jobs.append(feed(st, pk, rng.random() < 0.5))
  try: await asyncio.wait_for(asyncio.gather(*jobs), 30)
  except asyncio.TimeoutError: ctx.fail("mux-stalls", fmt)
  await oc.close()

@family("containers", quick=120, thorough=3500, loop="real")
async def containers(ctx):
  """Written to a container and read back: every packet of every stream once, in order, with its data and times."""
  rng = ctx.rng
  fmt = rng.choice(list(MUX))
  v, a = pick_streams(rng, fmt)
  ms = MUX[fmt][2]
  path = os.path.join(ctx.tmpdir(), "file")
  want = {}
  streams = []
  if v: want["v"] = (await make_video(ctx, v, rng.choice((1, 5, 12, 30)) if fmt != "mpegts" else 30))[0]; streams.append((v, want["v"]))
  if a: want["a"] = (await make_audio(ctx, a, rng.choice((3, 10, 40)) if fmt != "mpegts" else 40))[0]; streams.append((a, want["a"]))
  ctx.op(fmt, v and (v.codec, v.rate, v.pixel_format, v.options), a and (a.codec, a.rate, a.channels), {k: len(x) for k, x in want.items()})
  rng.shuffle(streams)
  await write_file(ctx, path, fmt, streams)
  ic = await InputContainer.open(path, format=fmt)
  readers = {}
  for k, info in rng.sample([("v", v), ("a", a)], 2):
    if info: readers[k] = (ic.get_video_stream if k == "v" else ic.get_audio_stream)(0, info)
  for k, r in readers.items():
    ctx.check((v if k == "v" else a).compatible_with(r.codec_info), "container-codec", lambda: (fmt, vars(r.codec_info)))
    ctx.eq(r.convert_position(1000, Fraction(1, 1000)), int(1000 * r.out_time_base * 1000), "position", fmt)
  if rng.random() < 0.5:
    got = dict(zip(readers, await asyncio.gather(*(read_all(ctx, r, True) for r in readers.values()))))
    ctx.count("read_together")
  else: got = {k: await read_all(ctx, r, False) for k, r in readers.items()}
  await ic.close()
  for k, info in (("v", v), ("a", a)):
    if info: same_packets(ctx, got[k], want[k], info, ms, (fmt, info.codec, float(info.rate)))
  ctx.count("files")
  ctx.sigadd(fmt, v and v.codec, a and a.codec, str({k: (len(x), sum(len(p.data) for p in x)) for k, x in want.items()}))
  ctx.nontrivial = True

@family("container-transcode", quick=60, thorough=1500, loop="real")
async def container_transcode(ctx):
  """A stream read as another codec, rate or size has the frames its time allows."""
  rng = ctx.rng
  fmt = rng.choice(("mp4", "matroska", "avi", "mov", "nut"))
  v, _ = pick_streams(rng, fmt)
  while v is None: v, _ = pick_streams(rng, fmt)
  x264 = fmt in ("mp4", "matroska", "mov") and rng.random() < 0.4
  if x264: v = VideoCodecInfo(max(v.width, 32), 48, v.rate, "yuv420p", "libx264", rng.choice(({}, {"bf": "0"}, {"bf": "2"})))
  n = rng.choice((2, 12, 30))
  pk, raws = await make_video(ctx, v, n)
  path = os.path.join(ctx.tmpdir(), "file")
  await write_file(ctx, path, fmt, [(v, pk)])
  same = rng.random() < 0.5
  to = v.rate if same else rng.choice(CRATES)
  size = (v.width, v.height) if rng.random() < 0.6 else (48, 32)
  target = VideoCodecInfo(*size, to, v.pixel_format if v.codec == "ffv1" else "yuv420p", "ffv1")
  force = rng.random() < 0.5
  ctx.op(fmt, v.codec, v.rate, to, size, force, n)
  ic = await InputContainer.open(path, format=fmt)
  st = ic.get_video_stream(0, target, force_transcode=force)
  got = await read_all(ctx, st, rng.random() < 0.5)
  await ic.close()
  dec, out = VideoCodecInfo(*size, to, target.pixel_format, "ffv1").get_decoder(), []
  for p in got: out += await dec.decode(p)
  r = exact(to) / exact(v.rate)
  ctx.check(abs(len(out) - n * r) < 1 + Fraction(1, 10**6) and len(got) == len(out), "frame-count", lambda: (fmt, v.codec, len(out), float(n * r)))
  first = pk[0].rel_dts      # a container starts at the first decode time
  tb = 1 / exact(to)
  for j, o in enumerate(out):
    ctx.eq((o.frame.width, o.frame.height), size, "transcoded-shape", j)
    ctx.check(abs(o.ptime - j * tb - first * v.time_base) <= tb + (0 if same else tb), "transcoded-time", lambda: (j, float(o.ptime), float(j * tb)))
    if v.codec == "ffv1" and size == (v.width, v.height) and same:
      ctx.check(o.to_bytes() == raws[j], "transcoded-content", j)
      ctx.count("exact")
    ctx.count("transcoded")
  ctx.check(all(a.ptime < b.ptime for a, b in zip(out, out[1:])), "frame-order", None)
  ctx.sigadd(fmt, v.codec, v.rate, to, size, force, n)
  ctx.nontrivial = len(out) > 0

# ---------------------------------------------------------------- tasks
from streamtasks.system.tasks.media.audiodecoder import AudioDecoderConfig, AudioDecoderTask
from streamtasks.system.tasks.media.audioencoder import AudioEncoderConfig, AudioEncoderTask
from streamtasks.system.tasks.media.audioresampler import AudioResamplerConfig, AudioResamplerTask
from streamtasks.system.tasks.media.inputcontainer import ContainerAudioInputConfig, ContainerVideoInputConfig, InputContainerConfig, InputContainerTask
from streamtasks.system.tasks.media.outputcontainer import ContainerAudioOutputConfig, ContainerVideoOutputConfig, OutputContainerConfig, OutputContainerTask
from streamtasks.system.tasks.media.videoactivitymeter import VideoActivityMeterConfig, VideoActivityMeterTask
from streamtasks.system.tasks.media.videodecoder import VideoDecoderConfig, VideoDecoderTask
from streamtasks.system.tasks.media.videoencoder import VideoEncoderConfig, VideoEncoderTask
from streamtasks.system.tasks.media.videoreformatter import VideoReformatterConfig, VideoReformatterTask
from vlib.rig import Rig
from vlib.taskmodel import OUT
MALFORMED = ({}, {"timestamp": 5}, {"timestamp": "x", "data": b"\x00" * 8}, {"timestamp": 5, "data": None}, 7, "text", [1], {"data": b"1234"}, {"timestamp": 4, "packet": 3}, {"timestamp": 4, "packet": {"data": b"x"}})
KINDS = ("queue", "rawqueue", "v-zero", "y-zero")

async def until(cond, t=20):
  end = asyncio.get_running_loop().time() + t
  while not cond():
    if asyncio.get_running_loop().time() > end: return False
    await asyncio.sleep(0.004)
  return True

class Both:
  """Two tasks in a row, as one: the second reads what the first writes."""
  def __init__(self, a, b): self.a, self.b = a, b
  async def setup(self): pass
  async def run(self):
    async def one(t):
      await t.setup()
      await t.run()
    ts = [asyncio.create_task(one(t)) for t in (self.b, self.a)]
    try:
      done, _ = await asyncio.wait(ts, return_when="FIRST_COMPLETED")
      for t in done: await t
    finally:
      for t in ts: t.cancel()
      await asyncio.gather(*ts, return_exceptions=True)

async def two(ctx, make_a, make_b):
  """A rig whose task is an encoder on one client and a decoder on another of the same switch."""
  from streamtasks.client import Client
  from vlib.net import make_pair
  rig = Rig(ctx, kind=ctx.rng.choice(KINDS))
  extra = {}
  start = rig.start
  async def prepare():
    a, b, _, _ = await make_pair(ctx.rng, ctx.rng.choice(("queue", "v-zero")), 1)
    extra["client"] = Client(b)
    return a
  link = await prepare()
  rig.extra_link = link
  def make(c):
    t = asyncio.ensure_future(rig.switch.add_link(link))
    extra["added"] = t
    return Both(make_a(c), make_b(extra["client"]))
  await start(make, [1], [OUT, 50], settle=0.15)
  return rig

@family("video-tasks", quick=60, thorough=1600, loop="real")
async def video_tasks(ctx):
  """Raw frames through the encoder task and the decoder task: all of them, in order, at their times; bad messages change nothing."""
  rng = ctx.rng
  enc, dec, fmt, opts, lossless = rng.choice([c for c in VCODECS if c[0] in ("ffv1", "png", "mpeg4") or c[3].get("qp")])
  w, h = rng.choice((16, 32, 64)), rng.choice((16, 48))
  rate = rng.choice([r for r in VRATES if r >= 2])
  raw_fmt = fmt if fmt != "yuv420p" and rng.random() < 0.8 else "rgb24"
  base = dict(width=w, height=h, rate=rate)
  ec = VideoEncoderConfig(in_pixel_format=raw_fmt, out_pixel_format=fmt, encoder=enc, codec=dec, codec_options=dict(opts), in_topic=1, out_topic=50, **base)
  dc = VideoDecoderConfig(in_pixel_format=fmt, out_pixel_format=raw_fmt, decoder=dec, codec=dec, in_topic=50, out_topic=OUT, **base)
  rig = await two(ctx, lambda c: VideoEncoderTask(c, ec), lambda c: VideoDecoderTask(c, dc))
  n, t0, tb, size = rng.randint(4, 16), rng.choice((0, 1000, 10**12)), 1 / exact(rate), w * h * {"rgb24": 3}.get(raw_fmt, 4)
  ctx.op(enc, fmt, raw_fmt, opts, w, h, rate, n)
  want = []
  for k in range(n):
    while rng.random() < 0.15:
      await rig.data(1, copy.deepcopy(rng.choice(MALFORMED + ({"timestamp": t0, "data": b""}, {"timestamp": t0, "data": b"\x07" * (size - 1)}, {"timestamp": t0, "data": b"\x07" * (size // 2)}))))
      ctx.count("malformed")
    if rng.random() < 0.1:
      # what is not a packet on the way to the decoder
      await rig.provider.send_stream_data(50, RawData(copy.deepcopy(rng.choice(MALFORMED)))); ctx.count("malformed")
    ts = t0 + round(k * tb * 1000)
    v = rng.randrange(256)
    data = rng.randbytes(size) if raw_fmt == fmt else bytes([v]) * size
    want.append((ts, data, v))
    await rig.data(1, {"timestamp": ts, "data": data})
    if rng.random() < 0.3: await rig.settle(0.01)
  delay = 0 if lossless or not opts.get("bf") else int(opts["bf"]) + 1 + int(opts.get("threads", 1))
  if dec == "h264": delay = 3
  if enc == "mpeg4": delay = max(delay, 1 + int(opts.get("threads", 1)))
  ctx.check(await until(lambda: len(rig.out(OUT)) >= n - delay), "frames-missing", lambda: (enc, len(rig.out(OUT)), n, delay))
  await rig.settle(0.03)
  rig.alive()
  got = [m for _, m in rig.out(OUT)]
  ctx.check(n - delay <= len(got) <= n, "frames-count", lambda: (enc, len(got), n))
  for k, (g, (ts, data, v)) in enumerate(zip(got, want)):
    ctx.check(abs(g["timestamp"] - ts) <= 2, "frame-time", lambda: (enc, rate, k, g["timestamp"] - t0, ts - t0))
    ctx.eq(len(g["data"]), size, "frame-size", (enc, raw_fmt))
    if lossless and raw_fmt == fmt: ctx.check(g["data"] == data, "frame-content", lambda: (enc, fmt, k)); ctx.count("exact")
    elif lossless: ctx.check(abs(np.frombuffer(g["data"], dtype=np.uint8).astype(int) - v).max() <= 3, "frame-colour", lambda: (enc, v, g["data"][:6].hex()))
    ctx.count("task_frames")
  packets = [m for _, m in rig.out(50)]
  for a, b in zip(packets, packets[1:]):
    if isinstance(a, dict) and isinstance(b, dict) and isinstance(a.get("packet"), dict) and isinstance(b.get("packet"), dict) and "pts" in a["packet"] and "pts" in b["packet"]:
      ctx.check(a["timestamp"] < b["timestamp"], "packet-times", lambda: (a["timestamp"], b["timestamp"]))
  await rig.finish()
  ctx.sigadd(enc, fmt, raw_fmt, w, h, rate, n)
  ctx.nontrivial = len(got) > 0

@family("audio-tasks", quick=50, thorough=1500, loop="real")
async def audio_tasks(ctx):
  """Raw sound through the encoder task and the decoder task: the same sound, on time; bad messages change nothing."""
  rng = ctx.rng
  codec, fmt, rates, lossless, extra = rng.choice([c for c in ACODECS if c[0] in ("pcm_s16le", "pcm_f32le", "aac")])
  rate, ch = rng.choice(rates), rng.choice((1, 2))
  raw_fmt = rng.choice(("s16", "flt"))
  cfg = dict(channels=ch, rate=rate, codec=codec)
  if codec == "aac" and raw_fmt == "s16": raw_fmt = "fltp"
  elif codec == "aac": raw_fmt = "fltp"
  else: raw_fmt = fmt
  out_fmt = rng.choice(("s16", "flt", raw_fmt))
  ec = AudioEncoderConfig(in_sample_format=raw_fmt, out_sample_format=fmt, encoder=codec, in_topic=1, out_topic=50, **cfg)
  dc = AudioDecoderConfig(in_sample_format=fmt, out_sample_format=out_fmt, decoder=codec, in_topic=50, out_topic=OUT, **cfg)
  rig = await two(ctx, lambda c: AudioEncoderTask(c, ec), lambda c: AudioDecoderTask(c, dc))
  size, t0 = rng.choice((320, 1024, 777)), rng.choice((0, 1000, 10**12))
  n = rng.randint(4, 24) * size
  src = tone(rng, n, ch, rate)
  ctx.op(codec, raw_fmt, out_fmt, rate, ch, size, n)
  for i in range(0, n, size):
    while rng.random() < 0.1:
      await rig.data(1, copy.deepcopy(rng.choice(MALFORMED[:8] + ({"timestamp": t0, "data": b""}, {"timestamp": t0, "data": b"\x01\x02\x03"})))); ctx.count("malformed")
    if rng.random() < 0.1: await rig.provider.send_stream_data(50, RawData(copy.deepcopy(rng.choice(MALFORMED)))); ctx.count("malformed")
    await rig.data(1, {"timestamp": t0 + i * 1000 // rate, "data": pack(src[i:i + size], raw_fmt)[0]})
    if rng.random() < 0.3: await rig.settle(0.005)
  need = n if lossless else max(0, n - 2 * 1024)
  count = lambda: sum(len(m["data"]) for _, m in rig.out(OUT)) // (ch * np.dtype(sample_format_to_dtype(out_fmt)).itemsize)
  ctx.check(await until(lambda: count() >= need), "samples-missing", lambda: (codec, count(), need))
  await rig.settle(0.02)
  rig.alive()
  pos, parts, first = 0, [], None
  for _, m in rig.out(OUT):
    a = unpack(m["data"], out_fmt, ch)
    if first is None: first = m["timestamp"] - t0
    ctx.check(abs(m["timestamp"] - t0 - first - pos * 1000 / rate) <= 4, "sound-time", lambda: (codec, m["timestamp"] - t0, first, pos * 1000 / rate))
    parts.append(a); pos += len(a)
    ctx.count("task_frames")
  got = np.concatenate(parts) if parts else np.zeros((0, ch))
  if lossless:
    ctx.check(first in (0, -1) and len(got) == n and abs(got - src).max() < 1e-3, "sound-samples", lambda: (codec, first, len(got), n))
    ctx.count("exact")
  else:
    ctx.check(not parts or -extra * 1000 / rate <= first <= 1, "sound-start", first)
    lead = 1024
    if n > 8000: ctx.check(alike(got[lead + 1000:lead + n - 4000], src[1000:n - 4000]) > 0.9, "sound-signal", lambda: alike(got[lead + 1000:], src[1000:]))
  await rig.finish()
  ctx.sigadd(codec, raw_fmt, out_fmt, rate, ch, size, n)
  ctx.nontrivial = True

@family("shape-tasks", quick=100, thorough=3000)
async def shape_tasks(ctx):
  """The reformatter and resampler tasks: what the reformatter and resampler give, with message times, pauses passed on."""
  rng = ctx.rng
  ctx.loop.external_grace = 20
  if rng.random() < 0.5:
    fr, to = (rng.choice([r for r in VRATES if 2 <= r <= 60]) for _ in range(2))
    w, h = rng.choice((2, 16, 38)), rng.choice((2, 16, 22))
    W, H = (w, h) if rng.random() < 0.5 else (rng.choice((4, 20)), rng.choice((6, 30)))
    fi, fo = rng.choice(("rgb24", "bgr24", "rgba", "bgra", "gray")), rng.choice(("rgb24", "bgr24", "gray"))
    cfg = VideoReformatterConfig(in_pixel_format=fi, in_rate=fr, in_width=w, in_height=h, out_pixel_format=fo, out_rate=to, out_width=W, out_height=H, in_topic=1, out_topic=OUT)
    rig = await Rig(ctx).start(lambda c: VideoReformatterTask(c, cfg), [1], [OUT])
    bpp = {"gray": 1, "rgb24": 3, "bgr24": 3}
    size, osize = w * h * bpp.get(fi, 4), W * H * bpp[fo]
    tb, r, t0, n, seen, last = 1 / exact(fr), exact(to) / exact(fr), rng.choice((0, 1000, 10**12)), rng.randint(5, 40), 0, None
    ctx.op(fi, fo, fr, to, w, h, W, H, n)
    for k in range(n):
      while rng.random() < 0.1:
        await rig.data(1, copy.deepcopy(rng.choice(MALFORMED[:8] + ({"timestamp": t0, "data": b""}, {"timestamp": t0, "data": b"\x07" * (size - 1)})))); ctx.count("malformed")
      if rng.random() < 0.05:
        for v in (True, False):
          await rig.pause(1, v); await rig.settle(0.2)
          ctx.eq(rig.out_paused(OUT), v, "output-pause", "reformatter")
      ts, v = t0 + round(k * tb * 1000), rng.randrange(256)
      await rig.data(1, {"timestamp": ts, "data": bytes([v]) * size})
      await rig.settle(0.2)
      rig.alive()
      new = [m for _, m in rig.out(OUT)][seen:]
      seen += len(new)
      ctx.check(abs(seen - (k + 1) * r) < 1 + Fraction(1, 10**6), "task-frame-count", lambda: (k, seen, float((k + 1) * r)))
      for m in new:
        ctx.check(abs(m["timestamp"] - ts) <= (tb + 1 / exact(to)) * 1000 + 1 and (last is None or m["timestamp"] > last or to > 900), "task-frame-time", lambda: (m["timestamp"] - t0, ts - t0, last))
        ctx.check(len(m["data"]) == osize and abs(np.frombuffer(m["data"], dtype=np.uint8).astype(int) - v).max() <= 2, "task-frame-content", lambda: (k, v, len(m["data"]), osize, m["data"][:4].hex()))
        last = m["timestamp"]
        ctx.count("task_frames")
    out = seen
  else:
    fi, fo = (rng.choice(("s16", "flt", "s32", "fltp", "s16p")) for _ in range(2))
    ri = rng.choice(ARATES); ro = ri if rng.random() < 0.5 else rng.choice(ARATES)
    ch = rng.choice((1, 2))
    cfg = AudioResamplerConfig(in_sample_format=fi, in_rate=ri, in_channels=ch, out_sample_format=fo, out_rate=ro, out_channels=ch, in_topic=1, out_topic=OUT)
    rig = await Rig(ctx).start(lambda c: AudioResamplerTask(c, cfg), [1], [OUT])
    size, t0 = rng.choice((160, 777, 1024)), rng.choice((0, 1000, 10**12))
    n = rng.randint(3, 20) * size
    src, fed = tone(rng, n, ch, ri), 0
    ctx.op(fi, fo, ri, ro, ch, size, n)
    for i in range(0, n, size):
      while rng.random() < 0.1:
        await rig.data(1, copy.deepcopy(rng.choice(MALFORMED[:8] + ({"timestamp": t0, "data": b"\x01\x02\x03"},)))); ctx.count("malformed")
      if rng.random() < 0.05:
        for v in (True, False):
          await rig.pause(1, v); await rig.settle(0.2)
          ctx.eq(rig.out_paused(OUT), v, "output-pause", "resampler")
      await rig.data(1, {"timestamp": t0 + i * 1000 // ri, "data": pack(src[i:i + size], fi)[0]})
      await rig.settle(0.1)
      rig.alive()
    pos, parts = 0, []
    for _, m in rig.out(OUT):
      ctx.check(abs(m["timestamp"] - t0 - pos * 1000 / ro) <= 3, "task-sound-time", lambda: (m["timestamp"] - t0, pos * 1000 / ro))
      parts.append(unpack(m["data"], fo, ch)); pos += len(parts[-1])
      ctx.count("task_frames")
    ctx.check(n * ro / ri - (0 if ri == ro else 40 + 40 * max(1, ro / ri)) <= pos <= n * ro / ri + 2, "task-sound-length", lambda: (pos, n * ro / ri))
    if ri == ro: ctx.check(abs(np.concatenate(parts) - src).max() < 1e-3, "task-sound-samples", (fi, fo)); ctx.count("exact")
    out = pos
  await rig.finish()
  ctx.sigadd(str(cfg), out)
  ctx.nontrivial = out > 0

@family("activity", quick=30, thorough=800, loop="real")
async def activity(ctx):
  """The activity of a frame is its mean difference from the one before; a pause is no activity."""
  rng = ctx.rng
  fmt = rng.choice(("gray", "rgb24", "bgra"))
  w, h = rng.choice((1, 2, 16)), rng.choice((1, 3, 16))
  cfg = VideoActivityMeterConfig(pixel_format=fmt, width=w, height=h, rate=30, in_topic=1, out_topic=OUT)
  rig = await Rig(ctx, kind=rng.choice(KINDS)).start(lambda c: VideoActivityMeterTask(c, cfg), [1], [OUT])
  size = w * h * {"gray": 1, "rgb24": 3, "bgra": 4}[fmt]
  last, want, ts = None, [], 1000
  for _ in range(rng.randint(3, 20)):
    ts += 40
    if rng.random() < 0.2:
      await rig.data(1, copy.deepcopy(rng.choice(MALFORMED[:8] + tuple({"timestamp": ts, "data": b"\x07" * x} for x in (0, size * 2 - 1) if x % (w * h))))); ctx.count("malformed")
      continue
    frame = rng.choice((rng.randbytes(size), bytes([rng.randrange(256)]) * size, last if last else b"\x00" * size))
    await rig.data(1, {"timestamp": ts, "data": frame})
    if last is not None: want.append((ts, sum(abs(a - b) for a, b in zip(frame, last)) / size))
    last = frame
  ctx.check(await until(lambda: len(rig.out(OUT)) >= len(want)), "activity-missing", lambda: (len(rig.out(OUT)), len(want)))
  await rig.settle(0.02)
  rig.alive()
  got = [m for _, m in rig.out(OUT)]
  ctx.eq([m["timestamp"] for m in got], [t for t, _ in want], "activity-times", fmt)
  for m, (t, x) in zip(got, want):
    ctx.check(abs(m["value"] - x) < 1e-6 * max(1, x), "activity-value", lambda: (m["value"], x))
    ctx.count("activities")
  if rng.random() < 0.5:
    await rig.pause(1, True)
    ctx.check(await until(lambda: rig.out_paused(OUT)), "output-pause", None)
    ctx.check(len(rig.out(OUT)) == len(want) + 1 and rig.out(OUT)[-1][1]["value"] == 0, "activity-paused", lambda: rig.out(OUT)[-1])
  await rig.finish()
  ctx.sigadd(fmt, w, h, str(want))
  ctx.nontrivial = len(want) > 0

# ---------------------------------------------------------------- stopping
_big = {}
async def big_packets(rng):
  """Packets that take a while to decode."""
  if not _big:
    info = VideoCodecInfo(640, 480, 30, "yuv420p", "ffv1")
    e, out = info.get_encoder(), []
    for k in range(6):
      f = VideoFrame(fill(rng, 640, 480, "yuv420p")[0])
      f.set_ts(k * info.time_base, info.time_base)
      out += await e.encode(f)
    _big["info"], _big["packets"] = info, out
  return _big["info"], _big["packets"]

@family("stop", quick=60, thorough=2500, loop="real")
async def stop(ctx):
  """Stopped at any moment, with work under way in a thread: it ends soon, nothing breaks, and what was written is there."""
  rng = ctx.rng
  info, pk = await big_packets(rng)
  kind = rng.choice(("decode", "encode", "transcode", "read", "write", "write", "write", "unused", "task", "task"))
  delay = rng.choice((0, rng.uniform(0, 0.01), rng.uniform(0, 0.05)))
  ctx.op(kind, round(delay, 4))
  small = VideoCodecInfo(64, 48, 30, "yuv420p", "ffv1")
  done = []
  async def use(make, work, close):
    it = await make()
    try: await work(it)
    finally:
      r = close(it)
      if asyncio.iscoroutine(r): await r
      done.append(kind)
  async def stopped(t, what):
    await asyncio.sleep(delay)
    t.cancel()
    try: await asyncio.wait_for(asyncio.shield(asyncio.gather(t, return_exceptions=True)), 20)
    except asyncio.TimeoutError: ctx.fail("stop-hangs", what)
    if not t.cancelled() and t.exception() is not None: ctx.fail("stop-raises", f"{what}: {t.exception()!r}")
  async def forever(f):
    while True:
      await f()
      await asyncio.sleep(0)
  async def make(x): return x
  if kind == "unused":
    for c in (info, small, AudioCodecInfo("aac", 1, 32000, "fltp")):
      for x in (c.get_decoder(), c.get_encoder()):
        x.close()
        if rng.random() < 0.5: x.close()
        ctx.count("stopped")
    ic = OutputContainer.open(os.path.join(ctx.tmpdir(), "f"), format="matroska")
    await (await ic).close()
  elif kind in ("decode", "encode", "transcode"):
    for _ in range(4):
      if kind == "decode":
        async def work(d):
          for p in pk * 3: await d.decode(p)
        t = asyncio.create_task(use(lambda: make(info.get_decoder()), work, lambda d: d.close()))
      elif kind == "encode":
        f = VideoFrame(fill(rng, 640, 480, "yuv420p")[0])
        f.set_ts(0 * info.time_base, info.time_base)
        async def work(e):
          for _ in range(12): await e.encode(f)
        t = asyncio.create_task(use(lambda: make(info.get_encoder()), work, lambda d: d.close()))
      else:
        async def work(x):
          for p in pk * 3: await x.transcode(p)
        def close(x): x.decoder.close(); x.encoder.close()
        t = asyncio.create_task(use(lambda: make(info.get_transcoder(small)), work, close))
      await stopped(t, kind)
      ctx.count("stopped")
  elif kind == "read":
    fmt = rng.choice(("matroska", "nut", "avi"))
    path = os.path.join(ctx.tmpdir(), "file")
    await write_file(ctx, path, fmt, [(info, pk)])
    for _ in range(3):
      target = rng.choice((info, small))
      async def work(ic):
        s = ic.get_video_stream(0, target, rng.random() < 0.3)
        while True:
          try: await s.demux()
          except EOFError: return
      t = asyncio.create_task(use(lambda: InputContainer.open(path, format=fmt), work, lambda ic: ic.close()))
      await stopped(t, kind)
      ctx.count("stopped")
  elif kind == "write":
    for _ in range(8):
      delay = rng.uniform(0, 0.006)
      path, fmt = os.path.join(ctx.tmpdir(), "out"), rng.choice(("matroska", "nut", "avi"))
      held = {}
      async def work(oc):
        st, held["n"] = oc.add_video_stream(info), 0
        for p in pk * 20:
          await st.mux(MediaPacket(data=p.data, pts=held["n"], rel_dts=0, is_keyframe=True))
          held["n"] += 1
      t = asyncio.create_task(use(lambda: OutputContainer.open(path, format=fmt), work, lambda oc: oc.close()))
      await stopped(t, kind)
      if done and held.get("n"):
        ic = await InputContainer.open(path, format=fmt)
        s, got = ic.get_video_stream(0, info), []
        while True:
          try: got += await s.demux()
          except EOFError: break
        await ic.close()
        ctx.check(held["n"] <= len(got) <= held["n"] + 1, "stopped-file", lambda: (fmt, len(got), held))
        ctx.check(all(g.data == p.data for g, p in zip(got, pk * 20)), "stopped-file-data", lambda: (fmt, len(got)))
        ctx.count("stopped_files")
      ctx.count("stopped")
  else:
    which = rng.choice(("decoder", "encoder", "reformatter"))
    rig = Rig(ctx, kind=rng.choice(KINDS))
    base = dict(width=640, height=480, rate=30)
    if which == "decoder":
      cfg = VideoDecoderConfig(in_pixel_format="yuv420p", out_pixel_format="rgb24", decoder="ffv1", codec="ffv1", in_topic=1, out_topic=OUT, **base)
      await rig.start(lambda c: VideoDecoderTask(c, cfg), [1], [OUT], settle=0.1)
      for k in range(rng.randrange(8)): await rig.data(1, MediaMessage(timestamp=k * 33, packet=pk[k % len(pk)]).model_dump())
    elif which == "encoder":
      cfg = VideoEncoderConfig(in_pixel_format="rgb24", out_pixel_format="yuv420p", encoder="ffv1", codec="ffv1", in_topic=1, out_topic=OUT, **base)
      await rig.start(lambda c: VideoEncoderTask(c, cfg), [1], [OUT], settle=0.1)
      for k in range(rng.randrange(5)): await rig.data(1, {"timestamp": k * 33, "data": rng.randbytes(640 * 480 * 3)})
    else:
      cfg = VideoReformatterConfig(in_pixel_format="rgb24", out_pixel_format="yuv420p", in_rate=30, out_rate=25, in_width=640, in_height=480, out_width=320, out_height=240, in_topic=1, out_topic=OUT)
      await rig.start(lambda c: VideoReformatterTask(c, cfg), [1], [OUT], settle=0.1)
      for k in range(rng.randrange(5)): await rig.data(1, {"timestamp": k * 33, "data": rng.randbytes(640 * 480 * 3)})
    await asyncio.sleep(delay)
    rig.alive()
    await rig.finish()
    ctx.count("stopped_tasks")
  ctx.sigadd(kind, round(delay, 3))
  ctx.nontrivial = True

# ---------------------------------------------------------------- container tasks
@family("read-task", quick=24, thorough=600, loop="real")
async def read_task(ctx):
  """A file played by the input container task: every packet of every track once, in order, at its time, then the end."""
  rng = ctx.rng
  fmt = rng.choice([f for f in MUX if f != "mpegts"])
  v, a = pick_streams(rng, fmt)
  ms = MUX[fmt][2]
  want, streams, path = {}, [], os.path.join(ctx.tmpdir(), "file")
  real_time = rng.random() < 0.25
  if v: want["v"] = (await make_video(ctx, v, 5 if real_time else rng.choice((1, 5, 25))))[0]; streams.append((v, want["v"]))
  if a: want["a"] = (await make_audio(ctx, a, 5 if real_time else rng.choice((3, 10, 30))))[0]; streams.append((a, want["a"]))
  ctx.op(fmt, real_time, v and (v.codec, v.rate, v.pixel_format, v.options), a and (a.codec, a.rate, a.channels), {k: len(x) for k, x in want.items()})
  await write_file(ctx, path, fmt, streams)
  vc = [ContainerVideoInputConfig(out_topic=OUT, pixel_format=v.pixel_format, encoder=v.codec, codec=v.codec, width=v.width, height=v.height, rate=v.rate, codec_options=v.options)] if v else []
  ac = [ContainerAudioInputConfig(out_topic=OUT + 1, sample_format=a.sample_format, encoder=a.codec, codec=a.codec, channels=a.channels, rate=a.sample_rate)] if a else []
  cfg = InputContainerConfig(source=path, real_time=real_time, video_tracks=vc, audio_tracks=ac, container_options={"format": fmt})
  rig = Rig(ctx, kind=rng.choice(KINDS))
  started = []
  rig.before = lambda: started.append(asyncio.get_running_loop().time())
  await rig.start(lambda c: InputContainerTask(c, cfg), [1], [OUT, OUT + 1], settle=0)
  ctx.check(await until(rig.run.done, 30), "read-does-not-end", fmt)
  if rig.run.exception(): ctx.fail("read-fails", repr(rig.run.exception()))
  await rig.settle(0.1)
  t0 = None
  for k, info, topic in (("v", v, OUT), ("a", a, OUT + 1)):
    if not info: continue
    msgs = [(t, m) for t, m in rig.out(topic)]
    got = [MediaMessage.model_validate(m) for _, m in msgs]
    same_packets(ctx, [m.packet for m in got], want[k], info, ms, (fmt, info.codec, float(info.rate)))
    tb = float(info.time_base)
    for (t, _), m in zip(msgs, got):
      base = m.timestamp - m.packet.dts * tb * 1000
      if t0 is None: t0 = base
      ctx.check(abs(base - t0) <= 2, "message-time", lambda: (fmt, info.codec, base, t0))
      if real_time: ctx.check((t - started[0]) * 1000 >= (m.packet.dts - min(0, got[0].packet.dts)) * tb * 1000 - 150, "read-too-fast", lambda: (t - started[0], m.packet.dts * tb))
    ctx.count("played", len(got))
  ctx.sigadd(fmt, real_time, v and v.codec, a and a.codec, str({k: (len(x), sum(len(p.data) for p in x)) for k, x in want.items()}))
  ctx.nontrivial = True

@family("write-task", quick=24, thorough=600, loop="real")
async def write_task(ctx):
  """Packets recorded by the output container task and stopped: the file has them, whole, in order, in step."""
  rng = ctx.rng
  fmt = rng.choice([f for f in MUX if f != "mpegts"])
  v, a = pick_streams(rng, fmt)
  if rng.random() < 0.5 and v and a: a = None
  if v and v.options: v = VideoCodecInfo(v.width, v.height, v.frame_rate, v.pixel_format, v.codec, {})
  path, want = os.path.join(ctx.tmpdir(), "file"), {}
  if v: want["v"] = (await make_video(ctx, v, rng.choice((2, 5, 25))))[0]
  if a: want["a"] = (await make_audio(ctx, a, rng.choice((3, 10, 30))))[0]
  t0 = rng.choice((0, 1000, 10**12))
  ctx.op(fmt, t0, v and (v.codec, v.rate, v.pixel_format), a and (a.codec, a.rate, a.channels), {k: len(x) for k, x in want.items()})
  vc = [ContainerVideoOutputConfig(in_topic=1, pixel_format=v.pixel_format, encoder=v.codec, codec=v.codec, width=v.width, height=v.height, rate=v.rate)] if v else []
  ac = [ContainerAudioOutputConfig(in_topic=2, sample_format=a.sample_format, encoder=a.codec, codec=a.codec, channels=a.channels, rate=a.sample_rate)] if a else []
  cfg = OutputContainerConfig(destination=path, video_tracks=vc, audio_tracks=ac, container_options={"format": fmt})
  rig = Rig(ctx, kind=rng.choice(KINDS))
  await rig.start(lambda c: OutputContainerTask(c, cfg), [1, 2], [OUT], settle=0.15)
  events = sorted(((p.dts * info.time_base, topic, p) for info, topic, k in ((v, 1, "v"), (a, 2, "a")) if info for p in want[k]), key=lambda e: e[:2])
  first = {k: float(x[0].dts * i.time_base) for i, k, x in ((v, "v", want.get("v")), (a, "a", want.get("a"))) if i}
  low = min(first.values())
  for at, topic, p in events:
    while rng.random() < 0.05: await rig.data(topic, copy.deepcopy(rng.choice(({}, 7, "text", [1], {"data": b"1234"})))); ctx.count("malformed")
    await rig.data(topic, MediaMessage(timestamp=t0 + round(float(at - Fraction(low)) * 1000), packet=p).model_dump())
    if rng.random() < 0.2: await rig.settle(0.003)
  await rig.settle(0.15)
  rig.alive()
  await rig.finish()
  left = [t for t in asyncio.all_tasks() if "_run_stream" in repr(t.get_coro())]
  ctx.check(not left, "stopped-task-runs-on", left)
  ic = await InputContainer.open(path, format=fmt)
  readers = {k: (ic.get_video_stream if k == "v" else ic.get_audio_stream)(0, info) for k, info in (("v", v), ("a", a)) if info}
  got = {k: await read_all(ctx, r, False) for k, r in readers.items()}
  await ic.close()
  for k, info in (("v", v), ("a", a)):
    if not info: continue
    g, w = b"".join(p.data for p in got[k]), b"".join(p.data for p in want[k])
    if len(want) == 1: ctx.check(g == w, "written-data", lambda: (fmt, info.codec, len(g), len(w), len(got[k]), len(want[k])))
    else:
      # what waits for the other track when the task is stopped is not written
      ctx.check(w.startswith(g), "written-data", lambda: (fmt, info.codec, len(g), len(w), len(got[k]), len(want[k])))
      end = min(float(want[x][-1].dts * i.time_base) for x, i in (("v", v), ("a", a)))
      need = sum(len(p.data) for p in want[k] if float(p.dts * info.time_base) < end - 0.12)
      ctx.check(len(g) >= need, "written-missing", lambda: (fmt, info.codec, len(g), need, len(w)))
      ctx.count("written_together")
    if got[k] and not info.codec.startswith("pcm"):
      for x, y in zip(got[k], want[k]):
        d = ((x.dts - got[k][0].dts) - (y.dts - want[k][0].dts)) * float(info.time_base)
        ctx.check(abs(d) <= 0.003 + (float(info.time_base) if info.type == "video" else 0), "written-time", lambda: (fmt, info.codec, d, float(info.rate)))
    ctx.count("written", len(got[k]))
  ctx.sigadd(fmt, v and v.codec, a and a.codec, str({k: (len(x), sum(len(p.data) for p in x)) for k, x in want.items()}))
  ctx.nontrivial = True

@family("secret-places", quick=24, thorough=400, loop="real")
async def secret_places(ctx):
  """Where a container is may end in a secret; a task whose secret is not there fails or waits, and can always be stopped."""
  from streamtasks.client import Client
  from streamtasks.client.discovery import wait_for_address_name
  from streamtasks.client.fetch import FetchError
  from streamtasks.services.constants import NetworkAddressNames
  from streamtasks.system.secret_manager import SecretManager, SecretManagerClient
  from vlib.disco import make_pair, with_discovery
  from vlib.rig import Recorder
  rng = ctx.rng
  kind = rng.choice(("there", "there", "there", "missing", "no-manager"))
  reading = rng.random() < 0.5
  net = await with_discovery(ctx, KINDS, rng.randint(1, 2))
  os.environ["DATA_DIR"] = ctx.tmpdir()
  async def link():
    a, b, _, _ = await make_pair(rng, rng.choice(KINDS))
    await net.switches[rng.randrange(len(net.switches))].add_link(a)
    return b
  other = (await net.add_client()).client
  await asyncio.wait_for(other.request_address(), 60)
  secret, sid = rng.choice(("file.mkv", "kéy-1 2.mkv", "x" * 50)), str(uuid.UUID(int=rng.getrandbits(128), version=4))
  if kind != "no-manager":
    w = SecretManager(register_endpoits=[])
    await w.switch.add_link(await link())
    t = asyncio.create_task(w.run()); ctx.keep = [t, w]
    await asyncio.wait_for(wait_for_address_name(other, NetworkAddressNames.SECRET_MANAGER), 60)
    if kind == "there": await asyncio.wait_for(SecretManagerClient(other).put_secret(sid, secret), 60)
  v = VideoCodecInfo(32, 16, 25, "yuv420p", "ffv1", {})
  pk = (await make_video(ctx, v, 12))[0]
  base = os.path.join(ctx.tmpdir(), "")
  path = base + secret
  opt = {"format": "matroska"}
  if reading:
    await write_file(ctx, path, "matroska", [(v, pk)])
    cfg = InputContainerConfig(source=base, source_secret=sid, real_time=rng.random() < 0.3, audio_tracks=[], container_options=opt,
      video_tracks=[ContainerVideoInputConfig(out_topic=5002, pixel_format=v.pixel_format, encoder=v.codec, codec=v.codec, width=v.width, height=v.height, rate=v.rate)])
    task = InputContainerTask(Client(await link()), cfg)
  else:
    cfg = OutputContainerConfig(destination=base, destination_secret=sid, audio_tracks=[], container_options=opt,
      video_tracks=[ContainerVideoOutputConfig(in_topic=5001, pixel_format=v.pixel_format, encoder=v.codec, codec=v.codec, width=v.width, height=v.height, rate=v.rate)])
    task = OutputContainerTask(Client(await link()), cfg)
  rec = Recorder(other, [5002], ctx)
  await rec.start_recv()
  feed = other.out_topic(5001)
  await feed.start()
  await feed.set_registered(True)
  await asyncio.sleep(0.1)
  ctx.op(kind, reading, secret)
  run = asyncio.create_task(task.run())
  if kind == "missing":
    ctx.check(await until(run.done, 10), "missing-secret-unnoticed", secret)
    ctx.check(isinstance(run.exception(), FetchError), "missing-secret", lambda: repr(run.exception()))
    ctx.count("secrets_missing")
  elif kind == "no-manager":
    await asyncio.sleep(rng.choice((0, 0.05, 0.3)))
    ctx.check(not run.done(), "no-manager-unnoticed", lambda: run)
    ctx.count("secrets_unresolved")
  elif reading:
    ctx.check(await until(run.done, 15), "secret-read-does-not-end", secret)
    if run.exception(): ctx.fail("secret-read-fails", repr(run.exception()))
    await asyncio.sleep(0.1)
    got = b"".join(MediaMessage.model_validate(m).packet.data for _, _, k, m in rec.log if k == "data")
    ctx.check(got == b"".join(p.data for p in pk), "secret-read", lambda: (secret, len(got)))
    ctx.count("secrets_read")
  else:
    ctx.check(await until(lambda: feed.is_requested or run.done(), 15), "secret-unused", lambda: (secret, run))
    ctx.check(not run.done(), "secret-write-ends-early", lambda: run)
    for p in pk: await feed.send(RawData(MediaMessage(timestamp=round(float(p.dts * v.time_base) * 1000), packet=p).model_dump()))
    await asyncio.sleep(0.5)
    ctx.eq(os.listdir(base), [secret], "secret-place")
    ctx.check(not run.done(), "secret-write-ends", lambda: run)
  run.cancel()
  await asyncio.wait([run], timeout=20)
  ctx.check(run.done(), "secret-task-does-not-stop", kind)
  if kind != "missing" and not run.cancelled() and run.exception(): ctx.fail("secret-task-fails-on-stop", (kind, repr(run.exception())))
  if kind == "there" and not reading:
    ic = await InputContainer.open(path, format="matroska")
    got = await read_all(ctx, ic.get_video_stream(0, v), False)
    await ic.close()
    ctx.check(b"".join(p.data for p in got) == b"".join(p.data for p in pk), "secret-written", lambda: (secret, len(got)))
    ctx.count("secrets_written")
  ctx.sigadd(kind, reading, secret, len(pk))
  ctx.nontrivial = True
