"""C41: tasks between topics and devices or models, which are stood in for by vlib/devices.py."""
import asyncio, glob, json, math, os, re, shutil, struct, threading
import numpy as np
from vlib import devices
from PIL import Image, ImageColor, ImageDraw, ImageFont
from streamtasks.asgiserver import ASGIRouter, ASGIServer
from streamtasks.net.messages import TopicControlData
from streamtasks.system.tasks.media.audioinput import AudioInputConfig, AudioInputTask, AudioInputTaskHost
from streamtasks.system.tasks.media.audiooutput import AudioOutputConfig, AudioOutputTask, AudioOutputTaskHost
from streamtasks.system.tasks.media.screencapture import ScreenCaptureConfig, ScreenCaptureTask
from streamtasks.system.tasks.media.textrenderer import TextRendererConfig, TextRendererTask
from streamtasks.system.tasks.media.videoinput import VideoInputConfig, VideoInputTask
from streamtasks.system.tasks.inference.asrspeechrecognition import ASRSpeechRecognitionConfig, ASRSpeechRecognitionTask
from streamtasks.system.tasks.inference.fastspeech2tts import FastSpeech2TTSConfig, FastSpeech2TTSTask
from streamtasks.system.tasks.inference.llamacppchat import LLamaCppChatConfig, LLamaCppChatTask
from streamtasks.system.tasks.inference.smespeechenhancement import SMESpeechEnhancementConfig, SMESpeechEnhancementTask
from streamtasks.system.tasks.inference.waveformspeechenhancement import WaveformSpeechEnhancementConfig, WaveformSpeechEnhancementTask
from vlib.core import family
from vlib.rig import Rig
from vlib.taskmodel import OUT
from vlib.values import text as any_text

KINDS = ("queue", "rawqueue", "v-zero", "y-zero")
BAD_AUDIO = ({}, {"timestamp": 5}, {"timestamp": "x", "data": b"\0" * 8}, {"timestamp": 5, "data": None}, 7, "text", [1], {"data": b"\0" * 8})
BAD_TEXT = ({}, {"timestamp": 5}, {"timestamp": "x", "value": "a"}, {"timestamp": 5, "value": None}, 7, "text", [1], {"value": "a"}, {"timestamp": 5, "value": ["a"]})

async def until(cond, t=20):
  end = asyncio.get_running_loop().time() + t
  while not cond():
    if asyncio.get_running_loop().time() > end: return False
    await asyncio.sleep(0.005)
  return True

async def start(ctx, make, ins, outs):
  os.environ["DATA_DIR"] = ctx.tmpdir()
  w = devices.fresh()
  w.delay = lambda d=ctx.rng.choice((0.0005, 0.002, 0.01)): d
  return w, Rig(ctx, kind=ctx.rng.choice(KINDS)), (make, ins, outs)

def busy(ctx, w):
  """Some devices and models do not go on before everything was sent (the returned function lets them)."""
  if ctx.rng.random() < 0.6: return False, lambda: asyncio.sleep(0)
  gate, d = threading.Event(), w.delay()
  def delay():
    gate.wait(15)
    return d / 10
  w.delay = delay
  async def go():
    await asyncio.sleep(0.05)
    gate.set()
    ctx.count("bursts")
  ctx.cleanups.append(gate.set)
  return True, go

async def stop(ctx, w, rig):
  await rig.finish()
  ctx.eq(w.open, 0, "device-left-open", [e[0] for e in w.events][-6:])
  ctx.count("released")

async def record(ctx, w, rig, task, outs, kind):
  """Lets a task with a device record; returns the data messages and whether the device failed on it."""
  rng = ctx.rng
  want = rng.randint(3, 25)
  if w.fail_at is not None: rig.alive = lambda: None
  await rig.start(task, [], outs, settle=0)
  if w.fail_at is None:
    ctx.check(await until(lambda: len(rig.out(OUT)) >= want or rig.run.done()), "nothing-recorded", lambda: (len(rig.out(OUT)), want, len(w.of(kind))))
    await stop(ctx, w, rig)
    return rig.out(OUT)
  ctx.check(await until(lambda: rig.run.done()), "failure-unnoticed", lambda: [e[0] for e in w.events][-6:])
  ctx.check(rig.run.exception() is not None, "failure-hidden", lambda: w.events[-3:])
  await rig.settle(0.05)
  ctx.count("device_failures")
  ctx.eq(w.open, 0, "device-left-open", [e[0] for e in w.events][-6:])
  return rig.out(OUT)

def maybe_fails(ctx, w, points):
  if ctx.rng.random() < 0.2: w.fail_at = ctx.rng.choice(points)

# ---------------------------------------------------------------- devices that record
@family("screen", quick=48, thorough=1500, loop="real")
async def screen(ctx):
  """Every picture is the configured part of the screen, in order, one per frame time at most, stamped with when it was taken."""
  rng = ctx.rng
  left, top = (rng.choice((0, 0, rng.randrange(300))) for _ in range(2))
  width, height = (rng.choice((1, 2, 16, 33, 120, rng.randrange(1, 400))) for _ in range(2))
  rate, alpha = rng.choice((20, 50, 100, 59.94, 1000)), rng.choice((255, 255, 0, 128, 1))
  display, cursor = rng.choice(("", ":1")), rng.random() < 0.5
  cfg = ScreenCaptureConfig(out_topic=OUT, left_offset=left, top_offset=top, width=width, height=height, rate=rate, set_alpha=alpha, display=display, with_cursor=cursor)
  ctx.op(left, top, width, height, rate, alpha)
  w, rig, _ = await start(ctx, None, [], [OUT])
  maybe_fails(ctx, w, (0, 1, 5))
  got = await record(ctx, w, rig, lambda c: ScreenCaptureTask(c, cfg), [OUT], "grab")
  opened = w.of("screen")
  ctx.eq(len(opened), 1, "screens-opened")
  ctx.eq((opened[0][1].get("display"), bool(opened[0][1].get("with_cursor"))), (display or None, cursor), "screen-options")
  grabs = w.of("grab")
  last = None
  for _, m in got:
    ctx.check(len(m["data"]) == width * height * 4, "picture-size", lambda: (len(m["data"]), width, height))
    px = np.frombuffer(m["data"], np.uint8).reshape((height, width, 4))
    n = int(px[0, 0, 2])
    want = devices.screen_pixels(left, top, width, height, n, alpha or w.native_alpha)
    ctx.check((px == want).all(), "picture", lambda: (cfg, px[0, 0].tolist(), want[0, 0].tolist(), px[-1, -1].tolist(), want[-1, -1].tolist()))
    ctx.check(last is None or n == last[0] + 1, "picture-order", lambda: (last, n))
    taken = grabs[n][3] * 1000
    ctx.check(type(m["timestamp"]) is int and taken - 1 <= m["timestamp"] <= taken + 3000 and (last is None or m["timestamp"] >= last[1]), "picture-time", lambda: (m["timestamp"], taken, last))
    last = n, m["timestamp"]
    ctx.count("pictures")
  for a, b in zip(grabs, grabs[1:]): ctx.check(b[1] == a[1], "picture-place", lambda: (a, b))
  if len(grabs) > 1:
    k = len(grabs) - 1
    ctx.check(grabs[k][3] - grabs[0][3] >= (k - 1) / rate - 0.05 - grabs[0][2], "too-fast", lambda: (k, rate, grabs[k][3] - grabs[0][3])) if rate < 1000 else None
  ctx.sigadd(left, top, width, height, rate, alpha, len(got))
  ctx.nontrivial = bool(got)

@family("camera", quick=48, thorough=1500, loop="real")
async def camera(ctx):
  """Every frame of the camera, in order, in the configured size and format, at least one frame time after the one before."""
  rng = ctx.rng
  size = rng.choice(((64, 48), (2, 2), (33, 17), (160, 120)))
  resized = rng.random() < 0.3
  width, height = size if not resized else (rng.randint(1, 100), rng.randint(1, 100))
  fmt, rate, cam = rng.choice(("rgb24", "bgra", "gray", "bgr24")), rng.choice((10, 25, 29.97, 60, 1000)), rng.randrange(4)
  cfg = VideoInputConfig(out_topic=OUT, width=width, height=height, rate=rate, pixel_format=fmt, camera_id=cam)
  ctx.op(size, width, height, fmt, rate, cam)
  w, rig, _ = await start(ctx, None, [], [OUT])
  w.size, w.solid = size, resized
  maybe_fails(ctx, w, (-1, 0, 3))
  got = await record(ctx, w, rig, lambda c: VideoInputTask(c, cfg), [OUT], "frame")
  import cv2
  ctx.eq([e[1] for e in w.of("camera")], [cam], "camera-opened")
  ctx.check(w.fail_at == -1 or ("camera-set", cv2.CAP_PROP_FPS, rate) in w.of("camera-set"), "camera-rate", lambda: w.of("camera-set"))
  frames, last, n0 = w.of("frame"), None, None
  for i, (_, m) in enumerate(got):
    depth = {"rgb24": 3, "bgra": 4, "gray": 1, "bgr24": 3}[fmt]
    ctx.check(len(m["data"]) == width * height * depth, "frame-size", lambda: (len(m["data"]), cfg))
    px = np.frombuffer(m["data"], np.uint8).reshape((height, width, depth)).astype(int)
    if i == 0: # the first ones may be from before anybody listened
      n0 = next((n for n in range(len(frames)) if same_frame(px, devices.camera_frame(size, n, resized), width, height, fmt)), None)
      ctx.check(n0 is not None, "frame", lambda: (cfg, px[0, 0].tolist()))
    n = n0 + i
    ctx.check(n < len(frames) and same_frame(px, devices.camera_frame(size, n, resized), width, height, fmt), "frame", lambda: (cfg, n, px[0, 0].tolist(), devices.camera_frame(size, n, resized)[0, 0].tolist()))
    taken = frames[n][2] * 1000
    ctx.check(type(m["timestamp"]) is int and m["timestamp"] >= math.floor(taken) and (last is None or m["timestamp"] >= last + math.floor(1000 / rate)), "frame-time", lambda: (m["timestamp"], taken, last, rate))
    ctx.check(m["timestamp"] <= max(taken + 3000, (last or 0) + 1000 / rate + 1), "frame-time-late", lambda: (m["timestamp"], taken, last, rate))
    last = m["timestamp"]
    ctx.count("camera_frames")
  ctx.sigadd(size, width, height, fmt, rate, len(got))
  ctx.nontrivial = bool(got)

def same_frame(px, bgr, width, height, fmt):
  if bgr.shape[:2] != (height, width):
    if (bgr != bgr[0, 0]).any(): return False
    bgr = np.broadcast_to(bgr[0, 0], (height, width, 3))
  bgr = bgr.astype(int)
  if fmt == "bgr24": return (px == bgr).all()
  if fmt == "rgb24": return (px == bgr[..., ::-1]).all()
  if fmt == "bgra": return (px[..., :3] == bgr).all() and (px[..., 3] == 255).all()
  return (abs(px[..., 0] - (bgr * (0.114, 0.587, 0.299)).sum(2)) <= 1.01).all()

DTYPES = {"flt": "float32", "u8": "uint8", "s16": "int16", "s32": "int32"}

@family("record", quick=48, thorough=1500, loop="real")
async def record_sound(ctx):
  """The recorded sound, every sample once and in order, in pieces whose times do not overlap."""
  rng = ctx.rng
  fmt, channels, rate, device, size = rng.choice(list(DTYPES)), rng.choice((1, 1, 2, 6)), rng.choice((8000, 32000, 44100, 48000)), rng.choice((-1, 0, 3)), rng.choice((1, 100, 441, 4096))
  cfg = AudioInputConfig(out_topic=OUT, sample_format=fmt, channels=channels, rate=rate, device_index=device, buffer_size=size)
  ctx.op(fmt, channels, rate, device, size)
  w, rig, _ = await start(ctx, None, [], [OUT])
  if rng.random() < 0.2: w.fail_at = rng.choice((0, 1, size * channels * 12))
  got = await record(ctx, w, rig, lambda c: AudioInputTask(c, cfg), [OUT], "read")
  opened = w.of("record")
  ctx.eq(len(opened), 1, "streams-opened")
  ctx.eq({k: opened[0][1][k] for k in ("samplerate", "channels", "dtype", "device")}, {"samplerate": rate, "channels": channels, "dtype": DTYPES[fmt], "device": None if device == -1 else device}, "stream-options")
  frame = channels * devices.SIZES[DTYPES[fmt]]
  reads, at, last = w.of("read"), None, None
  for i, (_, m) in enumerate(got):
    n = len(m["data"])
    ctx.check(n and n % frame == 0, "piece-size", lambda: (n, frame))
    if at is None:
      at = next((r[2] - n for r in reads if devices.sound(r[2] - n, n) == m["data"]), None)
      ctx.check(at is not None, "sound", lambda: (cfg, m["data"][:8]))
    ctx.check(m["data"] == devices.sound(at, n), "sound", lambda: (cfg, at, n, m["data"][:8], devices.sound(at, 8)))
    at += n
    taken = next(r[3] for r in reads if r[2] >= at) * 1000
    dur = n / frame * 1000 / rate
    ctx.check(type(m["timestamp"]) is int and m["timestamp"] >= math.floor(taken) and (last is None or m["timestamp"] >= math.floor(last)), "piece-time", lambda: (m["timestamp"], taken, last))
    ctx.check(m["timestamp"] <= max(taken + 3000, (last or 0) + 1), "piece-time-late", lambda: (m["timestamp"], taken, last))
    last = m["timestamp"] + math.floor(dur)
    ctx.count("pieces")
  ctx.sigadd(fmt, channels, rate, size, len(got))
  ctx.nontrivial = bool(got)

# ---------------------------------------------------------------- a device that plays
@family("play", quick=48, thorough=1500, loop="real")
async def play(ctx):
  """Every piece of sound is played once, in order, and whatever is not sound changes nothing."""
  rng = ctx.rng
  fmt, channels, rate, device, size = rng.choice(list(DTYPES)), rng.choice((1, 1, 2, 6)), rng.choice((8000, 32000, 48000)), rng.choice((-1, 0, 3)), rng.choice((1, 100, 4096))
  cfg = AudioOutputConfig(in_topic=1, sample_format=fmt, channels=channels, rate=rate, device_index=device, buffer_size=size)
  ctx.op(fmt, channels, rate, device, size)
  w, rig, _ = await start(ctx, None, [], [])
  await rig.start(lambda c: AudioOutputTask(c, cfg), [1], [], settle=0.1)
  frame, want, ts = channels * devices.SIZES[DTYPES[fmt]], [], 1000
  burst, go = busy(ctx, w)
  for _ in range(rng.randint(50, 500) if burst else rng.randint(1, 40)):
    ts += rng.choice((0, 1, 20, -5))
    k = rng.random()
    if k < 0.12: await rig.data(1, rng.choice(BAD_AUDIO)); ctx.count("malformed")
    elif k < 0.2 and frame > 1: await rig.data(1, {"timestamp": ts, "data": rng.randbytes(frame * rng.randint(1, 20) + rng.randrange(1, frame))}); ctx.count("malformed") # a part of a frame
    elif k < 0.25: await rig.pause(1, True); await rig.pause(1, False)
    else:
      d = rng.randbytes(frame * rng.choice((1, 7) if burst else (1, 7, 100, 1000)))
      want.append(d)
      await rig.data(1, {"timestamp": ts, "data": d})
    if not burst and rng.random() < 0.2: await rig.settle(rng.choice((0, 0.003, 0.02)))
  await go()
  def played(): return b"".join(e[1] for e in w.of("write"))
  total = b"".join(want)
  ctx.check(await until(lambda: len(played()) >= len(total) or rig.run.done()), "sound-missing", lambda: (len(played()), len(total)))
  await rig.settle(0.02)
  rig.alive()
  ctx.check(played() == total, "sound-played", lambda: (len(played()), len(total), [len(d) for d in want][:9], [len(e[1]) for e in w.of("write")][:9]))
  opened = w.of("play")
  ctx.eq(len(opened), 1, "streams-opened")
  ctx.eq({k: opened[0][1][k] for k in ("samplerate", "channels", "dtype", "device")}, {"samplerate": rate, "channels": channels, "dtype": DTYPES[fmt], "device": None if device == -1 else device}, "stream-options")
  ctx.count("played", len(want))
  await stop(ctx, w, rig)
  ctx.sigadd(fmt, channels, rate, len(want), len(total))
  ctx.nontrivial = bool(want)

@family("device-lists", quick=24, thorough=400)
async def device_lists(ctx):
  """The editor is offered the default and every other device of the right direction."""
  import sounddevice
  rng = ctx.rng
  out = rng.random() < 0.5
  devices.fresh()
  default = sounddevice.default.device = [rng.randrange(8), rng.randrange(8)]
  router = ASGIRouter()
  await (AudioOutputTaskHost if out else AudioInputTaskHost)().register_routes(router)
  server = ASGIServer(); server.add_handler(router)
  sent = []
  async def receive(): return {"type": "http.request", "body": b"", "more_body": False}
  async def send(m): sent.append(m)
  await server({"type": "http", "method": "GET", "path": "/devices", "raw_path": b"/devices", "query_string": b"", "headers": [], "http_version": "1.1", "scheme": "http", "root_path": "", "server": None, "client": None}, receive, send)
  ctx.eq(sent[0].get("status"), 200, "device-list-status")
  items = json.loads(b"".join(m.get("body", b"") for m in sent[1:]))
  key = "max_output_channels" if out else "max_input_channels"
  want = [("default", -1)] + [(d["name"], d["index"]) for d in sounddevice.DEVICES if d[key] > 0 and d["index"] != default[1 if out else 0]]
  ctx.eq([(i["label"], i["value"]) for i in items], want, "device-list")
  ctx.count("device_lists"); ctx.sigadd(out, default)
  ctx.nontrivial = True

# ---------------------------------------------------------------- models
async def feed_audio(ctx, rig, pieces, rate, t0, bad=0.12):
  """Sends the pieces (arrays) as one continuous stream, with malformed messages between them."""
  pos = 0
  for p in pieces:
    if ctx.rng.random() < bad:
      ctx.count("malformed")
      await rig.data(1, ctx.rng.choice(BAD_AUDIO + ({"timestamp": t0 + pos * 1000 // rate, "data": b"\1" * (4 * ctx.rng.randrange(5) + ctx.rng.randint(1, 3))},) * 6))
    await rig.data(1, {"timestamp": t0 + pos * 1000 // rate, "data": p.astype(np.float32).tobytes()})
    pos += p.size
    if ctx.rng.random() < 0.2: await rig.settle(ctx.rng.choice((0, 0.003)))

async def pauses(ctx, rig):
  """The output is paused while the input is."""
  for p in ctx.rng.choice(((), (True,), (True, False), (True, False, True))):
    await rig.pause(1, p)
    ctx.check(await until(lambda: rig.out_paused(OUT) == p), "pause-lost", lambda: (p, rig.log[-4:]))
    ctx.count("pauses")

def cut(rng, stream, burst=False):
  pieces, i = [], 0
  while i < len(stream):
    n = rng.choice((1, 160, 100)) if burst and len(pieces) < 400 else rng.choice((1, 160, 1000, 4096, rng.randrange(1, 20000)))
    pieces.append(stream[i:i + n]); i += n
  return pieces

@family("enhance", quick=40, thorough=1200, loop="real")
async def enhance(ctx):
  """A model that changes nothing but the volume leaves the sound as it was: every sample once, in order, on time; silence stays silence."""
  rng = ctx.rng
  C, T = rng.choice(((SMESpeechEnhancementConfig, SMESpeechEnhancementTask), (WaveformSpeechEnhancementConfig, WaveformSpeechEnhancementTask)))
  dur = rng.choice((10, 50, 100, 137, 1000))
  cfg = C(out_topic=OUT, in_topic=1, source="org/Model-" + str(rng.randrange(9)), device=rng.choice(("cpu", "cuda:0")), buffer_duration=dur)
  w, rig, _ = await start(ctx, None, [1], [OUT])
  gains, silent = rng.choice(("one", "half", "random")), rng.random() < 0.5
  g = np.random.default_rng(rng.randrange(2**32))
  w.reply = lambda a: a * np.float32({"one": 1, "half": 0.5}.get(gains) or g.uniform(0.1, 3))
  size = dur * 16
  n = size * rng.randint(2, 8) + rng.randrange(size)
  stream = g.uniform(-1, 1, n).astype(np.float32)
  if silent: a = rng.randrange(n); stream[a:a + rng.choice((size * 2, size * 4, n))] = 0
  t0 = rng.choice((0, 1000, 10**12))
  ctx.op(T.__name__, dur, gains, silent, n)
  burst, go = busy(ctx, w)
  await rig.start(lambda c: T(c, cfg), [1], [OUT], settle=0.1)
  await feed_audio(ctx, rig, cut(rng, stream, burst), 16000, t0)
  await go()
  pad = size // 4
  want = max(0, (n - 2 * pad) // size)
  ctx.check(await until(lambda: len(rig.out(OUT)) >= want or rig.run.done()), "enhanced-missing", lambda: (len(rig.out(OUT)), want, n, size))
  rig.alive()
  await rig.settle(0.02)
  got = rig.out(OUT)
  ctx.eq(len(got), want, "enhanced-pieces", (n, size))
  for i, (_, m) in enumerate(got):
    a = np.frombuffer(m["data"], np.float32)
    first = pad + i * size
    ctx.eq(a.size, size, "enhanced-length", i)
    ctx.check(np.isfinite(a).all(), "enhanced-not-a-number", lambda: (i, a[:4]))
    ctx.check(np.allclose(a, stream[first:first + size], atol=1e-4), "enhanced-sound", lambda: (i, a[:4], stream[first:first + 4], int(np.abs(a - stream[first:first + size]).argmax())))
    ctx.check(abs(m["timestamp"] - (t0 + first * 1000 / 16000)) <= 2.001, "enhanced-time", lambda: (i, m["timestamp"], t0 + first / 16))
    ctx.count("enhanced")
  for e in w.of("enhance"): ctx.check(e[1].shape == (1, size + 2 * pad) and e[2] == [1.0], "model-input", lambda: (e[1].shape, e[2]))
  model(ctx, w, cfg)
  await pauses(ctx, rig)
  await stop(ctx, w, rig)
  ctx.sigadd(T.__name__, dur, gains, n)
  ctx.nontrivial = want > 0

def model(ctx, w, cfg):
  """The configured model is loaded once, to the configured device, kept in the data directory."""
  loads = [e for e in w.of("load") if e[2] == cfg.source]
  ctx.eq(len(loads), 1, "models-loaded", w.of("load"))
  ctx.eq(loads[0][4], {"device": cfg.device}, "model-device")
  ctx.check(os.path.realpath(loads[0][3]).startswith(os.path.realpath(os.environ["DATA_DIR"]) + os.sep), "model-place", lambda: loads)

@family("recognize", quick=40, thorough=1200, loop="real")
async def recognize(ctx):
  """The model hears every sample once, in order, in the configured pieces; what it says comes out in lower case, at the time it was said."""
  rng = ctx.rng
  cfg = ASRSpeechRecognitionConfig(out_topic=OUT, in_topic=1, source="org/asr" + str(rng.randrange(9)), device=rng.choice(("cpu", "cuda:0")), chunk_size=rng.choice((8, 12, 16, 24, 32)), left_context_size=rng.randint(1, 32))
  w, rig, _ = await start(ctx, None, [1], [OUT])
  said = []
  size = cfg.chunk_size * 320
  def reply(a):
    said.append(rng2.choice(("", "", "HELLO", "Ä B", "x", "It's 5")) + (str(len(said)) if rng2.random() < 0.5 else ""))
    return said[-1]
  import random
  rng2 = random.Random(rng.random())
  w.reply = reply
  n = size * rng.randint(1, 12) + rng.randrange(size)
  stream = np.random.default_rng(rng.randrange(2**32)).uniform(-1, 1, n).astype(np.float32)
  t0 = rng.choice((0, 1000, 10**12))
  ctx.op(cfg.chunk_size, n)
  burst, go = busy(ctx, w)
  await rig.start(lambda c: ASRSpeechRecognitionTask(c, cfg), [1], [OUT], settle=0.1)
  await feed_audio(ctx, rig, cut(rng, stream, burst), 16000, t0)
  await go()
  want = n // size
  ctx.check(await until(lambda: len(said) >= want or rig.run.done()), "chunks-missing", lambda: (len(said), want))
  rig.alive()
  await rig.settle(0.03)
  heard = w.of("transcribe")
  ctx.eq(len(heard), want, "chunks-heard", (n, size))
  for i, e in enumerate(heard): ctx.check(e[1].shape == (1, size) and (e[1][0] == stream[i * size:(i + 1) * size]).all(), "heard", lambda: (i, e[1].shape))
  exp = [(i, s.lower()) for i, s in enumerate(said) if s]
  ctx.check(await until(lambda: len(rig.out(OUT)) >= len(exp), 5), "text-missing", lambda: (rig.out(OUT), exp))
  got = rig.out(OUT)
  ctx.eq([m["value"] for _, m in got], [s for _, s in exp], "recognized")
  for (_, m), (i, _) in zip(got, exp): ctx.check(abs(m["timestamp"] - (t0 + i * size / 16)) <= 2.001, "recognized-time", lambda: (m, i, t0 + i * size / 16))
  ctx.eq(w.of("context"), [("context", cfg.chunk_size, cfg.left_context_size)], "context")
  model(ctx, w, cfg)
  ctx.count("heard", want); ctx.count("recognized", len(got))
  await pauses(ctx, rig)
  await stop(ctx, w, rig)
  ctx.sigadd(cfg.chunk_size, n, tuple(said))
  ctx.nontrivial = want > 0

WORDS = ("a", "hello", "world", "x" * 40, "it's", "3.5", "e.g.", "ä", "Dr", "really?", "wow!", "end.", "so", "the", "quick", "brown", "...", "y" * 230, "(yes)", "5%")

@family("speak", quick=40, thorough=1200, loop="real")
async def speak(ctx):
  """Every word of a text is spoken, in order, as configured; what is spoken follows one another in time."""
  rng = ctx.rng
  cfg = FastSpeech2TTSConfig(out_topic=OUT, in_topic=1, source="org/tts", device=rng.choice(("cpu", "cuda:0")), pace=rng.choice((1, 0.5, 2)), energy=rng.choice((1, 0.7, 1.5)), pitch=rng.choice((1, 0.8, 1.2)))
  w, rig, _ = await start(ctx, None, [1], [OUT])
  fails = rng.random() < 0.2
  count = [0]
  def reply(s):
    if fails and "wow" in s: raise RuntimeError("Calculated padded input size per channel: (2). Kernel size: (3).")
    count[0] += 1
    return np.full(rng.choice((1, 500, 2205, 22050, 5000)), count[0], np.float32)
  w.reply = reply
  await rig.start(lambda c: FastSpeech2TTSTask(c, cfg), [1], [OUT], settle=0.1)
  texts, ts = [], rng.choice((0, 1000, 10**12))
  burst, go = busy(ctx, w)
  for _ in range(rng.randint(40, 150) if burst else rng.randint(1, 8)):
    if rng.random() < 0.15: await rig.data(1, rng.choice(BAD_TEXT)); ctx.count("malformed")
    t = rng.choice(("", " ", "\n")).join([]) + rng.choice((" ", " ", "  ", "\n", "\t")).join(rng.choice(WORDS) for _ in range(rng.choice((0, 1, 3) if burst else (0, 1, 3, 10, 60))))
    if rng.random() < 0.2: t = rng.choice((" ", "\n")) + t + " "
    ts += rng.choice((1, 1000, 10**6))
    texts.append((ts, t)); ctx.op(ts, t)
    await rig.data(1, {"timestamp": ts, "value": t})
  marker = (ts + 1, "last words")
  await rig.data(1, {"timestamp": marker[0], "value": marker[1]})
  await go()
  ctx.check(await until(lambda: any(e[1] == ["last words"] for e in w.of("encode")) or rig.run.done()), "text-unspoken", lambda: (w.of("encode")[-2:], texts))
  rig.alive()
  spoken = w.of("encode")
  ok = [e for e in spoken if not (fails and "wow" in e[1][0])]
  ctx.check(await until(lambda: len(rig.out(OUT)) >= len(ok), 5), "speech-missing", lambda: (len(rig.out(OUT)), len(ok)))
  got = [m for _, m in rig.out(OUT)]
  ctx.eq(len(got), len(ok), "speeches")
  for e in spoken:
    ctx.eq(len(e[1]), 1, "sentences-at-once")
    ctx.eq((e[2], e[3], e[4]), (cfg.pace, cfg.pitch, cfg.energy), "voice")
    ctx.check(0 < len(e[1][0]) <= 200, "sentence-length", lambda: (len(e[1][0]), e[1]))
    ctx.check(not re.search(r"[.!?]\s", e[1][0]), "sentences-at-once", lambda: e[1])
    ctx.count("sentences")
  # the words, but for what ends a sentence
  def plain(s): return re.sub(r"[.!?\s]+", "", s)
  todo, i, k = list(texts) + [marker], 0, 0
  for ts, t in todo:
    rest, now, n = plain(t), ts, 0
    while rest and i < len(spoken):
      s = plain(spoken[i][1][0])
      ctx.check(rest.startswith(s), "words", lambda: (t, s, rest))
      failed = fails and "wow" in spoken[i][1][0]
      i += 1
      if failed: break # the rest of the text is given up
      rest = rest[len(s):]
      m = got[k]; k += 1
      a = np.frombuffer(m["data"], np.float32)
      ctx.check((a == k).all() and a.size, "speech", lambda: (k, a[:3]))
      ctx.check(abs(m["timestamp"] - now) <= 1.001, "speech-time", lambda: {"text": t, "text at": ts, "sentence": n, "said at": m["timestamp"], "follows at": now})
      now += a.size * 1000 / 22050; n += 1
      ctx.count("speeches")
      if n > 1: ctx.count("later_sentences")
    else: ctx.eq(rest, "", "words-unspoken", t)
  ctx.eq(i, len(spoken), "words-invented")
  model(ctx, w, cfg)
  await pauses(ctx, rig)
  await stop(ctx, w, rig)
  ctx.sigadd(tuple(texts))
  ctx.nontrivial = bool(got)

@family("chat", quick=40, thorough=1200, loop="real")
async def chat(ctx):
  """Every message is answered once, in order, with everything said before that fits the context: the oldest is forgotten first, the system message never."""
  rng = ctx.rng
  system = rng.choice(("", "be brief", "you are a pirate and you speak like one"))
  cfg = LLamaCppChatConfig(out_topic=OUT, in_topic=1, src_model="/m/" + str(rng.randrange(9)), use_gpu=rng.random() < 0.5, context_length=rng.choice((40, 60, 512) if system else (18, 20, 60, 512)), max_tokens=rng.choice((0, 0, 3, 8)), system_message=system)
  w, rig, _ = await start(ctx, None, [1], [OUT])
  replies = []
  def reply(messages):
    replies.append(" ".join(f"r{len(replies)}w{i}" for i in range(rng2.randint(1, 6))))
    return replies[-1]
  import random
  rng2 = random.Random(rng.random())
  w.reply = reply
  await rig.start(lambda c: LLamaCppChatTask(c, cfg), [1], [OUT], settle=0.1)
  sent, ts = [], 1000
  burst, go = busy(ctx, w)
  for i in range(rng.randint(40, 120) if burst else rng.randint(1, 25)):
    if rng.random() < 0.15: await rig.data(1, rng.choice(BAD_TEXT)); ctx.count("malformed")
    ts += rng.choice((1, 500))
    sent.append((ts, " ".join(f"q{i}w{j}" for j in range(rng.randint(1, 9)))))
    await rig.data(1, {"timestamp": ts, "value": sent[-1][1]})
    if not burst and rng.random() < 0.2: await rig.settle(0.01)
  await go()
  ctx.check(await until(lambda: len(rig.out(OUT)) >= len(sent) or rig.run.done()), "answer-missing", lambda: (len(rig.out(OUT)), len(sent)))
  rig.alive()
  await rig.settle(0.02)
  got = [m for _, m in rig.out(OUT)]
  ctx.eq(len(got), len(sent), "answers")
  calls = w.of("chat")
  history, k = [], 0     # all that was said
  head = [{"role": "system", "content": system}] if system else []
  for m, (ts, q) in zip(got, sent):
    ctx.eq(m["timestamp"], ts, "answer-time", q)
    history.append({"role": "user", "content": q})
    mine = []
    while k < len(calls) and calls[k][1] and calls[k][1][-1] == history[-1]: mine.append(calls[k]); k += 1
    ctx.check(mine, "not-asked", lambda: (q, calls[k:k + 1]))
    final = mine[-1]
    for c in mine:
      ctx.check(c[1][:len(head)] == head, "system-message", lambda: c[1][:2])
      body = c[1][len(head):]
      ctx.check(body == history[len(history) - len(body):], "history", lambda: (body, history[-len(body):]))
      ctx.eq(c[2], cfg.max_tokens or None, "max-tokens")
    for c in mine[:-1]: # asked again only as the answer was cut off by the end of the context
      ctx.eq(sum(len(x["content"].split()) for x in c[1]) + len(c[3].split()), cfg.context_length, "asked-again")
    total = sum(len(x["content"].split()) for x in final[1]) + len(final[3].split())
    ctx.check(total < cfg.context_length or len(final[1]) == len(head) + 1, "answer-cut-off", lambda: (q, final))
    ctx.eq(m["value"], final[3], "answer", q)
    history.append({"role": "assistant", "content": m["value"]})
    body = final[1][len(head):]
    kept = len(body)
    if kept < len(history) - 1: ctx.count("forgotten")
    # no more is forgotten than needed: with one message more the answer would not have fitted
    if kept < len(history) - 1 and kept > last_kept(ctx) + 2: ctx.fail("remembers-again", (kept, len(history)))
    ctx.kept = kept
    ctx.count("answers")
  ctx.eq(k, len(calls), "asked-too-often")
  ctx.eq(w.of("llama"), [("llama", cfg.src_model, -1 if cfg.use_gpu else 0, cfg.context_length)], "llama")
  if sum(len(h["content"].split()) for h in head + history) < cfg.context_length - 10: ctx.eq(len(calls[-1][1]), len(head) + len(history) - 1, "forgets")
  await pauses(ctx, rig)
  await stop(ctx, w, rig)
  ctx.sigadd(cfg.context_length, cfg.max_tokens, tuple(sent), tuple(replies))
  ctx.nontrivial = bool(got)

def last_kept(ctx): return getattr(ctx, "kept", 10**9)

# ---------------------------------------------------------------- text as pictures
FONTS = sorted(glob.glob(os.path.join(os.path.dirname(__import__("cv2").__file__), "qt", "fonts", "*.ttf")))

@family("render", quick=48, thorough=1500, loop="real")
async def render(ctx):
  """One picture per text, same time, of the configured size, with the text where, how and in the color configured."""
  rng = ctx.rng
  home, old = ctx.tmpdir(), {k: os.environ.get(k) for k in ("HOME", "XDG_DATA_HOME", "XDG_DATA_DIRS")}
  def back():
    for k, v in old.items():
      if v is None: os.environ.pop(k, None)
      else: os.environ[k] = v
  ctx.cleanups.append(back)
  os.environ["HOME"] = home
  for k in ("XDG_DATA_HOME", "XDG_DATA_DIRS"): os.environ.pop(k, None)
  path = os.path.join(home, ".fonts", rng.choice(("", "sub/deep")), "vtfont.ttf")
  os.makedirs(os.path.dirname(path))
  src = rng.choice(FONTS) if FONTS else None
  if src: shutil.copy(src, path)
  else: open(path, "wb").write(ImageFont.load_default(10).font_bytes)
  fmt, width, height = rng.choice(("rgba", "rgb24", "gray", "monob")), rng.choice((64, 100, 333)), rng.choice((20, 50, 100))
  x, y, size, color = rng.choice((0, 3, 50)), rng.choice((0, 5, 30)), rng.choice((8, 12, 30)), rng.choice(("#000000", "#ffffff", "#ff0000", "#12ab9f", "#808080"))
  cfg = TextRendererConfig(out_topic=OUT, in_topic=1, pixel_format=fmt, width=width, height=height, x=x, y=y, font_size=size, font="vtfont.ttf", font_color=color)
  w, rig, _ = await start(ctx, None, [1], [OUT])
  await rig.start(lambda c: TextRendererTask(c, cfg), [1], [OUT], settle=0.1)
  sent, ts = [], 1000
  for _ in range(rng.randint(1, 12) if rng.random() < 0.6 else rng.randint(50, 150)):
    if rng.random() < 0.2: await rig.data(1, rng.choice(BAD_TEXT)); ctx.count("malformed")
    ts += rng.choice((0, 1, 40))
    sent.append((ts, rng.choice(("", "a", "Hello", "two\nlines", "é日本🙂", "W" * 50, any_text(rng)))))
    await rig.data(1, {"timestamp": ts, "value": sent[-1][1]})
  ctx.op(cfg, sent)
  ctx.check(await until(lambda: len(rig.out(OUT)) >= len(sent) or rig.run.done()), "picture-missing", lambda: (len(rig.out(OUT)), len(sent), rig.run))
  rig.alive()
  got = [m for _, m in rig.out(OUT)]
  ctx.eq(len(got), len(sent), "pictures")
  mode = {"rgba": "RGBA", "rgb24": "RGB", "gray": "L", "monob": "1"}[fmt]
  font = ImageFont.truetype(path, size=size)
  rgb = ImageColor.getrgb(color)
  for m, (ts, t) in zip(got, sent):
    ctx.eq(m["timestamp"], ts, "rendered-time", t)
    row = (width + 7) // 8 if mode == "1" else width * len(mode)
    ctx.eq(len(m["data"]), row * height, "rendered-size", (fmt, width, height))
    im = Image.new(mode, (width, height))
    ImageDraw.Draw(im).text((x, y), t, font=font, fill=color)
    ctx.check(im.tobytes() == m["data"], "rendered", lambda: (cfg, t))
    if mode == "RGB" and rgb != (0, 0, 0):
      px = np.frombuffer(m["data"], np.uint8).reshape((height, width, 3))
      ctx.check(not px[:y].any() or "\n" in t or not t.isascii() or not t.isprintable(), "rendered-above", lambda: (cfg, t))
    ctx.count("rendered")
  await pauses(ctx, rig)
  await stop(ctx, w, rig)
  ctx.sigadd(fmt, width, height, x, y, size, color, tuple(sent))
  ctx.nontrivial = bool(got)
