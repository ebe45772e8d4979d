"""C33: image blending with the extension built from the tree under test with address and undefined-behaviour sanitizers, and the video mixer and layout tasks on top of it."""
import asyncio, copy, importlib.util, os, sys
import numpy as np

def load(name):
  """The sanitized build takes the place of the extension in the tree."""
  spec = importlib.util.spec_from_file_location(name, os.path.join(os.environ["VT_SHARED"], "ext", name + ".so"))
  mod = importlib.util.module_from_spec(spec)
  spec.loader.exec_module(mod)
  sys.modules[name] = mod
  return mod
merge_images = load("streamtasks.media.video_perf").merge_images
from streamtasks.system.tasks.media.videomixer import VideoMixerConfig, VideoMixerTask
from streamtasks.system.tasks.media.videolayout import VideoLayoutConfig, VideoLayoutTask
from streamtasks.system.tasks.media import videomixer as _vm
from vlib.core import family
from vlib.rig import Rig
from vlib.taskmodel import OUT
assert "/ext/" in sys.modules["streamtasks.media.video_perf"].__file__

def over(images, front):
  """Source-over composition over black, by integers."""
  n = min(len(i) for i in images) // 4
  px = [np.frombuffer(i[:n * 4], dtype=np.uint8).reshape((n, 4)).astype(np.int64) for i in images]
  a, c = (0, slice(1, 4)) if front else (3, slice(0, 3))
  out = np.zeros((n, 3), dtype=np.int64)
  for p in px: out = ((255 - p[:, a:a + 1]) * out + p[:, a:a + 1] * p[:, c]) // 255
  res = np.empty((n, 4), dtype=np.uint8)
  res[:, a], res[:, c] = 255, out
  return res.tobytes()

def image(rng, size):
  k = rng.random()
  if k < 0.5: return rng.randbytes(size)
  if k < 0.7: return bytes([rng.choice((0, 1, 127, 128, 254, 255))]) * size
  return bytes(rng.choice((0, 255, 1, 254)) for _ in range(min(size, 4000))).ljust(size, b"\xff")

@family("blend", quick=4000, thorough=150000, loop="sync")
def blend(ctx):
  """Any images: the whole pixels they have in common, composed exactly, inside the buffers."""
  rng = ctx.rng
  count, front = rng.choice((1, 1, 2, 2, 3, 5, 12)), rng.random() < 0.5
  mode = rng.choice(("same", "same", "unequal", "unaligned", "tiny"))
  size = rng.choice((0, 4, 16, 64, 256, 1000, 4096, 64 * 48 * 4))
  def pick():
    if mode == "same": return size
    if mode == "unequal": return rng.choice((0, 4, 8, size, size + 4, size * 2, 4096))
    if mode == "tiny": return rng.randrange(0, 40)
    return max(0, size + rng.randrange(-3, 8))
  images = [image(rng, pick()) for _ in range(count)]
  kept = [bytes(bytearray(i)) for i in images]
  got = merge_images(images, front)
  want = over(images, front)
  ctx.op(count, front, [len(i) for i in images])
  n = len(want)
  ctx.check(type(got) is bytes and n <= len(got) < n + 4, "blend-size", lambda: (len(got), n))
  if got[:n] != want:
    i = next(i for i in range(n) if got[i] != want[i])
    ctx.fail("blend-pixels", (i, front, got[i], want[i], [k[i // 4 * 4:i // 4 * 4 + 4].hex() for k in kept]))
  ctx.check(images == kept, "input-modified", mode)
  ctx.count("blends"); ctx.count("pixels", n // 4)
  if len({len(i) for i in images}) > 1: ctx.count("unequal")
  if any(len(i) % 4 for i in images): ctx.count("unaligned")
  ctx.sigadd(count, front, n, hash(want))
  ctx.nontrivial = n > 0

@family("blend-all", quick=64, thorough=256, loop="sync")
def blend_all(ctx):
  """Every background value, alpha and foreground value, a slice per case."""
  rng = ctx.rng
  step = 64 if ctx.tier == "quick" else 256
  front = bool(ctx.index % 2)
  a, v = np.meshgrid(np.arange(256), np.arange(256), indexing="ij")
  for bg in range(ctx.index * 256 // step, (ctx.index + 1) * 256 // step):
    below, above = np.empty((256 * 256, 4), dtype=np.uint8), np.empty((256 * 256, 4), dtype=np.uint8)
    ai, ci = (0, (1, 2, 3)) if front else (3, (0, 1, 2))
    below[:, ai], above[:, ai] = 255, a.reshape(-1)
    for k, c in enumerate(ci):
      below[:, c] = (bg + k * 85) % 256
      above[:, c] = (v.reshape(-1) + k * 7) % 256
    images = [below.tobytes(), above.tobytes()]
    got, want = merge_images(images, front), over(images, front)
    if got != want:
      i = next(i for i in range(len(want)) if got[i] != want[i])
      ctx.fail("blend-pixels", (bg, i, front, got[i], want[i]))
    ctx.count("combinations", 256 * 256 * 3)
  ctx.sigadd(ctx.index)
  ctx.nontrivial = True

# ---------------------------------------------------------------- the tasks
MALFORMED = ({}, {"timestamp": 5}, {"timestamp": "x", "data": b"\x00" * 8}, {"timestamp": 5, "data": None}, 7, "text", [1], {"data": b"1234"})

async def until(cond, t=20):
  end = asyncio.get_running_loop().time() + t
  while not cond():
    if asyncio.get_running_loop().time() > end: return False
    await asyncio.sleep(0.004)
  return True

@family("mixer", quick=80, thorough=2500, loop="real")
async def mixer(ctx):
  """Rounds of frames on all tracks come out as one composed frame each, with the earliest time of the round, over the background colour."""
  rng = ctx.rng
  tracks, fmt = rng.choice((1, 2, 2, 3, 4)), rng.choice(("rgba", "bgra", "argb", "abgr"))
  w, h = rng.choice((1, 2, 16, 33)), rng.choice((1, 3, 16))
  color = rng.choice(("#000000", "#000000", "#ffFFff", "#102030", "#ff0000"))
  sync = rng.random() < 0.5
  cfg = VideoMixerConfig(video_tracks=[dict(in_topic=i + 1) for i in range(tracks)], width=w, height=h, pixel_format=fmt, rate=rng.choice((10, 30, 25.5)), bgcolor_hex=color, synchronized=sync, out_topic=OUT)
  ins = [t.in_topic for t in cfg.video_tracks]
  rig = Rig(ctx, kind=rng.choice(("queue", "rawqueue", "v-zero", "y-zero")))
  await rig.start(lambda c: VideoMixerTask(c, cfg), ins, [OUT], settle=0.1)
  rgb = dict(zip("rgb", bytes.fromhex(color[1:])), a=255)
  bg = bytes(rgb[c] for c in fmt) * (w * h)
  ts, want, last = rng.choice((1, 1000, 10**12)), [], {}
  paused, resumed = set(), set()
  def job():
    if last: want.append((min(t for t, _ in last.values()), over([bg] + [last[i][1] for i in ins if i in last], fmt[0] == "a")))
  prev = None
  for r in range(rng.randint(2, 10)):
    ts += rng.choice((40, 100))
    if not sync and rng.random() < 0.2:
      i = rng.choice(ins)
      v = i not in paused
      if not (v and len(paused) + 1 >= len(ins)):
        (paused.add if v else paused.discard)(i)
        if not v: resumed.add(i)
        await rig.settle(0.02)
        last.pop(i, None)      # a paused track has no picture
        await rig.pause(i, v)
        await rig.settle(0.02)
        ctx.count("track_pauses")
    live = [i for i in ins if i not in paused]
    first = True
    for i in sorted(rng.sample(live, len(live)), key=lambda i: i in resumed):   # the first frame after a pause joins a round, it does not start one
      t = ts + rng.randrange(0, 30)
      frame = image(rng, w * h * 4)
      if sync: t = ts + ins.index(i)
      if first: job()
      first = False
      await rig.data(i, {"timestamp": t, "data": frame})
      last[i] = (t, frame)
      ctx.op(i, t)
      if not sync: await rig.settle(0.01)
    resumed -= set(live)
    ctx.count("rounds")
  if sync:
    ts += 100
    for i in ins: await rig.data(i, {"timestamp": ts + ins.index(i), "data": bg})
    job()
  ctx.check(await until(lambda: len(rig.out(OUT)) >= len(want)), "composed-missing", lambda: (len(rig.out(OUT)), len(want)))
  await rig.settle(0.02)
  rig.alive()
  got = [(m["timestamp"], m["data"]) for _, m in rig.out(OUT)]
  if sync: got = got[:len(want)] if len(got) <= len(want) + 1 else got
  ctx.check(len(got) == len(want), "composed-count", lambda: ([g[0] for g in got], [x[0] for x in want]))
  for k, (g, x) in enumerate(zip(got, want)):
    ctx.eq(g[0], x[0], "composed-time", k)
    ctx.check(g[1] == x[1], "composed-pixels", lambda: (k, fmt, color, g[1][:8].hex(), x[1][:8].hex()))
    ctx.count("composed")
  await rig.finish()
  ctx.sigadd(tracks, fmt, w, h, color, len(want), str(want[-1:])[:100])
  ctx.nontrivial = len(want) > 0

def resized_ok(ctx, src, dst):
  """What scaling must keep whatever its filter: values within the range of the source, per channel."""
  for c in range(4): ctx.check(dst[:, :, c].min() >= src[:, :, c].min() and dst[:, :, c].max() <= src[:, :, c].max(), "scaled-range", c)

@family("layout", quick=80, thorough=2500, loop="real")
async def layout(ctx):
  """The picture is placed where the layout says, cut at the edges, everything else is transparent; odd messages change nothing."""
  rng = ctx.rng
  fmt = rng.choice(("rgba", "bgra", "argb", "abgr"))
  ow, oh, iw, ih = (rng.choice((1, 2, 7, 16, 33)) for _ in range(4))
  same = rng.random() < 0.5
  pw, ph = (iw, ih) if same else (rng.choice((1, 3, 8, 40)), rng.choice((1, 3, 8, 40)))
  left, top = rng.randrange(ow), rng.randrange(oh)
  cfg = VideoLayoutConfig(pixel_format=fmt, rate=rng.choice((30, 10)), in_width=iw, in_height=ih, place_top_offset=top, place_left_offset=left, place_width=pw, place_height=ph, out_width=ow, out_height=oh, in_topic=1, out_topic=OUT)
  rig = Rig(ctx, kind=rng.choice(("queue", "rawqueue", "v-zero", "y-zero")))
  await rig.start(lambda c: VideoLayoutTask(c, cfg), [1], [OUT], settle=0.1)
  ts, want, ops = 1000, [], 0
  for _ in range(rng.randint(2, 10)):
    ts += 40
    if rng.random() < 0.25:
      bad = rng.choice(MALFORMED + tuple({"timestamp": ts, "data": b"\x05" * n} for n in (0, 1, iw * ih, iw * ih * 3, iw * ih * 4 + 1, iw * ih * 8)))
      if isinstance(bad, dict) and isinstance(bad.get("data"), bytes) and isinstance(bad.get("timestamp"), int) and len(bad["data"]) == iw * ih * 4: continue
      ctx.count("malformed")
      await rig.data(1, copy.deepcopy(bad))
      continue
    if rng.random() < 0.1:
      for v in (True, False):
        await rig.pause(1, v)
        ctx.check(await until(lambda: rig.out_paused(OUT) == v), "output-pause", v)
    frame = rng.randbytes(iw * ih * 4) if rng.random() < 0.7 else rng.randbytes(4) * (iw * ih)
    await rig.data(1, {"timestamp": ts, "data": frame})
    want.append((ts, frame))
    ctx.op(ts)
  ctx.check(await until(lambda: len(rig.out(OUT)) >= len(want)), "layout-missing", lambda: (len(rig.out(OUT)), len(want)))
  await rig.settle(0.02)
  rig.alive()
  ctx.eq([m["timestamp"] for _, m in rig.out(OUT)], [t for t, _ in want], "layout-times", fmt)
  for (_, m), (t, frame) in zip(rig.out(OUT), want):
    ctx.eq(len(m["data"]), ow * oh * 4, "layout-size", (ow, oh))
    out = np.frombuffer(m["data"], dtype=np.uint8).reshape((oh, ow, 4))
    src = np.frombuffer(frame, dtype=np.uint8).reshape((ih, iw, 4))
    vw, vh = min(pw, ow - left), min(ph, oh - top)
    mask = np.zeros((oh, ow), dtype=bool)
    mask[top:top + vh, left:left + vw] = True
    ctx.check((out[~mask] == 0).all(), "layout-outside", lambda: (left, top, vw, vh))
    part = out[top:top + vh, left:left + vw]
    if same: ctx.check((part == src[:vh, :vw]).all(), "layout-pixels", lambda: (left, top, vw, vh))
    else:
      resized_ok(ctx, src, part)
      if (src == src[0, 0]).all(): ctx.check((part == src[0, 0]).all(), "layout-colour", lambda: part[0, 0])
    ctx.count("placed")
  await rig.finish()
  ctx.sigadd(fmt, ow, oh, iw, ih, pw, ph, left, top)
  ctx.nontrivial = len(want) > 0
