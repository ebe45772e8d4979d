"""C39: whatever the editor of a task host lets a user configure, the host runs."""
import asyncio, contextlib, io, json, math, os, shutil
from vlib import devices
from PIL import Image, ImageFont
from streamtasks.net.messages import InTopicsChangedMessage, OutTopicsChangedRecvMessage
from streamtasks.client.discovery import wait_for_address_name
from streamtasks.services.constants import NetworkAddressNames
from streamtasks.system.helpers import get_all_task_hosts
from streamtasks.system.named_topic_manager import NamedTopicManager
from streamtasks.system.task import SyncTask, Task, TaskManager, TaskManagerClient
from vlib.core import family
from vlib.disco import *
from streamtasks.net.serialization import RawData
from vlib.values import text

HOSTS = {h.__name__: h for h in get_all_task_hosts()}
NAMES = sorted(HOSTS)
CONFIGURATORS = {"std:static", "std:multitrackio", "std:switch", "std:synchronizer", "std:namedinput", "std:namedoutput"}
CODERS = {"AudioDecoderTaskHost", "AudioEncoderTaskHost", "VideoDecoderTaskHost", "VideoEncoderTaskHost", "InputContainerTaskHost", "OutputContainerTaskHost", "VideoViewerTaskHost", "AudioResamplerTaskHost"} # not every combination of formats exists
NEEDS_FILE = {"ImageRendererTaskHost", "InputContainerTaskHost", "OutputContainerTaskHost", "TextRendererTaskHost"}

def field(meta, name, default): return json.loads(meta[name]) if name in meta else default

class Editor:
  """Does what the web editor does with the metadata of a host."""
  def __init__(self, meta):
    self.meta = meta
    self.inputs, self.outputs, self.keys = field(meta, "cfg:inputs", []), field(meta, "cfg:outputs", []), field(meta, "cfg:outputkeys", [])
    self.config, self.fields, self.tracks = field(meta, "cfg:config", {}), field(meta, "cfg:editorfields", []), field(meta, "cfg:trackconfigs", [])
    self.is_input = field(meta, "cfg:isinput", False)

def allowed(f, v):
  """Whether the editor accepts the value."""
  t = f["type"]
  if t == "number": return isinstance(v, (int, float)) and not isinstance(v, bool) and f.get("min", -math.inf) <= v <= f.get("max", math.inf) and (not f.get("integer") or v == int(v))
  if t == "slider": return isinstance(v, (int, float)) and f["min"] <= v <= f["max"]
  if t == "select": return v in [i["value"] for i in f["items"]]
  if t == "boolean": return isinstance(v, bool)
  if t == "text": return isinstance(v, str)
  if t == "secret": return v is None or isinstance(v, str)
  if t == "kvoptions": return isinstance(v, dict)
  return t == "dynamicselect"

@family("announcements", quick=len(NAMES), thorough=len(NAMES), loop="sync")
def announcements(ctx):
  """The editor described by the metadata of a host edits what the host is configured with."""
  name = NAMES[ctx.index % len(NAMES)]
  host = HOSTS[name]()
  meta = host.metadata
  ctx.op(name); ctx.sigadd(name)
  ctx.eq(host.metadata, meta, "metadata-changes")
  ctx.check(all(isinstance(k, str) and isinstance(v, (str, int, float, bool)) for k, v in meta.items()), "metadata-type", lambda: meta)
  ctx.check(meta.get("js:configurator") in CONFIGURATORS, "unknown-configurator", lambda: meta.get("js:configurator"))
  e = Editor(meta)
  if meta["js:configurator"] in ("std:static", "std:multitrackio"):
    ctx.check(meta["js:configurator"] == "std:multitrackio" or isinstance(meta.get("cfg:label"), str), "no-label", lambda: list(meta))
    def fields(fs, config, where):
      seen = set()
      for f in fs:
        ctx.count("fields")
        ctx.check(f["type"] in ("text", "secret", "number", "slider", "select", "dynamicselect", "multiselect", "boolean", "kvoptions"), "unknown-field-type", lambda: f)
        if f["type"] == "multiselect":
          ctx.check(f["items"] and all(isinstance(i, dict) for i in f["items"]), "empty-field", lambda: f)
          ks = {k for i in f["items"] for k in i}
          ctx.check(ks <= set(config), "field-edits-nothing", lambda: {"host": name, "field": ks, "config": list(config), "where": where})
          ctx.check(all(set(i) == ks for i in f["items"]), "items-differ", lambda: (name, ks))
          ctx.check(not ks & seen, "field-twice", lambda: (name, ks)); seen |= ks
          continue
        ctx.check(isinstance(f.get("label"), str) and f["label"], "field-without-label", lambda: f)
        ctx.check(f["key"] in config, "field-edits-nothing", lambda: {"host": name, "field": f["key"], "config": list(config), "where": where})
        ctx.check(f["key"] not in seen, "field-twice", lambda: (name, f["key"])); seen.add(f["key"])
        if f["type"] == "select":
          vs = [i["value"] for i in f["items"]]
          ctx.check(vs and len({(type(v), v) for v in vs}) == len(vs) and all(isinstance(v, (str, int, float)) and isinstance(i["label"], str) for v, i in zip(vs, f["items"])), "bad-items", lambda: (name, f["key"], vs[:20]))
        if f["key"] != "font": ctx.check(allowed(f, config[f["key"]]), "default-not-allowed", lambda: {"host": name, "field": {k: v for k, v in f.items() if k != "items"}, "default": config[f["key"]]})
    fields(e.fields, e.config, "config")
    keys = [i["key"] for i in e.inputs]
    ctx.check(len(set(keys)) == len(keys), "input-keys", lambda: keys)
    if "cfg:outputkeys" in meta:
      ctx.check(len(e.keys) == len(e.outputs) and all(isinstance(k, str) for k in e.keys) and len(set(e.keys + keys)) == len(e.keys + keys), "output-keys", lambda: (e.keys, e.outputs, keys))
      ctx.check(not set(e.keys + keys) & set(e.config), "topic-has-a-default", lambda: (e.keys, keys, e.config))
    for key, m in field(meta, "cfg:config2inputmap", {}).items():
      ctx.check(key in keys, "map-of-unknown-input", lambda: (name, key))
      i = next(i for i in e.inputs if i["key"] == key)
      for c, x in m.items(): ctx.check(c in e.config and i.get(x) == e.config[c], "input-metadata", lambda: {"host": name, "config": c, "metadata": x, "input": i, "value": e.config.get(c)}); ctx.count("mapped")
    ms = field(meta, "cfg:config2outputmap", [])
    ctx.check(len(ms) <= max(len(e.outputs), 1), "map-of-unknown-output", lambda: (name, ms, e.outputs))
    for k, m in enumerate(ms[:len(e.outputs)]):
      for c, x in (m or {}).items(): ctx.check(c in e.config and e.outputs[k].get(x) == e.config[c], "output-metadata", lambda: {"host": name, "config": c, "metadata": x, "output": e.outputs[k], "value": e.config.get(c)}); ctx.count("mapped")
    for key, k in field(meta, "cfg:iomirror", []): ctx.check(key in keys and 0 <= k < len(e.outputs), "mirror-of-unknown", lambda: (name, key, k))
    for key in field(meta, "cfg:freeinputs", []): ctx.check(key in keys, "free-input-unknown", lambda: (name, key))
    for t in e.tracks:
      ctx.count("tracks")
      ctx.eq(e.config.get(t["key"] + "_tracks"), [], "track-list")
      fields(t["editorFields"], t["defaultConfig"], t["key"])
      for c, x in t["ioMap"].items(): ctx.check(c in t["defaultConfig"] and t["defaultIO"].get(x) == t["defaultConfig"][c], "track-metadata", lambda: (name, t["key"], c, x, t["defaultIO"], t["defaultConfig"]))
      for c, x in t.get("globalIOMap", {}).items(): ctx.check(c in e.config, "track-metadata-global", lambda: (name, c, x))
  ctx.nontrivial = True

# ---------------------------------------------------------------- running
def pick(rng, f, old, wild):
  t, k = f["type"], f.get("key")
  if t == "boolean": return rng.random() < 0.5
  if t == "select" and wild and k != "font": return rng.choice(f["items"])["value"]
  if t == "slider": return rng.choice((f["min"], f["max"], rng.uniform(f["min"], f["max"])))
  if t == "text" and k in ("label", "text_above", "text_below", "seperator", "default_text", "url", "pattern"): return rng.choice((old, text(rng)))
  if t == "number":
    u = f.get("unit")
    if k == "channels" or k.endswith("_channels"): return rng.choice((1, 2)) if wild else old
    if u == "hz" and f.get("integer"): return rng.choice((8000, 32000, 44100, 48000)) if wild else old
    if u == "fps": return rng.choice((10, 25, 30, 29.97, 60)) if wild else old
    if u == "px": return rng.choice((16, 64, 640)) if wild else old
    lo, hi = f.get("min", -1000), f.get("max", 1000)
    v = rng.choice((lo, hi, rng.uniform(lo, hi), old, 1, 2))
    if k == "repeat_interval" or k == "interval": v = max(v, rng.choice((lo, 0.05)))
    if f.get("integer"): v = int(v)
    return min(max(v, lo), hi)
  return old

def configure(ctx, name, meta, topics):
  """A configuration made with the editor, and the topics read and written with it."""
  rng = ctx.rng
  e = Editor(meta)
  c, ins, outs = dict(e.config), [], []
  conf = meta["js:configurator"]
  wild = name not in CODERS
  def edit(fs, d):
    for f in fs:
      if rng.random() < 0.5: continue
      if f["type"] == "multiselect":
        if name in NEEDS_FILE: continue # not every container takes every codec
        d.update(rng.choice(f["items"]))
        continue
      if name == "VideoLayoutTaskHost" and f.get("unit") == "px": continue # not every place is within the frame
      d[f["key"]] = pick(rng, f, d[f["key"]], wild)
      ctx.count("edits")
  edit(e.fields, c)
  for i in e.inputs: c[i["key"]] = topics.pop(); ins.append(c[i["key"]])
  for k in e.keys: c[k] = topics.pop(); outs.append(c[k])
  for t in e.tracks:
    n = rng.choice((0, 1, 1, 2, 3)) if name not in NEEDS_FILE else 1
    ts = c[t["key"] + "_tracks"] = []
    for j in range(n):
      d = dict(t["defaultConfig"]); edit(t["editorFields"], d)
      if "name" in d: d["name"] = "abc"[j]
      d["_key"] = "k%d" % j
      d["in_topic" if e.is_input else "out_topic"] = topics.pop()
      (ins if e.is_input else outs).append(d["in_topic" if e.is_input else "out_topic"])
      ts.append(d)
  if not e.is_input and e.tracks: c["_trackOutputMap"] = {}
  if conf == "std:switch":
    c["topics"], c["pairs"] = [], []
    for _ in range(rng.randint(0, 3)):
      p = {"input": topics.pop(), "control": topics.pop()}; c["pairs"].append(p); ins += p.values()
    c["output"] = topics.pop(); outs.append(c["output"])
  elif conf == "std:synchronizer":
    c["topics"] = []
    for _ in range(rng.randint(0, 3)): p = [topics.pop(), topics.pop()]; c["topics"].append(p); ins.append(p[0]); outs.append(p[1])
  elif conf == "std:namedinput": c["name"], c["out_topic"] = "n" + text(rng), topics.pop(); outs.append(c["out_topic"])
  elif conf == "std:namedoutput": c["name"], c["metadata"], c["in_topic"] = "n" + text(rng), {"type": rng.choice(("ts", "media")), "x": rng.choice((1, 0.5, True, "y"))}, topics.pop(); ins.append(c["in_topic"])
  if name == "ImageRendererTaskHost":
    c["source"] = os.path.join(ctx.tmpdir(), "i.png"); Image.new("RGB", (7, 5), "red").save(c["source"])
  if name == "OutputContainerTaskHost": c["destination"] = os.path.join(ctx.tmpdir(), "o.mp4")
  return json.loads(json.dumps(c)), ins, outs

def font(ctx):
  """The default font of the text renderer, installed for the user."""
  old = os.environ.get("HOME")
  ctx.cleanups.append(lambda: os.environ.pop("HOME", None) if old is None else os.environ.update(HOME=old))
  os.environ["HOME"] = ctx.tmpdir()
  os.makedirs(os.path.join(os.environ["HOME"], ".fonts"))
  import glob, cv2
  src = sorted(glob.glob(os.path.join(os.path.dirname(cv2.__file__), "qt", "fonts", "*.ttf")))
  dst = os.path.join(os.environ["HOME"], ".fonts", "Hack-Regular.ttf")
  if src: shutil.copy(src[0], dst)
  else:
    with open(dst, "wb") as f: f.write(ImageFont.load_default(10).font_bytes)

async def play(ctx, names, wait, strangers=False):
  rng = ctx.rng
  quiet = contextlib.redirect_stdout(io.StringIO()); out = quiet.__enter__()
  ctx.cleanups.append(lambda: quiet.__exit__(None, None, None))
  kinds = ("queue", "rawqueue", "v-zero", "y-zero")
  net = await with_discovery(ctx, kinds, rng.randint(1, 2))
  os.environ["DATA_DIR"] = ctx.tmpdir()
  devices.fresh().delay = lambda: 0.02
  if "TextRendererTaskHost" in names: font(ctx)
  async def attach(w):
    a, b, _, _ = await make_pair(rng, rng.choice(kinds))
    tap = WireTap(a)
    await net.switches[rng.randrange(len(net.switches))].add_link(a)
    await w.switch.add_link(b)
    w.vt = a, b
    await settle(wait / 2)
    t = asyncio.create_task(w.run())
    ctx.keep = getattr(ctx, "keep", []) + [(w, t)]
    return tap
  await attach(TaskManager()); await attach(NamedTopicManager(register_endpoits=[]))
  c = await net.add_client(); await c.client.request_address()
  await asyncio.wait_for(wait_for_address_name(c.client, NetworkAddressNames.NAMED_TOPIC_MANAGER), 60)
  await asyncio.wait_for(wait_for_address_name(c.client, NetworkAddressNames.TASK_MANAGER), 60)
  tmc = TaskManagerClient(c.client)
  for name in names:
    host = HOSTS[name](register_endpoits=[NetworkAddressNames.TASK_MANAGER])
    tap = await attach(host)
    await asyncio.wait_for(host.ready.wait(), 60); await settle(wait)
    reg = await asyncio.wait_for(tmc.get_task_host(host.id), 60)
    def state():
      ins, outs = set(), set()
      for m in tap.msgs:
        if isinstance(m, InTopicsChangedMessage): ins |= set(m.add); ins -= set(m.remove)
        if isinstance(m, OutTopicsChangedRecvMessage): outs |= {p.id for p in m.add}; outs -= {p.id for p in m.remove} - {p.id for p in m.add}
      return ins, outs
    def shown(): return tuple({t for t in s if t in mine} for s in state())
    for _ in range(rng.randint(1, 2)):
      topics = rng.sample(range(100, 10**6), 30); mine = set(topics)
      config, ins, outs = configure(ctx, name, reg.metadata, topics)
      ctx.op(name, config); ctx.sigadd(name, str(sorted((k, v) for k, v in config.items() if isinstance(v, (bool, str)))))
      await c.client.register_out_topics(ins); await c.client.register_in_topics(outs); await settle(wait)
      inst = await asyncio.wait_for(tmc.schedule_task(host.id), 60)
      async with tmc.task_receiver([inst.id]) as recv:
        try: inst = await asyncio.wait_for(tmc.start_task(inst.id, config), 60)
        except TimeoutError: ctx.fail("start-hangs", {"host": name, "config": config})
        ctx.check(inst.error is None and inst.status.value == "running", "start-fails", lambda: {"host": name, "config": config, "error": inst.error, "status": inst.status})
        ctx.count("starts")
        await settle(rng.choice((wait, 3 * wait)))
        if strangers and ins:
          t = 0
          for _ in range(rng.randint(5, 20)):
            t += rng.choice((0, 1, 1000))
            m = strange(rng, t); ctx.op("send", m)
            await c.client.send_stream_data(rng.choice(ins), RawData(m)); ctx.count("strange_messages")
            if rng.random() < 0.3: await settle(wait / 5)
          await settle(wait)
        async def ended():
          with contextlib.suppress(TimeoutError): return await asyncio.wait_for(recv.get(), 0.01)
        r = await ended()
        if r is not None and not ins and r.status.value == "ended" and not r.error: ctx.count("nothing_to_do"); continue # nothing will ever arrive
        ctx.check(r is None, "task-ends-by-itself", lambda: {"host": name, "config": config, "instance": r, "out": out.getvalue()[-1500:]})
        want = set(ins) if name != "VideoViewerTaskHost" else set(), set(outs) # the viewer subscribes when somebody views
        for _ in range(100):
          if shown() == want: break
          await settle(wait / 5)
        ctx.check(shown() == want, "other-topics", lambda: {"host": name, "config": config, "registered": shown(), "configured": (ins, outs), "seen": [str(m)[:80] for m in tap.msgs][-12:]})
        ctx.count("topics", len(ins) + len(outs))
        await asyncio.wait_for(tmc.cancel_task(inst.id), 60)
        try: r = await asyncio.wait_for(recv.get(), 60 if wait > 0.5 else 10)
        except TimeoutError: ctx.fail("does-not-stop", {"host": name, "config": config})
        ctx.check(r.status.value in (("stopped", "ended") if name == "OutputContainerTaskHost" else ("stopped",)) and not r.error, "stop-status", lambda: {"host": name, "config": config, "instance": r, "out": out.getvalue()[-1500:]})
      for _ in range(100):
        if shown() == (set(), set()): break
        await settle(wait / 5)
      ctx.check(shown() == (set(), set()), "topics-stay-registered", lambda: {"host": name, "config": config, "registered": shown()})
      ctx.count("stops")
  ctx.nontrivial = True

def strange(rng, t):
  """A message hardly any task expects."""
  r = rng.random()
  if r < 0.15: return rng.choice(([], {}, "", "text", 0, 1.5, True, [1, 2], [{}], {"value": None}))
  d = {"timestamp": rng.choice((t, t, t, t, -1, "x", None, 1.5))} if rng.random() < 0.9 else {}
  for k in rng.sample(("value", "data", "packet", "id", "message", "text"), rng.randint(0, 3)):
    d[k] = rng.choice((None, "x" if k != "data" else {1: 2}, [], {}, {"data": b"x"}, {"a": 1}, [1], -1 if k != "value" else "?"))
  return d

def is_threaded(h):
  """Hosts whose tasks work in threads."""
  import inspect
  m = inspect.getmodule(h)
  return any(inspect.isclass(v) and issubclass(v, SyncTask) and v is not SyncTask for v in vars(m).values()) or name_of(h) in THREADS
def name_of(h): return h.__name__
THREADS = {"ImageRendererTaskHost", "OutputContainerTaskHost"}
RUN = [n for n in NAMES if n != "InputContainerTaskHost"]
PLAIN, THREADED = [n for n in RUN if not is_threaded(HOSTS[n])], [n for n in RUN if is_threaded(HOSTS[n])]

@family("tasks", quick=160, thorough=6000)
async def tasks(ctx):
  """Configured in any way the editor allows, tasks start, run, register exactly the configured topics, and release them when stopped."""
  k = ctx.index * 3
  await play(ctx, [PLAIN[(k + j) % len(PLAIN)] for j in range(3)], 1)

@family("threaded-tasks", quick=57, thorough=1200, loop="real")
async def threaded_tasks(ctx):
  await play(ctx, [THREADED[ctx.index % len(THREADED)]], 0.1)

@family("strangers", quick=120, thorough=5000)
async def strangers(ctx):
  """Messages of kinds a task does not expect do not end it."""
  k = ctx.index * 3
  await play(ctx, [PLAIN[(k + j) % len(PLAIN)] for j in range(3)], 1, True)

@family("threaded-strangers", quick=40, thorough=800, loop="real")
async def threaded_strangers(ctx):
  await play(ctx, [THREADED[ctx.index % len(THREADED)]], 0.1, True)
