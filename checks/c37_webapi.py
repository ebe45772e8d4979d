"""C37: the backend's web api shows the live state of topics, hosts, tasks and path registrations."""
import asyncio, base64, contextlib, io, json, os, uuid
from streamtasks.asgi import ASGIAppRunner, ASGIProxyApp, asgi_default_http_error_handler
from streamtasks.asgiserver import ASGIRouter, ASGIServer, HTTPContext, WebsocketContext, http_context_handler, websocket_context_handler
from streamtasks.client.discovery import get_topic_space_translation, register_topic_space, wait_for_address_name
from streamtasks.client.signal import send_signal
from streamtasks.net.serialization import RawData
from streamtasks.net.utils import endpoint_to_str
from streamtasks.services.constants import NetworkAddressNames, NetworkPorts
from streamtasks.system.task import MetadataFields, Task, TaskConstants, TaskHost, TaskManager, TaskManagerClient
from streamtasks.system.task_web import DeploymentBase, PathRegistration, PathRegistrationFrontend, StoredTask, TaskWebBackend, TaskWebPathHandler
from vlib import http
from vlib.core import family
from vlib.disco import *
from vlib.values import text

def uid(rng): return uuid.UUID(int=rng.getrandbits(128), version=4)
def put(_, e): return e.model_dump(mode="json")

async def attach(ctx, net, worker):
  a, b, _, _ = await make_pair(ctx.rng, ctx.rng.choice(("queue", "rawqueue", "sock", "v-zero", "v-small")))
  await net.switches[ctx.rng.randrange(len(net.switches))].add_link(a)
  await worker.switch.add_link(b)
  worker.vt_links = a, b
  if not isinstance(worker, TaskHost): await settle(3) # the system's builder waits for the discovery before it starts these
  return asyncio.create_task(worker.run())

async def call(ctx, net, method, path, body=None, **kw):
  """The answer; every request must get one."""
  ctx.count("requests")
  try:
    r = await http.call(net.app, method, path, body, timeout=100, **kw)
  except TimeoutError: r = None
  ctx.check(r is not None and r.complete, "request-hangs", lambda: (method, path, r))
  return r

async def base(ctx, manager=True, kinds=KINDS):
  rng = ctx.rng
  quiet = contextlib.redirect_stdout(io.StringIO()) # failing tasks print their traceback
  quiet.__enter__()
  ctx.cleanups.append(lambda: quiet.__exit__(None, None, None))
  net = await with_discovery(ctx, kinds, rng.randint(1, 3))
  net.data = os.environ["DATA_DIR"] = ctx.tmpdir()
  net.backend = TaskWebBackend()
  net.workers = []
  if manager:
    net.tm = TaskManager()
    net.workers.append(await attach(ctx, net, net.tm)); await settle(3)
  net.workers.append(await attach(ctx, net, net.backend)); await settle(3)
  net.c = await net.add_client(); await net.c.client.request_address()
  net.tmc = TaskManagerClient(net.c.client)
  net.app = ASGIProxyApp(net.c.client, NetworkAddressNames.TASK_MANAGER_WEB)
  await asyncio.wait_for(wait_for_address_name(net.c.client, NetworkAddressNames.TASK_MANAGER_WEB), 100)
  if manager: await asyncio.wait_for(net.tmc.list_task_hosts(), 100)
  return net

async def opened(ctx, ws, what):
  """The websocket is accepted or turned down, it does not hang."""
  ts = [asyncio.create_task(ws.accepted.wait()), asyncio.create_task(ws.closed.wait())]
  done, _ = await asyncio.wait(ts, timeout=100, return_when="FIRST_COMPLETED")
  for t in ts: t.cancel()
  ctx.check(done, "websocket-hangs", what)
  return ws.accepted.is_set()

def payload(rng, n):
  return {"n": n, "v": rng.choice((None, True, 0, -1, 2.5, "x", text(rng), [1, [2, {}]], {"a": [text(rng)]}, rng.randrange(-2**40, 2**40), float("nan"), float("-inf"), rng.randbytes(rng.randrange(5))))}
def as_json(v):
  """What a browser is shown of a payload."""
  if isinstance(v, dict): return {k: as_json(x) for k, x in v.items()}
  if isinstance(v, list): return [as_json(x) for x in v]
  if isinstance(v, bytes): return v.hex()
  if isinstance(v, float) and v != v: return "NaN"
  if isinstance(v, float) and v in (float("inf"), float("-inf")): return "Infinity" if v > 0 else "-Infinity"
  return v

FAST = tuple(k for k in KINDS if not k.endswith(("big", "burst"))) # starting a task has one second

# ---- topics

class Source:
  def __init__(self, net, client, topic): self.client, self.topic, self.out, self.paused = client, topic, client.client.out_topic(topic), False
  async def start(self): await self.out.start(); await self.out.set_registered(True)

class Tab:
  """A browser tab showing one topic."""
  def __init__(self, net, src, path): self.src, self.ws, self.want, self.base, self.flex = src, http.WS(net.app, path), [], None, []
  def got(self): return [json.loads(m) for m in self.ws.out]

async def topics_case(ctx, space):
  rng = ctx.rng
  net = await base(ctx, manager=False)
  pubs = [await net.add_client() for _ in range(2)]
  for p in pubs: await p.client.request_address()
  srcs, paths = [], {}
  if space:
    locals_ = rng.sample(range(1, 50), 3)
    net.spaces = []
    for _ in range(2):
      sid, tr = await register_topic_space(pubs[0].client, locals_)
      net.spaces.append(sid)
      for l in locals_:
        real = await get_topic_space_translation(pubs[1].client, sid, l)
        ctx.check(tr[l] == real, "translation-differs", (tr, l, real))
        s = Source(net, rng.choice(pubs), real); srcs.append(s); paths[s] = f"/topic/{sid}/{l}"
  else:
    for t in rng.sample(range(20, 200), 4):
      s = Source(net, rng.choice(pubs), t); srcs.append(s); paths[s] = f"/topic/{t}"
  for s in srcs: await s.start()
  await settle(5)
  tabs, n = [], 0
  def judge(tab, what):
    got = tab.got()
    head, tail = got[:tab.base], got[tab.base:]
    tail = dedup(tail)
    want = tab.want
    ctx.check(tail == want, what, lambda: {"path": tab.ws.task, "got": tail[-12:], "want": want[-12:], "at": next((i for i, (a, b) in enumerate(zip(tail, want)) if a != b), min(len(tail), len(want))), "lens": (len(tail), len(want))})
  def dedup(ms):
    out, state = [], None
    for m in ms:
      if m["type"] == "control":
        if m["data"]["paused"] == state: continue
        state = m["data"]["paused"]
      out.append(m)
    return out
  async def publish(s, k):
    nonlocal n
    for _ in range(k):
      n += 1
      d = payload(rng, n)
      await s.out.send(RawData(d))
      m = {"type": "data", "data": as_json(d)}
      for t in tabs:
        if t.src is s: (t.want if t.base is not None else t.flex).append(m)
      ctx.count("messages")
  for _ in range(rng.randint(8, 25)):
    op = rng.choice(("open", "open", "publish", "publish", "publish", "pause", "pause", "leave", "leave", "race", "bad"))
    s = rng.choice(srcs)
    ctx.op(op, s.topic)
    ctx.sigadd(op)
    if op in ("open", "race"):
      if len(tabs) >= 6: continue
      await settle(5)
      t = Tab(net, s, paths[s])
      tabs.append(t)
      if op == "race":
        for _ in range(rng.randint(1, 6)):
          await publish(s, rng.randint(1, 3))
          await asyncio.sleep(rng.choice((0, 0.001, 0.01, 0.1)))
      ctx.check(await opened(ctx, t.ws, paths[s]), "topic-refused", lambda: (paths[s], t.ws.error))
      await settle(5)
      got = [m for m in t.got()]
      data = [m for m in got if m["type"] == "data"]
      ctx.check(all(m["type"] in ("data", "control") for m in got), "odd-message", lambda: got)
      ctx.check(data == t.flex[len(t.flex) - len(data):], "opening-tab-differs", lambda: (data, t.flex))
      t.base, t.want = len(got), []
      ctx.count("tabs")
    elif op == "publish": await publish(s, rng.choice((1, 1, 2, 5, 20)))
    elif op == "pause":
      s.paused = not s.paused
      await s.out.set_paused(s.paused)
      for t in tabs:
        if t.src is s: t.want.append({"type": "control", "data": {"paused": s.paused}})
      ctx.count("pauses")
    elif op == "leave":
      if not tabs: continue
      t = tabs.pop(rng.randrange(len(tabs)))
      await settle(5)
      judge(t, "tab-differs")
      how = rng.choice(("disconnect", "crash", "while-busy"))
      if how == "while-busy":
        for _ in range(3): await publish(t.src, 2)
      if how == "crash": t.ws.task.cancel()
      else: t.ws.disconnect()
      await settle(5)
      ctx.check(t.ws.task.done(), "closed-tab-stays", how)
      ctx.count("leaves")
    elif op == "bad":
      p = rng.choice(("/topic/abc", "/topic/1/2/3", "/topic/99999/1", "/topic/x/1", f"/topic/{'1' * 30}", "/topic/", "/nothing"))
      w = http.WS(net.app, p)
      ok = await opened(ctx, w, p)
      if p != f"/topic/{'1' * 30}": ctx.check(not ok, "bad-topic-accepted", p)
      else: w.disconnect()
      await settle(5)
      ctx.check(w.task.done(), "bad-websocket-stays", p)
      ctx.count("bad-paths")
    if rng.random() < 0.5 or op in ("pause",): await settle(5)
    if rng.random() < 0.5:
      await settle(5)
      for t in tabs: judge(t, "tab-differs")
      for s in srcs: ctx.check(s.out.is_requested == any(t.src is s for t in tabs), "demand-differs", lambda: (s.topic, s.out.is_requested, [t.src.topic for t in tabs]))
      ctx.count("states")
  await settle(5)
  for t in tabs: judge(t, "tab-differs"); ctx.count("tabs-judged")
  for t in tabs: t.ws.disconnect()
  await settle(5)
  for s in srcs: ctx.check(not s.out.is_requested, "demand-remains", lambda: s.topic)
  ctx.nontrivial = n > 5

@family("topics", quick=120, thorough=4000)
async def topics(ctx):
  """Browser tabs open and leave topic views while the topics are written and paused."""
  await topics_case(ctx, False)

@family("spaces", quick=80, thorough=2600)
async def spaces(ctx):
  """The same through topic spaces: a deployment's topic number shows the topic of that deployment."""
  await topics_case(ctx, True)

# ---- hosts, their pages, path registrations

class WebHost(TaskHost):
  def __init__(self, id, version, dynamic, files):
    super().__init__(register_endpoits=["task_manager"])
    self.id, self.version, self.dynamic, self.files = id, version, dynamic, files
  @property
  def metadata(self): return {"js:configurator": "std:x", "cfg:label": self.version, "n": 1, **{("file:" if i % 2 else "FILE:") + p: src for i, (p, (src, _, _)) in enumerate(self.files.items())}}
  async def register_routes(self, router):
    if not self.dynamic: return
    router.add_handler(pages(f"{self.id} {self.version}"))
  async def create_task(self, config, topic_space_id): return WebTask(await self.create_client(topic_space_id), config)

def pages(name):
  router = ASGIRouter()
  @router.get("/dyn/{x}")
  @http_context_handler
  async def _(ctx: HTTPContext): await ctx.respond_text(f"{name} {ctx.params['x']}")
  @router.post("/post")
  @http_context_handler
  async def _(ctx: HTTPContext): await ctx.respond_json({"got": await ctx.receive_json(), "by": name}, status=201)
  @router.websocket_route("/echo")
  @websocket_context_handler
  async def _(ctx: WebsocketContext):
    async for m in ctx.messages(): await ctx.send_message(f"{name} {m}")
  return router

def gen_files(rng, v):
  fs = {}
  for i in range(rng.randrange(4)):
    p = rng.choice((f"/f{i}.js", f"/a/b{i}.txt", f"/noext{i}", f"/p{i}.html"))
    body = f"{v} {text(rng)} é"
    kind = {"js": "javascript", "txt": "text/plain", "html": "text/html"}.get(p.rsplit(".", 1)[-1] if "." in p else "", "text/plain")
    if rng.random() < 0.4:
      raw = rng.randbytes(rng.randint(1, 20)) + v.encode()
      fs[p] = ("data:image/png;base64," + base64.b64encode(raw).decode(), raw, "image/png")
    else: fs[p] = (body, body.encode(), kind)
  return fs

class WebTask(Task):
  """A task with pages of its own."""
  def __init__(self, client, config): super().__init__(client); self.config = config
  async def setup(self):
    self.client.start()
    await self.client.request_address()
    if self.config["slow"]: await asyncio.sleep(0.3)
    if self.config["fails"]: raise ValueError("no")
    m = {"file:/t.txt": f"static {self.config['n']}"}
    if self.config["dynamic"]: m[MetadataFields.ASGISERVER] = endpoint_to_str((self.client.address, NetworkPorts.ASGI))
    return m
  async def run(self):
    if self.config["dynamic"]:
      app = ASGIServer(); app.add_handler(asgi_default_http_error_handler); app.add_handler(pages(f"task {self.config['n']}"))
      t = asyncio.create_task(ASGIAppRunner(self.client, app).run())
    try:
      if self.config["d"] is None: await asyncio.Event().wait()
      await asyncio.sleep(self.config["d"])
      if self.config["ends"] == "failed": raise RuntimeError("failed")
    finally:
      if self.config["dynamic"]: t.cancel()

async def check_pages(ctx, net, prefix, name, files, dynamic, present=True):
  """What is served below a path."""
  rng = ctx.rng
  for p, (_, raw, mime) in files.items():
    r = await call(ctx, net, "GET", prefix + p)
    if present:
      ctx.check(r.status == 200 and r.body == raw, "file-differs", lambda: (prefix + p, r, raw))
      ctx.check(mime in dict(r.headers).get(b"content-type", b"").decode(), "file-type", lambda: (p, r.headers, mime))
      ctx.count("files")
    else: ctx.check(r.status in (404, 500) and r.body != raw, "gone-file-served", lambda: (prefix + p, r))
  x = str(rng.randrange(1000))
  r = await call(ctx, net, "GET", f"{prefix}/dyn/{x}")
  if present and dynamic:
    ctx.check(r.status == 200 and r.body == f"{name} {x}".encode(), "page-differs", lambda: (prefix, r, name, x))
    ctx.count("pages")
    if rng.random() < 0.4:
      r = await call(ctx, net, "POST", f"{prefix}/post", {"x": x}, chunks=rng.choice((1, 3)))
      ctx.check(r.status == 201 and r.json() == {"got": {"x": x}, "by": name}, "post-differs", lambda: (prefix, r))
    if rng.random() < 0.4:
      w = http.WS(net.app, f"{prefix}/echo")
      ctx.check(await opened(ctx, w, prefix), "echo-refused", lambda: (prefix, w.error))
      ms = [text(rng) + "x" for _ in range(rng.randint(1, 5))]
      for m in ms: w.send_text(m)
      await settle(5)
      ctx.check(w.out == [f"{name} {m}" for m in ms], "echo-differs", lambda: (prefix, w.out, ms))
      w.disconnect(); await settle(3)
      ctx.check(w.task.done(), "echo-stays", prefix)
      ctx.count("echoes")
  else: ctx.check(r.status in (404, 500) and r.complete, "missing-page-served", lambda: (prefix, r))
  r = await call(ctx, net, "GET", prefix + "/missing")
  ctx.check(r.status in (404, 500) and r.complete, "missing-file-served", lambda: (prefix, r))

class PathHandler(TaskWebPathHandler):
  def __init__(self, path, id, name, frontend):
    super().__init__(path, frontend)
    self.id, self.name = id, name
  async def run_inner(self):
    app = ASGIServer(); app.add_handler(asgi_default_http_error_handler); app.add_handler(pages(self.name))
    await ASGIAppRunner(self.client, app).run()

async def stop(task):
  task.cancel()
  await asyncio.wait([task], timeout=20)

@family("hosts", quick=120, thorough=4000)
async def hosts(ctx):
  """Task hosts and path handlers come, go and come back changed; what the api lists, announces and serves follows."""
  rng = ctx.rng
  net = await base(ctx)
  live, ver, regs, views = {}, 0, {}, []
  HIDS, PIDS = ["hA", "hB", "hC"], ["p1", "p2"]
  PATHS = {"p1": ["/one/", "/uno/eins/"], "p2": ["/oneself/", "/uno/einsam/", "/zwei/"]}
  async def truth(): return set(live)
  async def listed():
    r = await call(ctx, net, "GET", "/api/task-hosts")
    ctx.check(r.status == 200, "hosts-refused", lambda: r)
    ids = [h["id"] for h in r.json()]
    ctx.check(len(ids) == len(set(ids)), "host-listed-twice", lambda: ids)
    return {h["id"]: h for h in r.json()}
  async def open_view():
    w = http.WS(net.app, "/task-host/updates")
    ctx.check(await opened(ctx, w, "/task-host/updates"), "updates-refused", lambda: w.error)
    async def first():
      while not w.out: await asyncio.sleep(0.001)
    await asyncio.wait_for(first(), 100)
    return w, w.out[0], set(await listed())
  def view_of(v):
    w, _, hosts = v
    hosts = set(hosts)
    for m in w.out[1:]:
      e = json.loads(m)
      ctx.check(set(e) == {"event", "id"} and e["event"] in ("registered", "unregistered"), "odd-update", lambda: m)
      (hosts.add if e["event"] == "registered" else hosts.discard)(e["id"])
    return hosts
  async def start_host(h):
    nonlocal ver
    ver += 1
    v = f"v{ver}"
    host = WebHost(h, v, rng.random() < 0.7, gen_files(rng, v))
    host.vt_task = await attach(ctx, net, host)
    return host
  async def up(host):
    for _ in range(60):
      if host.client is not None and (await listed()).get(host.id, {}).get("address") == host.client.address: return
      await settle(3)
    ctx.check(False, "host-not-listed", lambda: (host.id, host.vt_task))
  for _ in range(rng.randint(5, 14)):
    op = rng.choice(("start", "start", "restart", "stop", "view", "race-view", "race-view", "path", "path", "unpath", "close-view"))
    ctx.op(op); ctx.sigadd(op)
    if op in ("start", "restart", "race-view"):
      free = [h for h in HIDS if (h in live) == (op == "restart")]
      if not free: continue
      h = rng.choice(free)
      if op == "restart":
        old = live.pop(h)
        if rng.random() < 0.5: # the host vanishes without taking leave
          for l in old.vt_links: l.close()
          ctx.count("vanished")
        await stop(old.vt_task)
        await settle(rng.choice((1, 5)))
      vt = None
      if op == "race-view":
        vt = asyncio.create_task(open_view())
        await asyncio.sleep(rng.choice((0, 0, 0.002, 0.01, 0.05)))
      host = await start_host(h)
      host.client = getattr(host, "client", None)
      if vt: views.append(await vt); ctx.count("views")
      await up(host)
      live[h] = host
      ctx.count("hosts")
    elif op == "stop":
      if not live: continue
      await stop(live.pop(rng.choice(sorted(live))).vt_task)
    elif op == "view": views.append(await open_view()); ctx.count("views")
    elif op == "close-view":
      if not views: continue
      w = views.pop(rng.randrange(len(views)))[0]
      w.disconnect() if rng.random() < 0.6 else w.task.cancel()
      await settle(5)
      ctx.check(w.task.done(), "closed-view-stays", None)
    elif op == "path":
      pid = rng.choice(PIDS)
      if pid in regs:
        await stop(regs.pop(pid)[2])
      p, name = rng.choice(PATHS[pid]), f"handler {rng.randrange(10**6)}"
      fe = rng.choice((None, PathRegistrationFrontend(path=rng.choice(("index.html", "std:x", "a/b")), label=text(rng))))
      hd = PathHandler(p, pid, name, fe)
      t = await attach(ctx, net, hd)
      regs[pid] = (p, name, t, fe)
      await settle(10)
      ctx.count("path-handlers")
    elif op == "unpath":
      if not regs: continue
      pid = rng.choice(sorted(regs))
      await send_signal(net.c.client, NetworkAddressNames.TASK_MANAGER_WEB, TaskConstants.SD_TMW_UNREGISTER_PATH, {"id": pid})
      await stop(regs.pop(pid)[2])
      ctx.count("unregistered-paths")
    await settle(5)
    # what is listed
    ls = await listed()
    ctx.check(set(ls) == set(live), "hosts-differ", lambda: (ls, sorted(live)))
    for h in HIDS:
      r = await call(ctx, net, "GET", f"/api/task-host/{h}")
      if h in live:
        ctx.check(r.status == 200 and r.json() == ls[h], "host-differs", lambda: (r, ls[h]))
        ctx.check(ls[h]["metadata"].get("cfg:label") == live[h].version, "host-version", lambda: (ls[h], live[h].version))
      else: ctx.check(r.status == 404, "unknown-host-shown", lambda: (h, r))
    for v in views:
      ctx.check(not v[0].task.done(), "view-closed", lambda: v[0].error)
      ctx.check(view_of(v) == set(live), "view-differs", lambda: (v[0].out, v[2], sorted(live)))
      ctx.count("views-judged")
    # what is served
    for h in (HIDS if rng.random() < 0.5 else [rng.choice(HIDS)]):
      if h in live: await check_pages(ctx, net, f"/task-host/{h}", f"{h} {live[h].version}", live[h].files, live[h].dynamic)
      else: await check_pages(ctx, net, f"/task-host/{h}", "", {}, False, present=False)
    r = await call(ctx, net, "GET", "/api/path-registrations")
    ctx.check(r.status == 200, "paths-refused", lambda: r)
    got = sorted(r.json(), key=lambda x: x["id"])
    want = [{"id": i, "path": p, "frontend": None if fe is None else {"label": fe.label, "path": fe.path}} for i, (p, _, _, fe) in sorted(regs.items())]
    ctx.check(got == want, "paths-differ", lambda: (got, want))
    for pid in PIDS:
      for p in PATHS[pid]:
        if pid in regs and regs[pid][0] == p:
          await check_pages(ctx, net, p[:-1], regs[pid][1], {}, True)
          r = await call(ctx, net, "GET", p[:-1] + "x/dyn/1")
          ctx.check(r.status == 404, "other-path-served", lambda: (p, r))
        else:
          r = await call(ctx, net, "GET", p + "dyn/1")
          ctx.check(r.status == 404, "unregistered-path-served", lambda: (p, r))
    ctx.count("states")
  ctx.nontrivial = True

# ---- deployments: live state of the task instances, pages of the tasks

class Live:
  """What a page showing a deployment knows: the listed instances, and the updates since."""
  def __init__(self, ws, listed): self.ws, self.listed = ws, listed
  def view(self):
    v = dict(self.listed)
    for m in self.ws.out:
      e = json.loads(m)
      v[e["id"]] = e["task_instance"]
    return v

@family("instances", quick=200, thorough=4000)
async def instances(ctx):
  """Deployments are scheduled, started and stopped with pages watching: the listed instances and the updates show how every task ended."""
  rng = ctx.rng
  net = await base(ctx, kinds=FAST)
  hs = [WebHost(f"h{i}", "v", False, {}) for i in range(2)]
  for h in hs: net.workers.append(await attach(ctx, net, h)); await settle(3)
  for _ in range(60):
    if len(await asyncio.wait_for(net.tmc.list_task_hosts(), 100)) == 2: break
    await settle(3)
  async def req(method, path, body=None, ok=True):
    r = await call(ctx, net, method, path, body)
    if ok: ctx.check(r.ok, "request-fails", lambda: (method, path, r))
    return r
  async def listed(d): return {t["id"]: t["task_instance"] for t in (await req("GET", f"/api/deployment/{d}/tasks")).json()}
  n = 0
  for _ in range(rng.randint(1, 3)):
    dep, cfgs, hasty = uid(rng), {}, rng.random() < 0.3
    await req("POST", "/api/deployment", put(None, DeploymentBase(id=dep, label="d")))
    for i in range(rng.randint(1, 4)):
      n += 1
      t = uid(rng)
      cfgs[str(t)] = {"n": n, "d": rng.choice((0, 0, 0, 0.01) if hasty else (None, None, 0, 0, 0.01, 2, 5)), "ends": rng.choice(("ended", "failed")), "fails": rng.random() < 0.1, "slow": rng.random() < 0.3, "dynamic": rng.random() < 0.6}
      await req("PUT", "/api/task", put(None, StoredTask(id=t, deployment_id=dep, task_host_id=f"h{rng.randrange(2)}", label="t", config=cfgs[str(t)], frontend_config={}, inputs=[], outputs=[{"topic_id": 20 + i, "label": "o"}])))
    w = http.WS(net.app, f"/deployment/{dep}/task-instances")
    await opened(ctx, w, "not running"); await settle(5)
    ctx.check(w.task.done() and not w.out, "updates-of-stopped-deployment", lambda: w.out)
    for _ in range(rng.randint(1, 3)):
      await req("POST", f"/api/deployment/{dep}/schedule")
      lives = []
      async def watch():
        w = http.WS(net.app, f"/deployment/{dep}/task-instances")
        ctx.check(await opened(ctx, w, dep), "instances-refused", lambda: w.error)
        lives.append(Live(w, await listed(dep)))
        ctx.count("watches")
      if rng.random() < 0.6: await watch()
      if rng.random() < 0.5:
        for t, inst in (await listed(dep)).items(): # pages of tasks that do not run yet
          r = await req("GET", f"/task/{inst['id']}/t.txt", ok=False)
          ctx.check(r.status in (404, 500), "page-of-scheduled-task", lambda: r)
          ctx.count("early-pages")
      start = asyncio.create_task(req("POST", f"/api/deployment/{dep}/start"))
      k = rng.randrange(3)
      for _ in range(k):
        await asyncio.sleep(rng.choice((0, 0.001, 0.01, 0.1)))
        await watch()
      await start
      ctx.op("started", cfgs); ctx.sigadd(k, len(lives))
      await settle(3)
      async def judge(at):
        ls = await listed(dep)
        ctx.check(set(ls) == set(cfgs), "instances-missing", lambda: (ls, cfgs))
        for t, inst in ls.items():
          c = cfgs[t]
          want = {"failed"} if c["fails"] else {"running"} if c["d"] is None else {"running", c["ends"]} if c["d"] > at else {c["ends"]}
          ctx.check(inst["status"] in want, "instance-status", lambda: (inst, c, at))
          for l in lives:
            v = l.view().get(t)
            ctx.check(v["status"] in want or (v["status"] == "scheduled" and inst["status"] == "running"), "watched-status", lambda: (v, c, at, l.listed, l.ws.out)) # the start is reported by its own response
          if inst["status"] == "running":
            pre = f"/task/{inst['id']}"
            r = await req("GET", pre + "/t.txt", ok=False)
            if (await listed(dep))[t]["status"] == "running":
              ctx.check(r.status == 200 and r.body == f"static {c['n']}".encode(), "task-file", lambda: (r, c))
              if c["d"] is None: await check_pages(ctx, net, pre, f"task {c['n']}", {}, c["dynamic"])
            ctx.count("task-pages")
          ctx.count(f"status-{inst['status']}")
      await judge(1)
      if rng.random() < 0.5: await settle(10); await judge(11)
      if rng.random() < 0.8:
        for l in lives:
          if rng.random() < 0.4: l.ws.disconnect(); l.left = True
        await settle(2)
        await req("POST", f"/api/deployment/{dep}/stop")
        await settle(5)
        for l in lives:
          if getattr(l, "left", False): ctx.check(l.ws.task.done(), "closed-watch-stays", None); continue
          for t, c in cfgs.items():
            st = l.view()[t]["status"]
            ctx.check(st == ("failed" if c["fails"] else "stopped" if c["d"] is None else st if st in ("stopped", c["ends"]) else c["ends"]), "watched-end", lambda: (st, c, l.ws.out))
          l.ws.disconnect()
        await settle(5)
        for l in lives: ctx.check(l.ws.task.done(), "closed-watch-stays", None)
        ls = await listed(dep)
        ctx.check(all(v is None for v in ls.values()), "instances-remain", lambda: ls)
        ctx.count("stops")
      else: break
  ctx.nontrivial = True
