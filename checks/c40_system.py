"""C40: nodes started as processes work as one system."""
import asyncio, ctypes, fcntl, json, os, signal, socket, sys, urllib.parse, uuid
import httpx, websockets
from streamtasks.system.helpers import get_all_task_hosts
from vlib.core import REPO, family

N_HOSTS = len(get_all_task_hosts())
LONG = 40.0 # what takes longer than this on a machine under load does not happen

def die_with_parent(): ctypes.CDLL(None).prctl(1, signal.SIGKILL)

def free_port(ctx):
  """Outside the range the system gives to outgoing connections, and of no other case that runs now."""
  while True:
    p = ctx.rng.randrange(12000, 30000)
    mark, ok = socket.socket(socket.AF_UNIX), True
    try: mark.bind("\0vt-c40-%d" % p) # held until the case ends
    except OSError: mark.close(); continue
    ctx.cleanups.append(mark.close)
    for fam, host in ((socket.AF_INET, "127.0.0.1"), (socket.AF_INET6, "::1")):
      with socket.socket(fam) as s:
        s.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
        try: s.bind((host, p))
        except OSError: ok = False
    if ok: return p

class Node:
  """One process of the system."""
  def __init__(self, sys_, name, core):
    self.sys, self.name, self.core, self.proc = sys_, name, core, None
    self.serve, self.parent, self.url, self.port = [], None, None, None
  async def start(self, tries=2):
    s = self.sys
    self.port = free_port(s.ctx)
    args, web = ["-C"] if self.core else [], {}
    s.rng.choice((lambda: args.extend(("-P", str(self.port))), lambda: args.extend(("--web-port", str(self.port))), lambda: web.update(WEB_PORT=str(self.port))))()
    logfile = os.path.join(s.dir, "own-log-%d" % s.nodes.index(self)) if s.rng.random() < 0.3 else None
    if logfile: args += ["--log-file", logfile, "-L", s.rng.choice(("info", "DEBUG", "warning"))]
    for u in self.serve: args += ["--serve", u]
    if self.url is not None: args += ["--connect", self.url]
    data = os.path.join(s.dir, "data-%d" % s.nodes.index(self))
    os.makedirs(data, exist_ok=True)
    env = {**os.environ, **web, "DATA_DIR": data, "NODE_NAME": self.name, "TMPDIR": s.tmp, "PYTHONPATH": REPO, "PYTHONDONTWRITEBYTECODE": "1"}
    self.log = os.path.join(s.dir, "log-%d" % s.nodes.index(self))
    with open(self.log, "ab") as f:
      self.proc = await asyncio.create_subprocess_exec(sys.executable, "-m", "streamtasks", *args, cwd=s.dir, env=env, stdin=asyncio.subprocess.DEVNULL, stdout=f, stderr=f, preexec_fn=die_with_parent)
    proc = self.proc
    s.ctx.cleanups.append(lambda: proc.returncode is None and proc.kill())
    s.ctx.op("start", self.name, args); s.ctx.count("processes")
    while self.running: # a node gives up waiting for the discovery after two seconds, which is little under load
      with socket.socket() as k:
        if k.connect_ex(("127.0.0.1", self.port)) == 0: return
      await asyncio.sleep(0.1)
    if tries and "TimeoutError" in self.tail()[self.name]: s.ctx.count("slow_starts"); await asyncio.sleep(2); await self.start(tries - 1)
  @property
  def running(self): return self.proc is not None and self.proc.returncode is None
  def tail(self):
    """What the nodes said last, without the usual."""
    r = {}
    for n in self.sys.nodes:
      with open(n.log, errors="replace") as f: r[n.name] = "".join([l for l in f if "ASGI instance" not in l and "200 OK" not in l][-25:])[-1200:]
    return r
  async def stop(self):
    """Stopped by the user, it ends soon and as it should."""
    s = self.sys
    s.ctx.op("stop", self.name)
    self.proc.send_signal(signal.SIGINT)
    try: rc = await asyncio.wait_for(self.proc.wait(), LONG)
    except TimeoutError: s.ctx.fail("does-not-end", {"node": self.name, "log": self.tail()})
    s.ctx.eq(rc, 0, "exit-status", self.name)
    for p in [self.port] + [urllib.parse.urlparse(u).port for u in self.serve if "localhost" in u]:
      with socket.socket() as k: s.ctx.check(k.connect_ex(("127.0.0.1", p)) != 0, "port-still-open", lambda: (self.name, p))
    s.ctx.count("stops")
  async def kill(self):
    self.sys.ctx.op("kill", self.name)
    self.proc.kill(); await self.proc.wait(); self.sys.ctx.count("kills")

class System:
  def __init__(self, ctx, http):
    self.ctx, self.rng, self.http, self.nodes, self.patient, self.brief = ctx, ctx.rng, http, [], False, lambda v: {k: sum(h["metadata"]["nodename"] == k for h in v) for k in {h["metadata"]["nodename"] for h in v}} if v and isinstance(v, list) and 'address' in v[0] else str(v)[:300]
    self.dir = ctx.tmpdir()
    self.tmp = os.path.join(self.dir, "t"); os.makedirs(self.tmp)
    names = ctx.rng.sample(("aa", "node-1", "worker_2", "Studio A", "zoë", "HOST.local", "x"), 4)
    self.names = names
  def up(self): return [n for n in self.nodes if n.running]
  async def req(self, node, method, path, body=None, timeout=LONG):
    self.ctx.count("requests")
    return await self.http.request(method, f"http://localhost:{node.port}{path}", json=body, timeout=timeout)
  async def ok(self, node, method, path, body=None):
    """A request of the user that has to work."""
    for n in self.nodes: self.ctx.check(n.running or not n.wanted, "node-died", lambda: {"node": n.name, "log": n.tail()})
    tries = 4 if self.patient else 0 # links were just made again; what was under way meanwhile is lost
    try:
      while True:
        try: r = await self.req(node, method, path, body, 10 if tries else LONG); break
        except httpx.TimeoutException:
          if not tries or method == "POST" and not path.endswith("/value"): raise
          tries -= 1; self.ctx.count("lost_requests")
    except httpx.HTTPError as e: self.ctx.fail("request-fails", {"node": node.name, "request": (method, path, body), "error": repr(e), "log": node.tail()})
    self.ctx.check(r.is_success, "request-refused", lambda: {"node": node.name, "request": (method, path, body), "answer": (r.status_code, r.text[:500]), "log": node.tail()})
    return r.json() if r.headers.get("content-type", "").startswith("application/json") else None
  async def until(self, node, path, cond, mech, where=None):
    """Within reasonable time the answer is as expected."""
    end, last = asyncio.get_running_loop().time() + LONG, None
    while asyncio.get_running_loop().time() < end:
      self.ctx.check(node.running, "node-died", lambda: {"node": node.name, "log": node.tail()})
      try:
        r = await self.req(node, "GET", path, timeout=5); last = r.status_code, r.json() if self.brief is None else self.brief(r.json())
        if r.status_code == 200:
          v = r.json()
          if cond(v): self.ctx.count("seen"); return v
      except httpx.HTTPError as e: last = repr(e)
      await asyncio.sleep(0.2)
    self.ctx.fail(mech, {"node": node.name, "path": path, "where": where, "last": last, "log": node.tail()})
  # ---- network
  def plan(self, n, chain=False):
    """A tree of nodes; how each is reached is chosen freely."""
    rng = self.rng
    for i in range(n):
      node = Node(self, self.names[i], i == 0); self.nodes.append(node); node.wanted = False
      if i == 0: continue
      p = node.parent = self.nodes[i - 1 if chain else rng.randrange(i)]
      auth, cost = rng.choice(("", "", "user:pw@")), rng.choice(("", "", "?cost=3"))
      kind = rng.choice(("tcp", "ws", "unix", "node", "name"))
      port, sock = free_port(self.ctx), os.path.join(self.tmp, "s%d.sock" % i)
      if kind == "tcp" or kind == "ws": p.serve.append(f"{kind}://{auth}localhost:{port}{cost}"); node.url = p.serve[-1]
      elif kind == "unix": p.serve.append(f"unix://{sock}{cost}"); node.url = p.serve[-1]
      elif kind == "node" and p.name.isascii() and " " not in p.name: node.url = f"node://{p.name}{cost}"
      else: node.url = p.name
      self.ctx.sigadd(i, self.nodes.index(p), kind, bool(auth), cost)
  async def start_all(self):
    for n in self.nodes:
      await n.start(); n.wanted = True
      await self.joined(n)
  async def joined(self, node, again=False):
    """Every page of the system shows the hosts of the node."""
    for n in self.up():
      def there(hosts):
        mine = [h for h in hosts if h["metadata"].get("nodename") == node.name]
        return len({h["id"] for h in mine}) == N_HOSTS == len(mine)
      hosts = await self.until(n, "/api/task-hosts", there, "hosts-missing", node.name)
    self.ctx.check(len({h["id"] for h in hosts}) == len(hosts), "hosts-twice", lambda: sorted(h["id"] for h in hosts))
    return hosts
  async def same_view(self):
    """Whichever node is asked, the answer is the same."""
    for path in ("/api/task-hosts", "/api/deployments", "/api/path-registrations", "/named-topics/api/named-topics", "/"):
      answers = []
      for n in self.up():
        r = await self.req(n, "GET", path)
        self.ctx.check(r.status_code == 200, "request-refused", lambda: (n.name, path, r.status_code, r.text[:300]))
        answers.append(r.text)
      self.ctx.check(len(set(answers)) == 1, "nodes-disagree", lambda: (path, [a[:300] for a in answers]))
  def a(self): return self.rng.choice(self.up())
  # ---- a deployment over several nodes
  async def deploy(self, hosts, on=None):
    rng = self.rng
    def host(label):
      node = on if on is not None and rng.random() < 0.7 else self.a()
      self.used.add(node)
      return next(h for h in hosts if h["metadata"]["nodename"] == node.name and h["metadata"].get("cfg:label", "").lower() == label.lower())
    self.used = set()
    d = await self.ok(self.a(), "POST", "/api/deployment", {"label": "d%d" % rng.randrange(1000)})
    k, m = rng.randint(-9, 9), rng.randint(1, 9)
    T = rng.sample(range(2, 10 ** 9), 3) # as the editor chooses them; 0 and 1 are topics of the system
    def task(label, config, inputs, outputs):
      return {"id": str(uuid.UUID(int=rng.getrandbits(128), version=4)), "deployment_id": d["id"], "task_host_id": host(label)["id"], "label": label, "config": config, "frontend_config": {"position": {"x": 1.5, "y": -2}},
              "inputs": [{"key": "i%d" % i, "topic_id": t} for i, t in enumerate(inputs)], "outputs": [{"key": "o%d" % i, "topic_id": t} for i, t in enumerate(outputs)]}
    tasks = [
      task("Slider UI", {"label": "s", "default_value": 0, "min_value": -100, "max_value": 100, "repeat_interval": rng.choice((0.1, 1, 60)), "out_topic": T[0]}, [], [T[0]]),
      task("Calculator", {"formula": "a * %d + (%d)" % (m, k), "synchronized": rng.random() < 0.5, "variable_tracks": [{"name": "a", "default_value": 0, "in_topic": T[0]}], "out_topic": T[1]}, [T[0]], [T[1]]),
      task("Number To Text", {"in_topic": T[1], "out_topic": T[2]}, [T[1]], [T[2]]),
      task("Text Display", {"in_topic": T[2], "append": False}, [T[2]], []),
    ]
    dep = {"id": d["id"], "tasks": tasks, "f": lambda x: x * m + k, "topics": T, "label": d["label"]}
    for t in rng.sample(tasks, 4): await self.ok(self.a(), "PUT", "/api/task", t)
    self.ctx.op("deployment", dep["id"], [(t["label"], t["task_host_id"], t["config"]) for t in tasks])
    return dep
  async def stored(self, dep):
    """The deployment and its tasks are as they were entered."""
    n = self.a()
    ds = await self.ok(n, "GET", "/api/deployments")
    self.ctx.check([d["label"] for d in ds if d["id"] == dep["id"]] == [dep["label"]], "deployment-lost", lambda: (dep["id"], ds))
    ts = await self.ok(n, "GET", f"/api/deployment/{dep['id']}/tasks")
    got = {t["id"]: {k: v for k, v in t.items() if k != "task_instance"} for t in ts}
    self.ctx.check(got == {t["id"]: t for t in dep["tasks"]}, "tasks-differ", lambda: {"stored": got, "entered": dep["tasks"]})
    self.ctx.count("stored")
  async def play(self, dep, tries=2):
    """Started, what is set on one node is shown on the other."""
    rng = self.rng
    r = await self.ok(self.a(), "POST", f"/api/deployment/{dep['id']}/schedule")
    self.ctx.eq(r["status"], "scheduled", "deployment-status")
    r = await self.ok(self.a(), "POST", f"/api/deployment/{dep['id']}/start")
    self.ctx.eq(r["status"], "running", "deployment-status")
    ts = await self.ok(self.a(), "GET", f"/api/deployment/{dep['id']}/tasks")
    if tries and any(t["task_instance"]["status"] == "failed" and not t["task_instance"]["error"] for t in ts): # a host gives up setting up a task after a second, which is little under load
      self.ctx.count("slow_setups")
      await self.end(dep); await asyncio.sleep(2)
      return await self.play(dep, tries - 1)
    for t in ts: self.ctx.check(t["task_instance"]["status"] == "running", "task-not-running", lambda: t)
    inst = {t["label"]: t["task_instance"] for t in ts}
    space = inst["Calculator"]["topic_space_id"]
    n = self.a()
    async with websockets.connect(f"ws://localhost:{n.port}/topic/{space}/{dep['topics'][2]}", open_timeout=LONG) as ws:
      for _ in range(rng.randint(1, 3)):
        x = rng.randint(-100, 100); want = float(dep["f"](x))
        self.ctx.op("set", x)
        await self.ok(self.a(), "POST", f"/task/{inst['Slider UI']['id']}/value", {"value": x})
        def shows(v):
          try: return float(v["value"]) == want
          except ValueError: return False
        await self.until(self.a(), f"/task/{inst['Text Display']['id']}/value", shows, "value-does-not-arrive", (x, want))
        try:
          while True:
            m = json.loads(await asyncio.wait_for(ws.recv(), LONG))
            if m["type"] == "data" and float(m["data"]["value"]) == want: break
        except TimeoutError: self.ctx.fail("topic-not-shown", {"node": n.name, "want": want})
        self.ctx.count("values")
    dep["inst"] = inst
  async def end(self, dep):
    r = await self.ok(self.a(), "POST", f"/api/deployment/{dep['id']}/stop")
    self.ctx.eq(r["status"], "offline", "deployment-status")

async def slot(ctx):
  """Not every shard runs at once, their processes would wait for each other."""
  fs = [open(os.path.join(os.environ["VT_WORK"], "slot-%d" % i), "a") for i in range(5)]
  ctx.cleanups.append(lambda: [f.close() for f in fs])
  while True:
    for f in fs:
      try: return fcntl.flock(f, fcntl.LOCK_EX | fcntl.LOCK_NB)
      except OSError: pass
    await asyncio.sleep(0.1)

async def run(ctx, body):
  await slot(ctx)
  # proxies of the environment must not be asked
  async with httpx.AsyncClient(timeout=LONG, trust_env=False) as http:
    s = System(ctx, http)
    await body(s)
    for n in s.up(): await n.kill()
  ctx.nontrivial = True

@family("spread", quick=16, thorough=400, loop="real", cpu_limit=150)
async def spread(ctx):
  """Deployments over several nodes work, whichever nodes are asked; stopped nodes withdraw their hosts, killed ones can come back."""
  async def body(s):
    rng = ctx.rng
    s.plan(rng.randint(2, 3))
    await s.start_all()
    hosts = await s.joined(s.nodes[-1])
    await s.same_view()
    dep = await s.deploy(hosts); await s.stored(dep)
    await s.play(dep)
    await s.same_view()
    await s.end(dep)
    leaf = s.nodes[-1] # nobody is connected over it
    how = rng.choice(("stop", "kill"))
    leaf.wanted = False
    if how == "stop":
      await leaf.stop()
      for n in s.up(): await s.until(n, "/api/task-hosts", lambda hs: all(h["metadata"]["nodename"] != leaf.name for h in hs) and len(hs) == N_HOSTS * (len(s.nodes) - 1), "hosts-stay", leaf.name)
    else: await leaf.kill()
    await s.same_view()
    ctx.sigadd(how)
    if rng.random() < 0.7:
      await leaf.start(); leaf.wanted = True
      if how == "stop": hosts = await s.joined(leaf)
      else: # its old registrations are replaced one by one
        await s.until(leaf, "/api/task-hosts", lambda hs: True, "does-not-come-back")
        end = asyncio.get_running_loop().time() + LONG
        old = {h["id"]: h["address"] for h in hosts if h["metadata"]["nodename"] == leaf.name}
        hosts = await s.until(leaf, "/api/task-hosts", lambda hs: all(h["address"] != old.get(h["id"]) for h in hs) and len(hs) == N_HOSTS * len(s.nodes), "hosts-missing", leaf.name)
      dep = await s.deploy(hosts, leaf); await s.stored(dep)
      await s.play(dep)
      if rng.random() < 0.5: await s.end(dep)
      ctx.count("returns")
    order = s.up(); order.reverse()
    for n in order: n.wanted = False; await n.stop()
  await run(ctx, body)

@family("again", quick=8, thorough=240, loop="real", cpu_limit=150)
async def again(ctx):
  """What was entered is there after the whole system was stopped, or killed, and started again."""
  async def body(s):
    rng = ctx.rng
    s.plan(rng.randint(1, 2))
    await s.start_all()
    hosts = await s.joined(s.nodes[-1])
    deps = [await s.deploy(hosts) for _ in range(rng.randint(1, 2))]
    names = {}
    for i in range(rng.randint(0, 3)):
      e = {"name": "n%d" % i, "metadata": {"type": "ts", "x": rng.randint(0, 9)}}
      await s.ok(s.a(), "PUT", "/named-topics/api/named-topic", e); names[e["name"]] = e
    conns = []
    for n in s.nodes:
      if rng.random() < 0.5: continue
      path = next(p["path"] for p in await s.ok(s.a(), "GET", "/api/path-registrations") if p["frontend"] and p["frontend"]["label"] == f"Connections ({n.name})")
      url = "tcp://localhost:%d" % free_port(ctx)
      await s.ok(s.a(), "POST", path + "api/server", {"url": url}); conns.append((n, path, url))
    if rng.random() < 0.6: await s.play(deps[0])
    for r in range(2):
      order = list(s.nodes); order.reverse()
      how = rng.choice(("stop", "kill")); ctx.sigadd(how)
      for n in order:
        n.wanted = False
        if how == "stop": await n.stop()
        else: await n.kill()
      await s.start_all()
      hosts = await s.joined(s.nodes[-1])
      await s.same_view()
      for d in deps: await s.stored(d)
      for d in await s.ok(s.a(), "GET", "/api/deployments"): ctx.eq(d["status"], "offline", "deployment-status")
      got = await s.ok(s.a(), "GET", "/named-topics/api/named-topics")
      ctx.check(sorted(got, key=lambda e: e["name"]) == [names[k] for k in sorted(names)], "named-topics-lost", lambda: (got, names))
      for n, path, url in conns:
        await s.until(s.a(), path + "api/servers", lambda v: [(e["url"], e["running"]) for e in v] == [(url, True)], "server-lost", url)
        p = urllib.parse.urlparse(url).port
        with socket.socket() as k: k.settimeout(5); ctx.check(k.connect_ex(("127.0.0.1", p)) == 0 or k.connect_ex(("127.0.0.1", p)) == 0, "server-not-listening", lambda: (n.name, url))
        ctx.count("servers")
      await s.play(rng.choice(deps))
      ctx.count("restarts")
  await run(ctx, body)

@family("middle", quick=8, thorough=200, loop="real", cpu_limit=150)
async def middle(ctx):
  """A node that connects others to the system goes and comes back; the others go on as soon as it is there again."""
  async def body(s):
    rng = ctx.rng
    s.plan(3, True)
    await s.start_all()
    hosts = await s.joined(s.nodes[-1])
    core, mid, leaf = s.nodes
    here = [h for h in hosts if h["metadata"]["nodename"] != mid.name]
    dep = None
    if rng.random() < 0.5: dep = await s.deploy(hosts); await s.play(dep); await s.end(dep)
    for _ in range(rng.randint(1, 2)):
      mid.wanted = False
      if rng.random() < 0.5: await mid.kill()
      else: await mid.stop()
      await asyncio.sleep(rng.choice((0, 0.3, 2)))
      await s.ok(core, "GET", "/api/deployments")
      await mid.start(); mid.wanted = True
      await s.until(leaf, "/api/deployments", lambda v: True, "does-not-reconnect", leaf.name)
      await s.until(mid, "/api/deployments", lambda v: True, "does-not-come-back", mid.name)
      for n in (core, leaf):
        await s.until(n, "/api/task-hosts", lambda hs: sum(h["metadata"]["nodename"] == leaf.name for h in hs) == N_HOSTS == sum(h["metadata"]["nodename"] == core.name for h in hs), "hosts-missing", leaf.name)
      for _ in range(8): # the routes are stable
        await asyncio.sleep(0.25)
        for n in (core, leaf): await s.until(n, "/api/deployments", lambda v: True, "does-not-reconnect", n.name)
      s.patient = True
      up, s.up = s.up, lambda: [core, leaf] # hosts of the node that came back may still be the ones before
      dep = await s.deploy(here, leaf); await s.stored(dep)
      await s.play(dep); await s.end(dep)
      s.up, s.patient = up, False
      ctx.count("reconnects")
  await run(ctx, body)
