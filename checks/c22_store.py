"""C22: the store keeps ids unique and running deployments immutable."""
import asyncio, contextlib, io, os, uuid
from streamtasks.client.fetch import FetchError
from streamtasks.asgi import ASGIProxyApp
from streamtasks.pydanticdb import PydanticDB
from streamtasks.services.constants import NetworkAddressNames
from streamtasks.system.task import Task, TaskHost, TaskInstance, TaskManager, TaskManagerClient, TaskStatus
from streamtasks.system.task_web import DeploymentBase, DeploymentDashboard, DeploymentDashboardWindow, RunningDeployment, StoredTask, TaskWebBackend, TaskWebBackendStore
from vlib import http
from vlib.core import HarnessError, Violation, family
from vlib.disco import *
from vlib.values import text

def uid(rng): return uuid.UUID(int=rng.getrandbits(128), version=4)

def put(model, e):
  """Both representations of an entry: plain json dict"""
  return e.model_dump(mode="json")

class Model:
  """What the store must contain."""
  def __init__(self, rng, n=3):
    self.rng = rng
    self.dids, self.tids, self.bids = [uid(rng) for _ in range(n)], [uid(rng) for _ in range(n + 2)], [uid(rng) for _ in range(n)]
    self.dep, self.task, self.dash, self.running = {}, {}, {}, {}
  def new_dep(self): return DeploymentBase(id=self.rng.choice(self.dids), label=text(self.rng))
  def new_task(self, host=None):
    rng = self.rng
    return StoredTask(id=rng.choice(self.tids), deployment_id=rng.choice(self.dids), task_host_id=host or text(rng), label=text(rng), config={"x": rng.randrange(100), text(rng): [1, {"a": text(rng)}]},
                      frontend_config={"position": {"x": rng.random()}}, inputs=[{"topic_id": rng.randrange(5)}], outputs=[{"topic_id": rng.randrange(5), "label": text(rng)} for _ in range(rng.randrange(3))])
  def new_dash(self):
    rng = self.rng
    return DeploymentDashboard(id=rng.choice(self.bids), deployment_id=rng.choice(self.dids), label=text(rng), windows=[DeploymentDashboardWindow(task_id=rng.choice(self.tids), x=rng.random(), y=1, width=2, height=rng.randrange(5)) for _ in range(rng.randrange(3))])
  def frozen_task(self, tid): return tid in self.task and uuid.UUID(self.task[tid]["deployment_id"]) in self.running

def by_id(ctx, entries, what):
  ids = [str(e["id"]) for e in entries]
  ctx.check(len(ids) == len(set(ids)), f"duplicate-{what}-id", lambda: entries)
  return {uuid.UUID(str(e["id"])): e for e in entries}

def check_disk(ctx, m, d):
  for what, cls, want in (("deployments", DeploymentBase, m.dep), ("tasks", StoredTask, m.task), ("dashboards", DeploymentDashboard, m.dash)):
    fn = os.path.join(d, "user-data", f"{what}.json")
    got = by_id(ctx, [e.model_dump(mode="json") for e in PydanticDB(cls, fn).entries], what[:-1])
    ctx.check(got == want, f"disk-{what}-differ", lambda: (got, want))

async def check_store(ctx, m, store, d):
  deps = by_id(ctx, [x.model_dump(mode="json") for x in await store.all_deployments()], "deployment")
  want = {i: {**v, "status": m.running.get(i, "offline")} for i, v in m.dep.items()}
  ctx.check(deps == want, "deployments-differ", lambda: (deps, want))
  tasks = by_id(ctx, [x.model_dump(mode="json") for x in await store.all_tasks()], "task")
  got_inst = {i: t.pop("task_instance") for i, t in tasks.items()}
  ctx.check(tasks == m.task, "tasks-differ", lambda: (tasks, m.task))
  for i, inst in got_inst.items():
    rd = store.running_deployments.get(uuid.UUID(m.task[i]["deployment_id"]))
    ctx.check((inst is not None) == (rd is not None and i in rd.task_instances), "task-instance-presence", lambda: (i, inst))
    if inst is not None: ctx.check(inst["id"] == str(rd.task_instances[i].id), "task-instance-wrong", lambda: inst)
  dash = by_id(ctx, [x.model_dump(mode="json") for x in await store.all_dashboards()], "dashboard")
  ctx.check(dash == m.dash, "dashboards-differ", lambda: (dash, m.dash))
  for i in m.dids:
    ts = by_id(ctx, [x.model_dump(mode="json") for x in await store.all_tasks_in_deployment(i)], "task")
    ctx.check(set(ts) == {k for k, v in m.task.items() if v["deployment_id"] == str(i)}, "tasks-of-deployment-differ", lambda: (i, ts))
    bs = by_id(ctx, [x.model_dump(mode="json") for x in await store.all_dashboards_in_deployment(i)], "dashboard")
    ctx.check(bs == {k: v for k, v in m.dash.items() if v["deployment_id"] == str(i)}, "dashboards-of-deployment-differ", lambda: (i, bs))
  for get, ids, want in ((store.get_deployment, m.dids, m.dep), (store.get_task, m.tids, m.task), (store.get_dashboard, m.bids, m.dash)):
    for i in ids:
      try: e = (await get(i)).model_dump(mode="json")
      except Exception as ex:
        ctx.check(i not in want, f"{get.__name__}-fails", lambda: (i, repr(ex)))
        continue
      ctx.check(i in want, f"{get.__name__}-of-unknown", lambda: (i, e))
      ctx.check({k: v for k, v in e.items() if k not in ("status", "task_instance")} == want[i], f"{get.__name__}-differs", lambda: (e, want[i]))
  check_disk(ctx, m, d)
  ctx.count("states")

def store_in(ctx):
  d = ctx.tmpdir()
  os.environ["DATA_DIR"] = d
  return d

@family("store", quick=250, thorough=9000)
async def store(ctx):
  """Random histories directly on the store, against a model; after every operation memory and disk are compared."""
  rng = ctx.rng
  d = store_in(ctx)
  m, st = Model(rng), TaskWebBackendStore()
  for _ in range(rng.randint(8, 40)):
    op = rng.choice(("cdep", "cdep", "udep", "ddep", "task", "task", "task", "dtask", "dash", "ddash", "run", "start", "stop", "reopen", "mutate"))
    ok, refused = None, None
    async def attempt(coro):
      try: await coro
      except Exception as e: return repr(e)
    if op == "cdep":
      e = m.new_dep(); refused = await attempt(st.create_deployment(e)); ok = e.id not in m.dep and e.id not in m.running
      if ok: m.dep[e.id] = put(None, e)
    elif op == "udep":
      e = m.new_dep(); refused = await attempt(st.update_deployment(e)); ok = e.id in m.dep and e.id not in m.running
      if ok: m.dep[e.id] = put(None, e)
    elif op == "ddep":
      i = rng.choice(m.dids); refused = await attempt(st.delete_deployment(i)); ok = i not in m.running if i in m.dep else None
      if ok: m.dep.pop(i, None)
    elif op == "task":
      e = m.new_task(); refused = await attempt(st.create_or_update_task(e)); ok = e.deployment_id not in m.running and not m.frozen_task(e.id)
      if ok: m.task[e.id] = put(None, e)
      if e.id in m.task and not ok: ctx.count("refused-existing")
      if m.frozen_task(e.id) and e.deployment_id not in m.running: ctx.count("move-out-refused")
      if e.id in m.task and not m.frozen_task(e.id) and e.deployment_id in m.running: ctx.count("move-in-refused")
    elif op == "dtask":
      i = rng.choice(m.tids); refused = await attempt(st.delete_task(i)); ok = (not m.frozen_task(i)) if i in m.task else None
      if ok: m.task.pop(i, None)
    elif op == "dash":
      e = m.new_dash(); refused = await attempt(st.create_or_update_dashboard(e)); ok = True
      m.dash[e.id] = put(None, e)
    elif op == "ddash":
      i = rng.choice(m.bids); refused = await attempt(st.delete_dashboard(i)); ok = True if i in m.dash else None
      m.dash.pop(i, None)
    elif op == "run":
      free = [i for i in m.dep if i not in m.running]
      if not free: continue
      i = rng.choice(free)
      tis = {t: TaskInstance(id=uid(rng), host_id="h", metadata={}, error=None, status=TaskStatus.scheduled) for t, v in m.task.items() if v["deployment_id"] == str(i)}
      st.set_running_deployment(RunningDeployment(id=i, topic_space_id=5, task_instances=tis, task_instance_configs={}))
      m.running[i] = "scheduled"
    elif op == "start":
      if not m.running: continue
      i = rng.choice(list(m.running)); st.get_running_deployment(i).started = True; m.running[i] = "running"
    elif op == "stop":
      if not m.running: continue
      i = rng.choice(list(m.running)); st.delete_running_deployment(i); m.running.pop(i)
    elif op == "reopen":
      old = st.running_deployments
      st = TaskWebBackendStore()
      for r in old.values(): st.set_running_deployment(r)
    elif op == "mutate":
      for x in await st.all_tasks(): x.config["mutated"] = 1; x.label += "m"; x.deployment_id = m.dids[0]; x.outputs.append({"topic_id": 99})
      for x in await st.all_deployments(): x.label += "m"; x.status = "running"
      for x in await st.all_dashboards(): x.windows.clear(); x.label = "m"
    ctx.op(op, ok, refused)
    ctx.sigadd(op, ok)
    if ok is not None: ctx.check(ok == (refused is None), f"{op}-{'refused' if ok else 'not-refused'}", lambda: (refused, e if op in ("cdep", "udep", "task", "dash") else i, m.running))
    if ok is False: ctx.count("refusals"); ctx.nontrivial = True
    await check_store(ctx, m, st, d)

class StoreTask(Task):
  def __init__(self, client, config, host): super().__init__(client); self.config, self.host = config, host
  async def run(self):
    self.host.active.append(self.config["n"])
    try:
      d = self.config["d"]
      if d is None: await asyncio.Event().wait()
      await asyncio.sleep(d)
      if self.config["fails"]: raise RuntimeError("task failed")
    finally: self.host.active.remove(self.config["n"])

class StoreHost(TaskHost):
  def __init__(self, id, **kw): super().__init__(**kw); self.id = id; self.active, self.created = [], []
  async def create_task(self, config, topic_space_id):
    if config.get("create_fails"): raise ValueError("bad config")
    self.created.append((config["n"], topic_space_id))
    return StoreTask(await self.create_client(topic_space_id), config, self)

async def attach(ctx, net, worker):
  a, b, _, _ = await make_pair(ctx.rng, ctx.rng.choice(("queue", "rawqueue", "sock", "v-zero")))
  await net.switches[ctx.rng.randrange(len(net.switches))].add_link(a)
  await worker.switch.add_link(b)
  if not isinstance(worker, TaskHost): await settle(3) # the system's builder waits for the discovery before it starts these
  return asyncio.create_task(worker.run())

async def system(ctx):
  rng = ctx.rng
  net = await with_discovery(ctx, KINDS, rng.randint(1, 3))
  net.data = store_in(ctx)
  net.workers = []
  net.tm, net.backend = TaskManager(), TaskWebBackend()
  net.hosts = [StoreHost(f"host{i}", register_endpoits=["task_manager"]) for i in range(2)]
  for w in (net.tm, net.backend, *net.hosts): net.workers.append(await attach(ctx, net, w)); await settle(3)
  c = await net.add_client(); await c.client.request_address()
  net.tmc = TaskManagerClient(c.client)
  net.app = ASGIProxyApp(c.client, NetworkAddressNames.TASK_MANAGER_WEB)
  for _ in range(50):
    if len(await asyncio.wait_for(net.tmc.list_task_hosts(), 100)) == 2: break
    await settle(3)
  try: await asyncio.wait_for(wait_name(c.client), 100)
  except TimeoutError: raise HarnessError(repr(net.workers) + str(net.discovery_task))
  return net

async def wait_name(client):
  from streamtasks.client.discovery import wait_for_address_name
  await wait_for_address_name(client, NetworkAddressNames.TASK_MANAGER_WEB)

CALLS = {
  "cdep": lambda e: ("POST", "/api/deployment", e), "udep": lambda e: ("PUT", "/api/deployment", e), "ddep": lambda i: ("DELETE", f"/api/deployment/{i}", None),
  "task": lambda e: ("PUT", "/api/task", e), "dtask": lambda i: ("DELETE", f"/api/task/{i}", None), "dash": lambda e: ("PUT", "/api/dashboard", e), "ddash": lambda i: ("DELETE", f"/api/dashboard/{i}", None),
  "schedule": lambda i: ("POST", f"/api/deployment/{i}/schedule", None), "start": lambda i: ("POST", f"/api/deployment/{i}/start", None), "stop": lambda i: ("POST", f"/api/deployment/{i}/stop", None),
}

class H:
  """The http side of one case: model, histories of instances."""
  def __init__(self, ctx, net):
    self.ctx, self.net, self.rng = ctx, net, ctx.rng
    self.m = Model(self.rng)
    self.n = 0
    self.inst = {}       # deployment -> {task: {"id", "n", "started", "host"}}
    self.broken = set()  # deployments of which a start failed
  def task(self):
    rng = self.rng
    e = self.m.new_task(host=rng.choice(("host0", "host1", "host0", "host1", "host0", "host1", "nohost")))
    e.config = {"n": self.n, "d": rng.choice((None, None, None, 0, 5, 50)), "fails": rng.random() < 0.3, "create_fails": rng.random() < 0.08}
    self.n += 1
    return e
  async def call(self, op, arg):
    method, path, body = CALLS[op](arg)
    with contextlib.redirect_stdout(io.StringIO()):
      r = await http.call(self.net.app, method, path, body, chunks=self.rng.choice((1, 2)))
    self.ctx.check(r.complete, "no-response", (op, r))
    self.ctx.count("requests")
    return r
  async def get(self, path):
    r = await http.call(self.net.app, "GET", path)
    return r
  async def getj(self, path):
    r = await self.get(path)
    self.ctx.check(r.ok, "get-fails", lambda: (path, r))
    return r.json()
  async def observe(self):
    """Everything the api shows, with the invariants that hold for every history."""
    ctx, m = self.ctx, self.m
    deps = by_id(ctx, await self.getj("/api/deployments"), "deployment")
    tasks, dash = {}, {}
    for i in m.dids:
      ts = by_id(ctx, await self.getj(f"/api/deployment/{i}/tasks"), "task")
      ctx.check(not set(ts) & set(tasks), "duplicate-task-id", lambda: (ts, tasks))
      ctx.check(all(t["deployment_id"] == str(i) for t in ts.values()), "foreign-task-listed", lambda: (i, ts))
      tasks.update(ts)
      dash.update(by_id(ctx, await self.getj(f"/api/deployment/{i}/dashboards"), "dashboard"))
      r = await self.get(f"/api/deployment/{i}")
      ctx.check(r.ok == (i in deps), "get_deployment-differs", lambda: (r, deps))
      if r.ok: ctx.check(r.json() == deps[i], "get_deployment-differs", lambda: (r, deps[i]))
    for i in m.bids:
      r = await self.get(f"/api/dashboard/{i}")
      ctx.check(r.ok == (i in dash), "get_dashboard-differs", lambda: (r, dash))
      if r.ok: ctx.check(r.json() == dash[i], "get_dashboard-differs", lambda: (r, dash[i]))
    status = {i: d["status"] for i, d in deps.items()}
    for i, t in tasks.items():
      st = status.get(uuid.UUID(t["deployment_id"]), "offline")
      ctx.check((t["task_instance"] is not None) == (st != "offline"), "task-instance-presence", lambda: (st, t))
      if st == "scheduled" and uuid.UUID(t["deployment_id"]) not in self.broken: ctx.check(t["task_instance"]["status"] == "scheduled", "scheduled-instance-status", lambda: (st, t))
    ids = [t["task_instance"]["id"] for t in tasks.values() if t["task_instance"]]
    ctx.check(len(ids) == len(set(ids)), "shared-task-instance", lambda: tasks)
    self.deps = {i: {k: v for k, v in d.items() if k != "status"} for i, d in deps.items()}
    self.tasks = {i: {k: v for k, v in t.items() if k != "task_instance"} for i, t in tasks.items()}
    self.instances = {i: t["task_instance"] for i, t in tasks.items() if t["task_instance"] is not None}
    self.dash, self.status = dash, status
  def compare(self):
    ctx, m = self.ctx, self.m
    ctx.check(self.deps == m.dep, "deployments-differ", lambda: (self.deps, m.dep))
    ctx.check(self.tasks == m.task, "tasks-differ", lambda: (self.tasks, m.task))
    ctx.check(self.dash == m.dash, "dashboards-differ", lambda: (self.dash, m.dash))
    want = {i: m.running.get(i, "offline") for i in m.dep}
    ctx.check({i: s for i, s in self.status.items() if i not in self.broken} == {i: s for i, s in want.items() if i not in self.broken}, "status-differs", lambda: (self.status, want))
    ctx.check(all(self.status.get(i) != "offline" for i in self.broken if i in m.running), "status-differs", lambda: (self.status, want))
    check_disk(ctx, m, self.net.data)
    ctx.count("states")
  async def compare_instances(self):
    """The instances shown are those the task manager knows; ended ones show how they ended. A task may end between the two looks."""
    try: await self._compare_instances()
    except Violation as e:
      self.ctx.op("second look", e.mech)
      await settle(3)
      await self.observe()
      await self._compare_instances()
  async def _compare_instances(self):
    ctx = self.ctx
    for i, inst in self.instances.items():
      t = self.m.task[i]
      cfg = t["config"]
      dep = uuid.UUID(t["deployment_id"])
      try: real = (await self.net.tmc.get_task(uuid.UUID(inst["id"]))).model_dump(mode="json")
      except FetchError: real = None
      ctx.check(inst["host_id"] == t["task_host_id"], "instance-host", lambda: (inst, t))
      if real is not None: ctx.check(real == inst, "instance-differs-from-manager", lambda: (inst, real))
      else:
        ctx.check(inst["status"] in ("ended", "failed"), "instance-not-ended", lambda: (inst, t))
      if self.m.running.get(dep) == "running":
        if cfg["create_fails"]: ctx.check(inst["status"] == "failed", "instance-status", lambda: (inst, cfg))
        elif cfg["d"] is None: ctx.check(inst["status"] == "running", "instance-status", lambda: (inst, cfg))
        elif real is None: ctx.check(inst["status"] == ("failed" if cfg["fails"] else "ended"), "instance-status", lambda: (inst, cfg))
        ctx.count(f"instance-{inst['status']}")
  def check_active(self):
    """Tasks run exactly for deployments that were started."""
    ctx, m = self.ctx, self.m
    active = sorted(n for h in self.net.hosts for n in h.active)
    running = {t["config"]["n"] for t in m.task.values() if m.running.get(uuid.UUID(t["deployment_id"])) == "running" or uuid.UUID(t["deployment_id"]) in self.broken}
    must = {t["config"]["n"] for t in m.task.values() if m.running.get(uuid.UUID(t["deployment_id"])) == "running" and uuid.UUID(t["deployment_id"]) not in self.broken and t["config"]["d"] is None and not t["config"]["create_fails"]}
    ctx.check(set(active) <= running, "runs-without-deployment", lambda: (active, running))
    ctx.check(must <= set(active), "does-not-run", lambda: (active, must))
    ctx.check(len(active) == len(set(active)), "runs-twice", lambda: active)
  def expected(self, op, a):
    """(accepted?, effect)"""
    m = self.m
    if op == "cdep": return a.id not in m.dep, lambda: m.dep.__setitem__(a.id, put(None, a))
    if op == "udep": return a.id in m.dep and a.id not in m.running, lambda: m.dep.__setitem__(a.id, put(None, a))
    if op == "ddep": return (a not in m.running) if a in m.dep else None, lambda: m.dep.pop(a, None)
    if op == "task": return a.deployment_id not in m.running and not m.frozen_task(a.id), lambda: m.task.__setitem__(a.id, put(None, a))
    if op == "dtask": return (not m.frozen_task(a)) if a in m.task else None, lambda: m.task.pop(a, None)
    if op == "dash": return True, lambda: m.dash.__setitem__(a.id, put(None, a))
    if op == "ddash": return True if a in m.dash else None, lambda: m.dash.pop(a, None)
    if op == "schedule": return a in m.dep and a not in m.running, lambda: m.running.__setitem__(a, "scheduled")
    if op == "start":
      unknown = any(t["task_host_id"] == "nohost" and t["deployment_id"] == str(a) for t in m.task.values())
      ok = m.running.get(a) == "scheduled" and not unknown and a not in self.broken
      if m.running.get(a) == "scheduled" and unknown: self.broken.add(a)
      return ok, lambda: m.running.__setitem__(a, "running")
    if op == "stop": return a in m.running, lambda: (m.running.pop(a, None), self.broken.discard(a))
  def draw(self):
    rng, m = self.rng, self.m
    op = rng.choice(("cdep", "cdep", "udep", "ddep", "task", "task", "task", "dtask", "dash", "ddash", "schedule", "schedule", "start", "start", "start", "stop"))
    if op in ("cdep", "udep"): return op, m.new_dep()
    if op == "task": return op, self.task()
    if op == "dash": return op, m.new_dash()
    if op == "dtask": return op, rng.choice(m.tids)
    if op == "ddash": return op, rng.choice(m.bids)
    if op == "start" and rng.random() < 0.8 and [i for i, s in m.running.items() if s == "scheduled"]: return op, rng.choice([i for i, s in m.running.items() if s == "scheduled"])
    if op == "stop" and rng.random() < 0.8 and m.running: return op, rng.choice(list(m.running))
    return op, rng.choice(m.dids)

def body(a): return put(None, a) if hasattr(a, "model_dump") else a

@family("api", quick=70, thorough=2200)
async def api(ctx):
  """Sequential histories over the http api with a real task manager and hosts."""
  rng = ctx.rng
  net = await system(ctx)
  h = H(ctx, net)
  # start from something to run
  for i in h.m.dids[:2]:
    e = DeploymentBase(id=i, label="d"); r = await h.call("cdep", body(e)); ctx.check(r.ok, "cdep-refused", r); h.m.dep[i] = put(None, e)
  for _ in range(rng.randint(10, 34)):
    op, a = h.draw()
    ok, effect = h.expected(op, a)
    before = dict(h.m.task)
    r = await h.call(op, body(a))
    ctx.op(op, str(getattr(a, "id", a)), ok, r.status)
    ctx.sigadd(op, ok, r.status)
    if ok is not None: ctx.check(r.ok == ok, f"{op}-{'refused' if ok else 'not-refused'}", lambda: (r, a, h.m.running))
    if ok:
      effect()
      if op in ("schedule", "start", "stop"): ctx.check(r.json()["status"] == h.m.running.get(a, "offline") and r.json()["id"] == str(a), f"{op}-response", r); ctx.count(op)
      elif op in ("cdep", "udep", "task", "dash"): ctx.check(r.json() == body(a), f"{op}-response", r)
    elif ok is False: ctx.count("refusals"); ctx.nontrivial = True
    await settle(1)
    if rng.random() < 0.3: await asyncio.sleep(rng.choice((1, 10, 60))); await settle(1)
    await h.observe(); h.compare()
    await settle(1)
    await h.observe()
    await h.compare_instances(); h.check_active()
  for i in list(h.m.running):
    r = await h.call("stop", i); ctx.check(r.ok, "stop-refused", r)
    h.m.running.pop(i); h.broken.discard(i)
  await settle(2); await h.observe(); h.compare(); h.check_active()
  for w in net.workers: ctx.check(not w.done(), "worker-ended", lambda: w)

@family("races", quick=60, thorough=1800)
async def races(ctx):
  """Several requests at once: whatever their order, ids stay unique, a scheduled deployment has an instance for each of its tasks, and nothing runs that no running deployment contains."""
  rng = ctx.rng
  net = await system(ctx)
  h = H(ctx, net)
  m = h.m
  for i in m.dids[:2]:
    e = DeploymentBase(id=i, label="d"); r = await h.call("cdep", body(e)); m.dep[i] = put(None, e)
  for _ in range(rng.randint(4, 10)):
    batch = [h.draw() for _ in range(rng.randint(2, 5))]
    if rng.random() < 0.7:
      d = rng.choice(m.dids[:2])
      batch = [(op, d) if op in ("schedule", "start", "stop", "ddep") else (op, a) for op, a in batch]
      if rng.random() < 0.5:
        e = h.task(); e.deployment_id = d; batch.append(("task", e))
        batch.append(("schedule", d))
        rng.shuffle(batch)
    for op, a in batch:
      if op == "task": a.task_host_id = rng.choice(("host0", "host1")); a.config.update(d=None, create_fails=False)
    running_before = dict(m.running)
    frozen = {i: t for i, t in m.task.items() if uuid.UUID(t["deployment_id"]) in m.running}
    async def one(op, a):
      if rng.random() < 0.6: await asyncio.sleep(rng.choice((0, 0.001, 0.01, 0.05)))
      return await h.call(op, body(a))
    rs = await asyncio.gather(*(one(op, a) for op, a in batch))
    ctx.op(*[(op, str(getattr(a, "id", a)), r.status) for (op, a), r in zip(batch, rs)])
    ctx.sigadd(*[(op, r.status) for (op, a), r in zip(batch, rs)])
    await settle(2)
    await h.observe()
    ok = lambda op, a: [x for (o, x), r in zip(batch, rs) if o == op and r.ok and (x == a or getattr(x, "id", None) == a)]
    # transitions: each accepted one must fit into some order
    for i in m.dids:
      sch, sta, sto = (len(ok(o, i)) for o in ("schedule", "start", "stop"))
      was = running_before.get(i)
      now = h.status.get(i, "offline")
      ctx.check(sch <= 1 + sto and sto <= sch + (was is not None) and sta <= sch + (was == "scheduled"), "transitions-impossible", lambda: (str(i), was, now, sch, sta, sto))
      occupied = (was is not None) + sch - sto
      ctx.check(occupied in (0, 1) and (occupied == 1) == (now != "offline"), "status-after-race", lambda: (str(i), was, now, sch, sta, sto))
      if not (sch or sta or sto): ctx.check((was or "offline") == now, "status-after-race", lambda: (was, now))
      m.running.pop(i, None)
      if now != "offline": m.running[i] = now
      if was and not sto:
        # ran throughout: nothing of it may have changed
        mine = {k: v for k, v in frozen.items() if v["deployment_id"] == str(i)}
        ctx.check({k: v for k, v in h.tasks.items() if v["deployment_id"] == str(i)} == mine, "running-deployment-changed", lambda: (mine, h.tasks))
        ctx.check(h.deps.get(i) == m.dep.get(i), "running-deployment-changed", lambda: (h.deps.get(i), m.dep.get(i)))
        ctx.count("ran-throughout")
    # entities: old or one of the accepted requests
    for what, now, old, opn, dele in (("deployment", h.deps, m.dep, ("cdep", "udep"), "ddep"), ("task", h.tasks, m.task, ("task",), "dtask"), ("dashboard", h.dash, m.dash, ("dash",), "ddash")):
      for i in set(now) | set(old):
        writes = [put(None, x) for o in opn for x in ok(o, i)]
        if i in now: ctx.check(now[i] in writes or (not writes and now[i] == old.get(i)), f"{what}-after-race", lambda: (now[i], old.get(i), writes))
        else: ctx.check(bool(ok(dele, i)), f"{what}-lost-in-race", lambda: (old.get(i), writes))
    m.dep, m.task, m.dash = dict(h.deps), dict(h.tasks), dict(h.dash)
    check_disk(ctx, m, net.data)
    await h.compare_instances(); h.check_active()
    ctx.nontrivial = True
    ctx.count("batches")
  for i in list(m.running):
    r = await h.call("stop", i); ctx.check(r.ok, "stop-refused", r)
    m.running.pop(i)
  await settle(2); await h.observe(); h.compare(); h.check_active()
  for w in net.workers: ctx.check(not w.done(), "worker-ended", lambda: w)
