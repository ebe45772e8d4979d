"""C17: a task's reported status only moves forward and ends exactly once."""
import asyncio, contextlib, io, time, uuid
from streamtasks.client.fetch import FetchError, FetchErrorStatusCode
from streamtasks.system.task import SyncTask, Task, TaskHost, TaskManager, TaskManagerClient, TaskNotFoundError, TaskStatus
from vlib.core import family
from vlib.disco import *

S = TaskStatus
RANK = {S.scheduled: 0, S.running: 1, S.ended: 2, S.stopped: 2, S.failed: 2}

class PlannedTask(Task):
  def __init__(self, client, plan, log): super().__init__(client); self.plan, self.log = plan, log
  async def setup(self):
    p = self.plan
    if p["mode"] == "setup_raises": raise RuntimeError(p["text"])
    if p["mode"] == "setup_slow": await asyncio.sleep(5)
    if p["mode"] == "setup_bad_metadata": return {"a": [1, 2]}
    await asyncio.sleep(p.get("setup_delay", 0))
    return {"n": p["n"]}
  async def run(self):
    p = self.plan
    self.log.append(("start", p["n"]))
    try:
      if p["mode"] == "client":
        self.client.start()
        async with self.client.in_topic(7) as t, t.RegisterContext(): await asyncio.sleep(p["d"])
      elif p["d"] is None: await asyncio.Event().wait()
      elif p["d"] > 0: await asyncio.sleep(p["d"])
      if p["mode"] == "raises": raise p["exc"](p["text"])
      if p["mode"] == "raises_base": raise KeyboardLike(p["text"])
    except asyncio.CancelledError:
      if p.get("cleanup"): await asyncio.sleep(p["cleanup"])
      raise
    finally: self.log.append(("stop", p["n"]))

class KeyboardLike(BaseException): pass

class PlannedSyncTask(SyncTask):
  def __init__(self, client, plan, log): super().__init__(client); self.plan, self.log = plan, log
  @contextlib.asynccontextmanager
  async def init(self): yield
  def run_sync(self):
    p = self.plan
    self.log.append(("start", p["n"]))
    try:
      if p["d"] is None: self.stop_event.wait(20)
      if p["mode"] == "raises": raise p["exc"](p["text"])
    finally: self.log.append(("stop", p["n"]))

class Host(TaskHost):
  def __init__(self, id, plans, log, **kw):
    super().__init__(**kw)
    self.id, self.plans, self.log = id, plans, log
  async def create_task(self, config, topic_space_id):
    p = self.plans[config["n"]]
    if p["mode"] == "create_raises": raise ValueError(p["text"])
    if p.get("create_delay"): await asyncio.sleep(p["create_delay"])
    return (PlannedSyncTask if p["sync"] else PlannedTask)(await self.create_client(topic_space_id), p, self.log)

async def attach(ctx, net, worker, kinds=None):
  kind = ctx.rng.choice(kinds) if kinds else net.kind()
  ctx.op("attach", type(worker).__name__, kind)
  a, b, _, _ = await make_pair(ctx.rng, kind)
  await net.switches[ctx.rng.randrange(len(net.switches))].add_link(a)
  await worker.switch.add_link(b)
  worker._verif_link = a
  if isinstance(worker, TaskManager): await settle(3) # the system's builder waits for the discovery before it starts it
  return asyncio.create_task(worker.run())

async def system(ctx, n_hosts, kinds):
  rng = ctx.rng
  net = await with_discovery(ctx, kinds, rng.randint(1, 3))
  net.tm = TaskManager()
  net.tm_task = await attach(ctx, net, net.tm)
  await settle(3)
  net.plans, net.log, net.hosts, net.host_tasks = {}, [], [], []
  for i in range(n_hosts):
    h = Host(f"host{i}", net.plans, net.log, register_endpoits=["task_manager"])
    net.hosts.append(h); net.host_tasks.append(await attach(ctx, net, h, ("queue", "rawqueue", "sock", "v-zero"))) # a closing link of these does not drop what was sent before
  net.cs = []
  for _ in range(2):
    c = await net.add_client(); await c.client.request_address()
    net.cs.append(TaskManagerClient(c.client))
  await settle(5)
  hosts = await asyncio.wait_for(net.cs[0].list_task_hosts(), 100)
  ctx.check(sorted(h.id for h in hosts) == sorted(h.id for h in net.hosts), "hosts-not-listed", lambda: hosts)
  return net

MODES = ("ok", "ok", "ok", "ok", "raises", "raises", "raises_base", "create_raises", "setup_raises", "setup_slow", "setup_bad_metadata", "client")

class T:
  """One task: what it was told to do and everything observed about it."""
  def __init__(self):
    self.seen, self.polls, self.cancelled, self.started, self.start_result, self.waited = [], [], False, False, None, []
    self.starts = self.refused = 0

async def watch(t, recv):
  async with recv:
    t.watching.set()
    while True:
      ti = await recv.get()
      t.seen.append((ti.id, ti.status, ti.error))

def check_task(ctx, net, t):
  p = t.plan
  statuses = [s for _, s, _ in t.seen]
  ctx.check(all(i == t.id for i, _, _ in t.seen), "foreign-status", lambda: t.seen)
  term = [s for s in statuses if not s.is_active]
  seq = [S.scheduled] + ([t.start_result.status] if t.start_result is not None else [])
  ranks = [RANK[s] for s in t.polls]
  ctx.check(ranks == sorted(ranks), "status-went-backwards", lambda: (p, t.polls))
  ranks = [RANK[s] for s in statuses]
  ctx.check(ranks == sorted(ranks), "status-went-backwards", lambda: (p, statuses))
  if not t.started:
    ctx.check(not term, "terminal-without-start", lambda: (p, t.seen)); return
  ctx.check(len(term) <= 1, "several-terminal-statuses", lambda: (p, t.seen))
  ctx.check(not t.polls or not term or t.polls[-1].is_active or t.polls[-1] == term[0], "contradicting-terminal", lambda: (t.polls, term))
  starts = sum(1 for x in net.log if x == ("start", p["n"]))
  stops = sum(1 for x in net.log if x == ("stop", p["n"]))
  cannot_start = p["mode"] in ("create_raises", "setup_raises", "setup_slow", "setup_bad_metadata") and not (p["sync"] and p["mode"] != "create_raises")
  if cannot_start:
    ctx.check(starts == 0, "task-ran-although-start-failed", lambda: p)
    ctx.check(t.start_result.status is S.failed and t.start_result.error is not None, "start-failure-not-reported", lambda: (p, t.start_result))
    if p["mode"] in ("create_raises", "setup_raises"): ctx.check(t.start_result.error == p["text"], "wrong-error", lambda: (p, t.start_result))
    ctx.check(not term or term == [S.failed], "wrong-terminal", lambda: (p, t.seen))
    if t.watched: ctx.check(term == [S.failed], "terminal-not-observed", lambda: (p, t.seen))
    ctx.count("failed_start"); return
  ctx.check(starts == 1, "started-not-once", lambda: (p, starts))
  runs_forever = p["d"] is None
  done = t.over or not runs_forever or t.cancelled
  if done:
    ctx.check(stops == 1, "not-stopped", lambda: (p, t.cancelled))
    if t.watched: ctx.check(len(term) == 1, "terminal-not-observed", lambda: (p, t.seen))
  else:
    ctx.check(stops == 0 and not term, "ended-without-reason", lambda: (p, t.seen)); ctx.count("still_running"); return
  ok = set()
  if not runs_forever: ok.add(S.failed if p["mode"] in ("raises", "raises_base") else S.ended)
  if t.cancelled or t.over: ok.add(S.stopped)
  if p["sync"] and t.cancelled and runs_forever: ok = {S.stopped} if p["mode"] != "raises" else {S.stopped, S.failed}
  for _, s, e in t.seen:
    if s.is_active: continue
    ctx.check(s in ok, "wrong-terminal", lambda: (p, t.cancelled, s, ok))
    ctx.count("terminal:" + s.value)
    if s is S.failed: ctx.check(e == str(p["exc"](p["text"]) if p["mode"] == "raises" else p["text"]), "wrong-error", lambda: (p, e))
    else: ctx.check(e is None, "unexpected-error", lambda: (p, s, e))
  for n, ti in t.waited: ctx.check(ti.status in ok and ti.id == t.id, "wrong-cancel-result", lambda: (p, ti))
  ctx.sigadd(p["mode"], p["sync"], tuple(s.value for s in statuses), t.cancelled)

def make_plan(ctx, net, i, allow_sync=True):
  rng = ctx.rng
  mode = rng.choice(MODES)
  p = dict(n=i, mode=mode, text=rng.choice(("boom", "", "ä\n\"x\"", f"text{i}")), sync=allow_sync and rng.random() < 0.15 and mode in ("ok", "raises", "create_raises"),
           exc=rng.choice((ValueError, RuntimeError, KeyError, OSError, AssertionError)),
           d=rng.choice((None, None, 0, 0, 0.0005, 0.01, 0.3, 2)), setup_delay=rng.choice((0, 0, 0.05)), cleanup=rng.choice((None, None, None, 0.02, 0.5, 3)), create_delay=rng.choice((None, None, 0.02)))
  if mode == "client": p["d"] = rng.choice((0.01, 0.5))
  net.plans[i] = p
  return p

@family("lifecycle", quick=700, thorough=10000)
async def lifecycle(ctx):
  rng = ctx.rng
  with contextlib.redirect_stdout(io.StringIO()):
    net = await system(ctx, rng.randint(1, 3), KINDS if rng.random() < 0.6 else YIELD)
    ts = []
    async def schedule():
      t = T(); ts.append(t)
      t.plan = make_plan(ctx, net, len(ts)); t.over = False
      t.host = rng.choice(net.hosts)
      ti = await asyncio.wait_for(rng.choice(net.cs).schedule_task(t.host.id), 100)
      t.id = ti.id; t.polls.append(ti.status)
      ctx.check(ti.status is S.scheduled, "not-scheduled", ti)
      t.watched = rng.random() < 0.8
      if t.watched:
        t.watching = asyncio.Event()
        t.watcher = asyncio.create_task(watch(t, rng.choice(net.cs).task_receiver([t.id])))
        await asyncio.wait_for(t.watching.wait(), 100); await settle(1)
      ctx.op("schedule", len(ts), t.plan, t.host.id)
    async def start(t):
      t.started = True; t.starts += 1
      try: r = await asyncio.wait_for(rng.choice(net.cs).start_task(t.id, {"n": t.plan["n"]}), 100)
      except FetchError as e:
        t.refused += 1
        ctx.check(t.refused < t.starts, "start-refused", lambda: (t.plan, e.body)); ctx.count("double_start_refused"); return
      ctx.check(t.start_result is None, "started-twice", lambda: t.plan)
      t.start_result = r
      ctx.check(r.id == t.id and r.status is not S.scheduled, "wrong-start-result", lambda: r)
      if r.status is S.running: ctx.check(r.error is None and (t.plan["sync"] or r.metadata == {"n": t.plan["n"]}), "wrong-start-result", lambda: r)
      ctx.count("starts")
    async def cancel(t, wait):
      started = t.start_result is not None and t.start_result.status is not S.failed
      before = ("stop", t.plan["n"]) in net.log
      c = rng.choice(net.cs)
      try:
        if wait:
          r = await asyncio.wait_for(c.cancel_task_wait(t.id), 100)
          ctx.check(not r.status.is_active, "cancel-wait-returned-early", lambda: r)
          ctx.check(("stop", t.plan["n"]) in net.log, "cancel-wait-returned-early", lambda: (t.plan, r))
          t.waited.append((len(t.seen), r))
          ctx.count("cancel_waits")
        else: await asyncio.wait_for(c.cancel_task(t.id), 100)
        if not before: t.cancelled = True
        ctx.check(t.started, "cancelled-unstarted", lambda: t.plan)
        ctx.count("cancels")
      except (FetchError, TaskNotFoundError) as e:
        if isinstance(e, FetchError): ctx.check(e.status_code is FetchErrorStatusCode.NOT_FOUND, "wrong-cancel-error", lambda: (t.plan, e.body))
        # refused only for a task that is not running
        await settle(3)
        running = started and ("stop", t.plan["n"]) not in net.log and not t.cancelled
        ctx.check(not running, "cancel-refused", lambda: (t.plan, repr(e)))
        ctx.count("cancel_refused")
    async def poll(t):
      try: r = await asyncio.wait_for(rng.choice(net.cs).get_task(t.id), 100)
      except FetchError as e:
        ctx.check(e.status_code is FetchErrorStatusCode.NOT_FOUND, "wrong-get-error", lambda: e.body)
        ctx.check(t.started, "task-forgotten", lambda: t.plan); return
      ctx.check(r.id == t.id and r.host_id == t.host.id, "foreign-task", lambda: r)
      t.polls.append(r.status); ctx.count("polls")
    async def unknown():
      c, id = rng.choice(net.cs), uuid.uuid4()
      f = rng.choice((lambda: c.get_task(id), lambda: c.start_task(id, {}), lambda: c.cancel_task(id), lambda: c.cancel_task_wait(id)))
      try: await asyncio.wait_for(f(), 100)
      except TaskNotFoundError: ctx.count("not_found")
      except FetchError as e: ctx.check(e.status_code is FetchErrorStatusCode.NOT_FOUND, "unknown-not-reported", lambda: e.body); ctx.count("not_found")
      else: ctx.fail("unknown-accepted")
    async def malformed():
      c = rng.choice(net.cs).client
      body = rng.choice((5, {}, {"id": "x"}, None, {"id": 5}, {"host_id": 5}))
      try: await asyncio.wait_for(c.fetch("task_manager", rng.choice(("get_task", "schedule_task", "start_task", "cancel_task")), body), 100)
      except FetchError: ctx.count("refused")
      else: ctx.fail("malformed-accepted", body)
    for _ in range(rng.randint(4, 14)):
      batch = []
      for _ in range(rng.choice((1, 1, 2, 4))):
        x = rng.random()
        t = rng.choice(ts) if ts else None
        if t is None or x < 0.3: batch.append(schedule())
        elif not hasattr(t, "id"): continue
        elif x < 0.55: batch.append(start(t)); ctx.op("start", t.plan["n"])
        elif x < 0.75: w = rng.random() < 0.5; batch.append(cancel(t, w)); ctx.op("cancel", t.plan["n"], w)
        elif x < 0.9: batch.append(poll(t))
        elif x < 0.96: batch.append(unknown())
        else: batch.append(malformed())
      await asyncio.gather(*batch)
      await asyncio.sleep(rng.choice((0, 0, 0.01, 0.4, 3)))
    await settle(15)
    for t in ts: await poll(t)
    for t in ts: check_task(ctx, net, t)
    # shutting a host down stops its tasks and unregisters it; the other hosts go on
    if rng.random() < 0.5:
      k = rng.randrange(len(net.hosts))
      rec = net.cs[0].task_host_unregistered_receiver()
      await asyncio.wait_for(rec.start_recv(), 100); await settle(1)
      for t in ts:
        if t.host is net.hosts[k]: t.over = True
      net.host_tasks[k].cancel()
      done, _ = await asyncio.wait([net.host_tasks[k]], timeout=100)
      ctx.check(bool(done) and net.host_tasks[k].cancelled(), "host-shutdown-failed", lambda: net.host_tasks[k])
      await settle(5)
      await asyncio.sleep(3) # a task may take longer to end than its host waits for it
      hosts = await asyncio.wait_for(net.cs[0].list_task_hosts(), 100)
      ctx.check(sorted(h.id for h in hosts) == sorted(h.id for i, h in enumerate(net.hosts) if i != k), "host-not-unregistered", lambda: hosts)
      ctx.check(not rec.empty() and (await rec.get()).id == net.hosts[k].id, "host-unregistration-not-observed")
      for t in ts:
        if t.plan["sync"]: continue
        check_task(ctx, net, t)
      ctx.count("host_shutdowns")
    ctx.check(not net.tm_task.done(), "task-manager-ended", lambda: net.tm_task)
  ctx.nontrivial = ctx.counters.get("starts", 0) > 0
  ctx.summary = dict(tasks=[(t.plan["mode"], t.plan["d"], [s.value for _, s, _ in t.seen], t.cancelled) for t in ts][:8])

@family("lost_host", quick=120, thorough=2000)
async def lost_host(ctx):
  """A task host whose node is gone without having unregistered (killed, or its link broke): tasks of it cannot be started or cancelled,
  every such request is answered, and everything else goes on."""
  rng = ctx.rng
  with contextlib.redirect_stdout(io.StringIO()):
    net = await system(ctx, rng.randint(2, 3), KINDS)
    dead, live = net.hosts[0], net.hosts[1:]
    n = 0
    def plan(d=None):
      nonlocal n
      n += 1
      net.plans[n] = dict(n=n, mode="ok", text="", sync=False, exc=ValueError, d=d, create_delay=None)
      return n
    async def run(host, d=None):
      i = plan(d)
      ti = await asyncio.wait_for(rng.choice(net.cs).schedule_start_task(host.id, {"n": i}), 100)
      return i, ti
    before = [await run(h) for h in net.hosts for _ in range(rng.randint(1, 2))]
    ctx.check(all(ti.status is S.running for _, ti in before), "not-running", lambda: before)
    on_dead = [ti for i, ti in before if ti.host_id == dead.id]
    # the node disappears
    for l in list(dead.switch.link_manager.links):
      if rng.random() < 0.5: l.close()
    dead._verif_link.close()
    net.host_tasks[0].cancel()
    await settle(5)
    watched = None
    async def lost_start():
      i = plan()
      ti = await asyncio.wait_for(rng.choice(net.cs).schedule_task(dead.id), 300)
      t = T(); t.plan = net.plans[i]; t.watching = asyncio.Event()
      w = asyncio.create_task(watch(t, rng.choice(net.cs).task_receiver([ti.id])))
      await asyncio.wait_for(t.watching.wait(), 300)
      try: r = await asyncio.wait_for(rng.choice(net.cs).start_task(ti.id, {"n": i}), 300)
      except FetchError: ctx.count("lost_start_refused")
      except TimeoutError: ctx.fail("start-never-answered", ti.id)
      else:
        ctx.check(r.status is S.failed and r.error, "started-on-a-lost-host", lambda: r); ctx.count("lost_start_failed")
        await settle(3)
        ctx.check([s for _, s, _ in t.seen] == [S.failed], "start-failure-not-observed", lambda: t.seen)
      w.cancel()
    async def lost_cancel():
      try: await asyncio.wait_for(rng.choice(net.cs).cancel_task(rng.choice(on_dead).id), 300)
      except FetchError: ctx.count("lost_cancel_refused")
      except TimeoutError: ctx.fail("cancel-never-answered")
      else: ctx.fail("cancelled-on-a-lost-host")
    async def alive():
      h = rng.choice(live)
      try:
        i, ti = await run(h)
        ctx.check(ti.status is S.running and ("start", i) in net.log, "other-host-disturbed", lambda: ti)
        if rng.random() < 0.7:
          r = await asyncio.wait_for(rng.choice(net.cs).cancel_task_wait(ti.id), 100)
          ctx.check(r.status is S.stopped, "other-host-disturbed", lambda: r)
        ctx.count("others")
      except TimeoutError: ctx.fail("other-host-blocked")
    for _ in range(rng.randint(1, 4)):
      batch = [rng.choice((lost_start, lost_start, lost_cancel, alive))() for _ in range(rng.choice((1, 2, 3)))]
      await asyncio.gather(*batch)
    await lost_start(); await alive()
    for i, ti in before:
      if ti.host_id == dead.id: continue
      r = await asyncio.wait_for(net.cs[0].get_task(ti.id), 100)
      ctx.check(r.status is S.running, "other-host-disturbed", lambda: r)
    ctx.check(not net.tm_task.done(), "task-manager-ended", lambda: net.tm_task)
  ctx.nontrivial = True
  ctx.sigadd(tuple(sorted(ctx.counters.items())))
  ctx.summary = dict(counters=dict(ctx.counters))
