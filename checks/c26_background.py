"""C26: background tasks shut down by priority; waits never miss events; reference counts are exact."""
import asyncio, gc, weakref
from collections import Counter
from streamtasks.utils import AsyncBool, AsyncObservable, AsyncObservableDict, AsyncTaskManager, AsyncTrigger, AwaitableIdTracker, IdTracker, context_task, wait_with_dependencies
from vlib.core import family
from vlib.vtime import settle

class Job:
  """A background task that notes when it is cancelled and when it ends."""
  def __init__(self, ctx, mgr, prio, spawn=True):
    r = ctx.rng
    self.ctx, self.prio = ctx, prio
    self.created = ctx.loop.time()
    self.life = r.choice((None, None, None, 0, 0.01, 0.3, 3))
    self.cleanup = r.choice((None, None, 0, 0.01, 0.4, 2.5))
    self.ignores = r.choice((0, 0, 0, 0, 1, 2))      # cancellations it does not follow
    self.fails = r.random() < 0.2
    self.cancels, self.ended = [], None
    self.spawns = spawn and r.random() < 0.15
    self.mgr, self.child = mgr, None
    self.task = mgr.create(self.run(), prio)
    self.task.add_done_callback(self.done)
  def done(self, t):
    self.ended = self.ctx.loop.time()
    if not t.cancelled(): t.exception()
  async def run(self):
    loop = self.ctx.loop
    try:
      while True:
        try:
          if self.life is None: await asyncio.Future()
          else: await asyncio.sleep(self.life)
          return
        except asyncio.CancelledError:
          self.cancels.append(loop.time())
          if len(self.cancels) <= self.ignores: continue
          raise
    finally:
      if self.cancels and self.spawns: self.child = Job(self.ctx, self.mgr, self.ctx.rng.choice((self.prio, self.prio + 1)), False)
      if self.cleanup is not None:
        end = loop.time() + self.cleanup
        while loop.time() < end:
          try: await asyncio.sleep(end - loop.time())
          except asyncio.CancelledError: self.cancels.append(loop.time())
      if self.fails: raise RuntimeError("job")

@family("priorities", quick=1200, thorough=40000)
async def priorities(ctx):
  rng = ctx.rng
  frozen = rng.random() < 0.5
  mgr = AsyncTaskManager(**({"default_frozen": True} if frozen else {}))
  if not frozen:
    # a group that is used for long does not pile up what has ended
    async def short(): await asyncio.sleep(0)
    async def failing(): raise RuntimeError("job")
    refs = []
    for _ in range(rng.randrange(6)):
      t = mgr.create(rng.choice((short, failing))())
      t.add_done_callback(lambda t: t.exception())
      refs.append(weakref.ref(t))
      del t
    await asyncio.sleep(0.001)
    if refs: gc.collect(0)
    if any(r() is not None for r in refs): gc.collect()
    ctx.check(all(r() is None for r in refs), "ended-tasks-kept", lambda: len(refs))
    ctx.count("released", len(refs))
  for round in range(rng.randint(1, 2)):
    prios = rng.choice(((0,), (0, 1), (0, 1, 2, 3), (3, 7, -2), (5, 5, 1)))
    jobs = [Job(ctx, mgr, rng.choice(prios)) for _ in range(rng.randrange(9))]
    mode = rng.choice(("cancel", "cancel", "wait-all", "wait-first", "wait-cancelled", "wait-timeout"))
    timeout = rng.choice((1, 1, 0.05, 0.5, 5))
    if rng.random() < 0.6: await asyncio.sleep(rng.choice((0, 0.005, 0.5, 5)))
    t0 = ctx.loop.time()
    ctx.op(mode, timeout, [(j.prio, j.life, j.cleanup, j.ignores) for j in jobs])
    ctx.count(mode)
    alive = [j for j in jobs if not j.task.done()]
    if mode in ("cancel", "wait-cancelled"):
      if mode == "cancel":
        try: await asyncio.wait_for(mgr.cancel_all(rng.choice((None, "bye")), timeout), 1000)
        except TimeoutError: ctx.fail("shutdown-hangs", f"{ctx.log[-1]}")
      else:
        timeout = 1
        w = asyncio.create_task(mgr.wait(return_when=rng.choice(("ALL_COMPLETED", "FIRST_COMPLETED"))))
        await asyncio.sleep(0.001)
        early = w.done()
        t0 = ctx.loop.time()
        alive = [j for j in jobs if not j.task.done()]
        w.cancel()
        _, pend = await asyncio.wait([w], timeout=1000)
        ctx.check(not pend, "shutdown-hangs", lambda: ctx.log[-1])
        if early:
          await mgr.cancel_all()
      all_jobs = jobs + [j.child for j in jobs if j.child]
      for j in all_jobs: ctx.check(j.task.done(), "task-left", lambda: (j.prio, j.life, j.cleanup))
      for j in alive: ctx.check(j.cancels or j.ended is not None and j.ended <= t0 or j.life is not None, "not-cancelled", lambda: (j.prio, j.life))
      for a in alive:
        for b in all_jobs:
          if b.prio <= a.prio or not b.cancels: continue
          # b may begin once a has ended, or has had its time
          begin = b.cancels[0]
          own = [c for c in a.cancels if c <= begin]
          ok = a.ended <= begin or (own and begin - own[0] >= timeout - 1e-6)
          ctx.check(ok, "priority-order", lambda: f"priority {b.prio} cancelled at {begin - t0:.4f} while priority {a.prio} (cancelled {[round(c - t0, 4) for c in a.cancels]}) ended at {a.ended - t0:.4f}, time-out {timeout}")
          ctx.count("pairs")
      ctx.count("tasks", len(all_jobs))
    elif mode == "wait-timeout":
      w = asyncio.create_task(mgr.wait(timeout=0.1))
      _, pend = await asyncio.wait([w], timeout=50)
      ctx.check(not pend, "wait-hangs", "timeout=0.1")
      ctx.check(w.exception() is None, "wait-fails", lambda: repr(w.exception()))
      ctx.check(ctx.loop.time() - t0 >= 0.1 - 1e-6 or all(j.task.done() for j in jobs), "wait-returns-early", "")
      await mgr.cancel_all()
    else:
      # without any task there is nothing to wait for
      endless = [j for j in jobs if not j.task.done() and j.life is None]
      first = mode == "wait-first"
      w = asyncio.create_task(mgr.wait(return_when="FIRST_COMPLETED" if first else "ALL_COMPLETED"))
      _, pend = await asyncio.wait([w], timeout=50)
      if pend:
        ctx.check(bool(endless) and (not first or len(endless) == len(alive)), "wait-hangs", lambda: (mode, [(j.life, j.task.done()) for j in jobs]))
        if first and frozen: ctx.check(len(alive) == len(jobs), "missed-end", lambda: ("a task had ended before the wait began", [(j.life, j.task.done()) for j in jobs]))
        w.cancel()
        await asyncio.wait([w], timeout=1000)
        ctx.check(w.done(), "shutdown-hangs", "")
      else:
        ctx.check(w.exception() is None, "wait-fails", lambda: repr(w.exception()))
        if not first: ctx.check(all(j.task.done() for j in jobs), "wait-returns-early", lambda: [(j.life, j.task.done()) for j in jobs])
        elif jobs: ctx.check(any(j.task.done() for j in jobs), "wait-returns-early", "")
        if first and frozen and len(alive) < len(jobs):
          ctx.check(ctx.loop.time() - t0 < 0.01, "missed-end", lambda: (ctx.loop.time() - t0))
          ctx.count("ended_before_wait")
      await mgr.cancel_all()
    for j in jobs + [j.child for j in jobs if j.child]: ctx.check(j.task.done(), "task-left", lambda: (j.prio, j.life))
    ctx.sigadd(mode, timeout, tuple((j.prio, j.life, j.cleanup, j.ignores, len(j.cancels)) for j in jobs))
    ctx.nontrivial = ctx.nontrivial or len(jobs) > 1
  ctx.summary = dict(rounds=[repr(x) for x in ctx.log], counters=dict(ctx.counters))

class Model:
  """Waiters and the changes that have to wake them."""
  def __init__(self, ctx): self.ctx, self.n = ctx, 0; self.waiting = []
  def begin(self, coro, key, woken=False):
    async def run(): return await coro
    t = asyncio.create_task(run())
    w = [t, key, woken]
    self.waiting.append(w)
    return w
  def change(self, pred):
    for w in self.waiting:
      if pred(w[1]): w[2] = True
  async def judge(self):
    for _ in range(4): await asyncio.sleep(0)
    await asyncio.sleep(0.001)
    keep = []
    for w in self.waiting:
      if w[0].cancelled(): continue
      self.ctx.check(w[0].done() == w[2], "missed-event" if w[2] else "woken-for-nothing", lambda: (w[1], self.ctx.log[-12:]))
      self.ctx.count("judged")
      if w[0].done(): self.ctx.check(w[0].exception() is None, "wait-fails", lambda: repr(w[0].exception())); self.ctx.count("woken")
      else: keep.append(w)
    self.waiting = keep

class Obs(AsyncObservable):
  def __init__(self):
    super().__init__()
    self.a = 0
    self.b = "x"

@family("waits", quick=1500, thorough=60000)
async def waits(ctx):
  rng = ctx.rng
  kind = rng.choice(("trigger", "bool", "observable", "dict", "ids"))
  m = Model(ctx)
  trig, flag, obs, d, ids = AsyncTrigger(), AsyncBool(rng.random() < 0.5), Obs(), AsyncObservableDict({"a": 1} if rng.random() < 0.5 else None), AwaitableIdTracker()
  ref = Counter()
  fval = flag.value
  dref = {"a": 1} if "a" in d._data else {}
  oref = {"a": 0, "b": "x"}
  async def started():
    # a wait counts from the moment its coroutine has begun
    await asyncio.sleep(0)
  for _ in range(rng.randint(5, 60)):
    x = rng.random()
    if x < 0.45:
      if kind == "trigger": m.begin(trig.wait(), None)
      elif kind == "bool":
        v = rng.random() < 0.5
        m.begin(flag.wait(v), v, fval == v)
      elif kind == "observable": m.begin(obs.wait_change(), None)
      elif kind == "dict": m.begin(d.wait_change(), None)
      else:
        id = rng.randrange(3)
        if rng.random() < 0.5: m.begin(ids.wait_for_id_added(id), ("+", id))
        else: m.begin(ids.wait_for_id_removed(id), ("-", id))
      ctx.op("wait", kind, m.waiting[-1][1])
      await started()
    elif x < 0.5 and m.waiting:
      w = rng.choice(m.waiting)
      w[0].cancel()
      ctx.op("cancel")
      await asyncio.sleep(0)
    else:
      if kind == "trigger": trig.trigger(); m.change(lambda k: True); ctx.op("trigger")
      elif kind == "bool":
        v = rng.random() < 0.5
        flag.set(v)
        if v != fval: m.change(lambda k: True)
        fval = v
        ctx.check(flag.value == v and bool(flag) == v, "flag-value", lambda: v)
        ctx.op("set", v)
      elif kind == "observable":
        n, v = rng.choice(("a", "b", "c")), rng.choice((0, 1, "x", None, 2.5))
        setattr(obs, n, v)
        if n not in oref or oref[n] != v: m.change(lambda k: True)
        oref[n] = v
        ctx.check(obs.as_dict() == oref and getattr(obs, n) == v, "observable-value", lambda: (obs.as_dict(), oref))
        ctx.op("set", n, v)
      elif kind == "dict":
        n, v = rng.choice(("a", "b", 1)), rng.choice((0, 1, "x", None))
        if rng.random() < 0.3:
          try: del d[n]; ok = True
          except KeyError: ok = False
          ctx.check(ok == (n in dref), "dict-value", lambda: (n, dref))
          if ok: del dref[n]; m.change(lambda k: True)
          ctx.op("del", n)
        else:
          d[n] = v
          if n not in dref or dref[n] != v: m.change(lambda k: True)
          dref[n] = v
          ctx.check(d[n] == v, "dict-value", lambda: n)
          ctx.op("set", n, v)
      else: tracker_op(ctx, ids, ref, m)
      ctx.count("changes")
    if rng.random() < 0.4: await m.judge()
  await m.judge()
  ctx.sigadd(kind, tuple(x[:3] for x in ctx.log))
  ctx.nontrivial = ctx.counters.get("woken", 0) > 0

def tracker_op(ctx, t, ref, m=None):
  rng = ctx.rng
  n = rng.choice((0, 1, 1, 2, 4))
  many = [rng.randrange(3 if m else 6) for _ in range(n)]
  arg = rng.choice((list, tuple, iter))
  def add(ids):
    new = {i for i in ids if ref[i] == 0}
    for i in ids: ref[i] += 1
    if m: m.change(lambda k: k[0] == "+" and k[1] in new)
    return new
  def remove(ids, force):
    gone = set()
    for i in ids:
      if ref[i] > 0:
        ref[i] = 0 if force else ref[i] - 1
        if ref[i] == 0: gone.add(i)
    if m: m.change(lambda k: k[0] == "-" and k[1] in gone)
    return gone
  k = rng.random()
  if k < 0.45: got, want = t.add_many(arg(many)), add(many); ctx.op("add", many)
  elif k < 0.75: got, want = t.remove_many(arg(many)), remove(many, False); ctx.op("remove", many)
  elif k < 0.85: got, want = t.remove_many(arg(many), force=True), remove(many, True); ctx.op("force", many)
  else:
    other = [rng.randrange(6) for _ in range(rng.randrange(3))]
    a, r = t.change_many(arg(many), arg(other))
    wa = add(many); wr = remove(other, False)
    ctx.op("change", many, other)
    ctx.check(set(a) == wa, "id-change-differs", lambda: (a, wa)); got, want = r, wr
  ctx.check(set(got) == want, "id-change-differs", lambda: (ctx.log[-1], list(got), want))
  for i in range(6): ctx.check((i in t) == (ref[i] > 0), "id-presence", lambda: (i, ref, ctx.log[-10:]))
  ctx.check(set(t.items()) == {i for i in ref if ref[i] > 0} and len(list(t.items())) == len(set(t.items())), "id-presence", lambda: (list(t.items()), ref))
  ctx.count("id-ops")

@family("ids", quick=600, thorough=20000, loop="sync")
def ids(ctx):
  t, ref = ctx.rng.choice((IdTracker, AwaitableIdTracker))(), Counter()
  for _ in range(ctx.rng.randint(5, 80)): tracker_op(ctx, t, ref)
  ctx.sigadd(tuple((x[0], tuple(x[1])) for x in ctx.log)); ctx.nontrivial = True

@family("dependent", quick=800, thorough=20000)
async def dependent(ctx):
  """Waiting for something while something else may end first; and tasks bound to a block."""
  rng = ctx.rng
  q = asyncio.Queue()
  main_t, dep_t, outer_t = (rng.choice((0, 0.1, 0.2, 0.3, None)) for _ in range(3))
  fails = rng.random() < 0.3
  state = dict(running=0, consumed=[])
  async def main():
    state["running"] += 1
    try:
      v = await q.get()
      state["consumed"].append(v)
      if fails: raise KeyError("main")
      return v
    finally: state["running"] -= 1
  async def dep():
    if dep_t is None: await asyncio.Future()
    await asyncio.sleep(dep_t)
  dt = asyncio.create_task(dep())
  waiter = asyncio.create_task(wait_with_dependencies(main() if rng.random() < 0.5 else asyncio.ensure_future(main()), [dt]))
  if main_t is not None: ctx.loop.call_later(main_t, q.put_nowait, 5)
  if outer_t is not None: ctx.loop.call_later(outer_t, waiter.cancel)
  await asyncio.sleep(1)
  ctx.check(waiter.done() == (main_t is not None or dep_t is not None or outer_t is not None), "missed-event", lambda: (main_t, dep_t, outer_t))
  ctx.sigadd(main_t, dep_t, outer_t, fails)
  if waiter.done():
    ctx.count("waits")
    ctx.check(state["running"] == 0, "left-running", lambda: f"main ends {main_t}, dependency {dep_t}, cancelled {outer_t}")
    first = min(x for x in (main_t, dep_t, outer_t) if x is not None)
    alone = sum(x == first for x in (main_t, dep_t, outer_t)) == 1
    res = ("cancelled", None) if waiter.cancelled() else ("error", waiter.exception()) if waiter.exception() else ("value", waiter.result())
    if alone and main_t == first: ctx.check(res == ("value", 5) if not fails else res[0] == "error" and isinstance(res[1], KeyError), "main-result", lambda: res)
    elif alone: ctx.check(res[0] == "cancelled", "dependency-ended", lambda: res)
    if res[0] == "cancelled" and alone: ctx.check(not state["consumed"], "consumed-and-lost", lambda: state)
    ctx.nontrivial = True
  waiter.cancel(); dt.cancel()
  # a task that belongs to a block is over when the block is left
  log = []
  async def work():
    log.append("run")
    try: await asyncio.sleep(rng.choice((0, 0.1, 100)))
    finally:
      try: await asyncio.sleep(rng.choice((0, 0.1)))
      finally: log.append("end")
  try:
    async with context_task(work()):
      await asyncio.sleep(rng.choice((0, 0.1, 0.2)))
      if fails: raise LookupError()
  except LookupError: pass
  ctx.check(log in ([], ["run", "end"]), "left-running", lambda: log)
