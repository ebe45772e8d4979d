"""C24: every consumer gets each produced message once and in order, then end of stream; the producer runs exactly while it is needed."""
import asyncio, sys, threading, time
from streamtasks.utils import AsyncConsumer, AsyncMPProducer, AsyncProducer
from vlib.core import Violation, family

class Filtered(AsyncConsumer):
  """Accepts the messages with number % m in keep."""
  def __init__(self, producer, m=1, keep=(0,)):
    super().__init__(producer)
    self.m, self.keep = m, set(keep)
  def test_message(self, message): return message % self.m in self.keep

class Plan:
  """What a producer does: bursts of messages with pauses, then nothing more (idle), end of stream, or for ever."""
  def __init__(self, rng, mp):
    self.rng = rng
    self.total = rng.choice((0, 1, 2, 5, 12, 30)) if not mp else rng.choice((0, 1, 3, 10, 25))
    self.ends = rng.random() < 0.75
    self.tail = rng.choice(("none", "sleep"))       # whether it sleeps between its last message and the end
    self.bursts = rng.choice(((1,), (1, 1, 2, 3), (1, 5, 9)))
    self.pauses = rng.choice(((0,), (0, 0.001), (0.001, 0.05, 0.2), (None,), (None, 0.01))) if not mp else rng.choice(((0,), (0, 0.001), (0.0005, 0.004)))

class Recorder:
  """Watches one producer: emitted messages, runs, who is registered."""
  def __init__(self, ctx):
    self.ctx = ctx
    self.running = 0
    self.runs = 0
    self.max_running = 0
    self.emitted = []
    self.next = 0
    self.ended = False
    self.lock = threading.Lock()
  def begin(self):
    with self.lock:
      self.running += 1
      self.runs += 1
      self.max_running = max(self.max_running, self.running)
  def end(self):
    with self.lock: self.running -= 1
  def emit(self):
    with self.lock:
      n = self.next
      self.next += 1
      self.emitted.append(n)
    return n

class Async(AsyncProducer):
  def __init__(self, plan, rec):
    super().__init__()
    self.plan, self.rec = plan, rec
  async def run(self):
    p, r = self.plan, self.rec
    r.begin()
    try:
      while r.next < p.total:
        for _ in range(min(p.rng.choice(p.bursts), p.total - r.next)): self.send_message(r.emit())
        if r.next >= p.total and p.tail == "none": break
        d = p.rng.choice(p.pauses)
        if d is not None: await asyncio.sleep(d)
      if p.ends:
        r.ended = True
        raise EOFError()
      while True:
        await asyncio.sleep(0.02)
        self.send_message(r.emit())
    except asyncio.CancelledError:
      if p.rng.random() < 0.3: await asyncio.sleep(p.rng.choice((0, 0.01, 0.3)))   # takes a while to stop
      raise
    finally: r.end()

class Threaded(AsyncMPProducer):
  def __init__(self, plan, rec):
    super().__init__()
    self.plan, self.rec = plan, rec
  def run_sync(self):
    p, r = self.plan, self.rec
    r.begin()
    try:
      while r.next < p.total:
        for _ in range(min(p.rng.choice(p.bursts), p.total - r.next)): self.send_message(r.emit())
        if r.next >= p.total and p.tail == "none": break
        time.sleep(p.rng.choice(p.pauses))
        if self.stop_event.is_set(): return
      if p.ends:
        r.ended = True
        raise EOFError()
      while not self.stop_event.is_set():
        time.sleep(0.001)
        self.send_message(r.emit())
    finally: r.end()

class Driver:
  def __init__(self, ctx, producer, rec, mp, scale):
    self.ctx, self.rng, self.producer, self.rec, self.mp, self.scale = ctx, ctx.rng, producer, rec, mp, scale
    self.limit = 20 if mp else 1000
    self.n = 0
  def consumer(self):
    rng = self.rng
    m = rng.choice((1, 1, 2, 3))
    c = Filtered(self.producer, m, rng.sample(range(m), rng.randint(1, m)))
    c.got, c.eof, c.name, c.pending = [], False, self.n, 0
    c.first = None; c.last = None; c.concurrent = False
    self.n += 1
    return c
  def register(self, c):
    c.first = len(self.rec.emitted)
    c.register()
  def unregister(self, c):
    c.unregister()
    c.last = len(self.rec.emitted)
  async def get(self, c, timeout=None):
    """One get; True while the stream goes on."""
    ctx = self.ctx
    queued = len(c._queue)
    c.pending += 1
    try:
      if timeout is None:
        try: v = await asyncio.wait_for(c.get(), self.limit)
        except TimeoutError: ctx.fail("get-hangs", f"consumer {c.name}: got {len(c.got)}, emitted {len(self.rec.emitted)}, producer running {self.rec.running}")
      else:
        try: v = await asyncio.wait_for(c.get(), timeout)
        except TimeoutError: ctx.count("timeouts"); return True
    except EOFError:
      ctx.count("eofs")
      c.eof = True
      return False
    except (Violation, asyncio.CancelledError): raise
    except Exception as e: ctx.fail("get-fails", repr(e))
    finally: c.pending -= 1
    ctx.check(not c.eof or c.concurrent, "message-after-end", lambda: (c.name, v))
    c.got.append(v)
    ctx.count("messages")
    return True
  def accepted(self, c, lo, hi): return [x for x in self.rec.emitted[lo:hi] if c.test_message(x)]
  def judge(self, c, closed, drained):
    """Everything the consumer got is what was sent to it while it was registered."""
    ctx = self.ctx
    if c.first is None:
      ctx.check(not c.got, "message-to-unregistered", lambda: c.got)
      return
    got = sorted(c.got) if c.concurrent else c.got
    hi = len(self.rec.emitted) if c.last is None else c.last
    if not self.mp:
      # sent and delivered at the same moment
      want = self.accepted(c, c.first, hi)
      if closed is not None: want = want[:max(len(got), len(self.accepted(c, c.first, min(hi, closed))))]
    else:
      # a message sent from the thread arrives a little later: what was under way when it registered may come too, what was under way when it left need not come
      lo = c.first
      if got and got[0] < lo: lo = got[0]
      want = self.accepted(c, lo, hi)
      if c.last is not None or closed is not None: want = want[:len(got)]
    if drained or c.eof: ctx.check(got == want, "consumer-missed-or-repeated", lambda: f"consumer {c.name} eof={c.eof} got {got} want {want} (registered {c.first}..{c.last}, emitted {len(self.rec.emitted)}, closed {closed})")
    else: ctx.check(got == want[:len(got)], "consumer-out-of-order", lambda: (c.name, got, want))

async def scenario(ctx, mp):
  rng = ctx.rng
  rec = Recorder(ctx)
  plan = Plan(rng, mp)
  producer = (Threaded if mp else Async)(plan, rec)
  d = Driver(ctx, producer, rec, mp, 1)
  cs = [d.consumer() for _ in range(rng.choice((1, 1, 2, 3, 5)))]
  think = rng.choice(((None,), (0,), (None, 0, 0.001), (0, 0.01, 0.1))) if not mp else rng.choice(((None,), (0, 0.001), (0, 0.004)))
  timeouts = rng.choice(((None,), (None,), (None, 0.001, 0.05), (0, 0.0005, 0.002, 0.01))) 
  style = rng.choice(("read-all", "read-all", "some", "concurrent"))
  close_at = rng.choice((None, None, None, 0, 0.01, 0.1)) if not mp else rng.choice((None, None, None, 0, 0.003, 0.01))
  closed_at = None
  stopping = False
  ctx.op("plan", plan.total, plan.ends, plan.tail, style, len(cs), close_at)
  async def reader(c):
    d.register(c) if c.first is None else None
    n = None
    if style == "some" or not plan.ends: n = rng.randrange(1, 12)
    while n is None or n > 0:
      if think != (None,):
        t = rng.choice(think)
        if t is not None: await asyncio.sleep(t)
      if style == "concurrent":
        c.concurrent = True
        r = await asyncio.gather(*(d.get(c, rng.choice(timeouts)) for _ in range(rng.randint(1, 3))))
        go = all(r)
      else: go = await d.get(c, rng.choice(timeouts))
      if not go: break
      if n is not None: n -= 1
    ctx.count("readers")
  late = [c for c in cs[1:] if rng.random() < 0.3]
  for c in cs:
    if c not in late: d.register(c)
  async def start(c):
    if c in late: await asyncio.sleep(rng.choice((0, 0.002, 0.02)))
    await reader(c)
  async def leaver(c):
    """Unregisters while its messages keep coming; then reads what it has."""
    await asyncio.sleep(rng.choice((0, 0.003, 0.02)))
    d.unregister(c)
  tasks = [asyncio.create_task(start(c)) for c in cs]
  async def closer():
    nonlocal closed_at
    await asyncio.sleep(close_at)
    closed_at = len(rec.emitted)
    ctx.count("closes")
    try: await asyncio.wait_for(producer.close(), d.limit)
    except TimeoutError: ctx.fail("close-hangs", "producer.close()")
    ctx.check(rec.running == 0, "runs-after-close", lambda: rec.running)
  if close_at is not None: tasks.append(asyncio.create_task(closer()))
  killed = []
  if rng.random() < 0.25 and cs:
    # a reader is cancelled while it waits; others must not notice
    async def killer(t, c):
      await asyncio.sleep(rng.choice((0, 0.001, 0.004, 0.02)))
      if t.done(): return
      t.cancel()
      _, pend = await asyncio.wait([t], timeout=d.limit)
      ctx.check(not pend, "cancel-ignored", lambda: f"reader of consumer {c.name} goes on")
      killed.append(c)
      ctx.count("cancelled")
    i = rng.randrange(len(cs))
    tasks.append(asyncio.create_task(killer(tasks[i], cs[i])))
  try:
    for r in await asyncio.gather(*tasks, return_exceptions=True):
      if isinstance(r, BaseException) and not isinstance(r, asyncio.CancelledError): raise r
  finally: stopping = True
  # nobody needs it any more
  quiet = 0
  for _ in range(300):
    n = (rec.running, rec.runs, len(rec.emitted))
    await asyncio.sleep(0.01 if mp else 1)
    quiet = quiet + 1 if n == (0, rec.runs, len(rec.emitted)) else 0
    if quiet == 2: break
  ctx.check(quiet == 2, "runs-without-need", lambda: (rec.running, rec.runs, len(rec.emitted)))
  ctx.check(rec.max_running <= 1, "runs-twice", lambda: rec.max_running)
  for c in cs:
    if c.first is None: continue
    # what is queued comes without running the producer again; then the end, if it has ended
    ended = producer._ended if False else (rec.ended or closed_at is not None)
    if ended:
      while await d.get(c): pass
      d.judge(c, closed_at, True)
      ctx.check(not await d.get(c), "message-after-end", c.name)
    else:
      runs = rec.runs
      while len(c._queue): await d.get(c)
      ctx.check(rec.runs == runs, "runs-without-need", "while only queued messages are read")
      d.judge(c, None, not mp or c.last is None)
  if rec.ended or closed_at is not None:
    # whoever comes later sees the end
    c = d.consumer()
    d.register(c)
    ctx.check(not await d.get(c), "late-consumer-gets-message", lambda: c.got)
    ctx.check(rec.running == 0, "runs-after-end", "")
  elif rng.random() < 0.5:
    # and a stopped producer starts again for a new need
    c = d.consumer()
    d.register(c)
    runs = rec.runs
    for _ in range(3): 
      if not await d.get(c): break
    ctx.check(rec.runs > runs, "not-started", "")
    d.judge(c, None, False)
    c.unregister()
  try: await asyncio.wait_for(producer.close(), d.limit)
  except TimeoutError: ctx.fail("close-hangs", "producer.close()")
  ctx.check(rec.running == 0, "runs-after-close", "")
  ctx.check(rec.max_running <= 1, "runs-twice", lambda: rec.max_running)
  ctx.count("runs", rec.runs)
  ctx.sigadd(plan.total, plan.ends, plan.tail, style, closed_at, tuple((c.first, c.last, len(c.got), c.eof) for c in cs), rec.runs)
  ctx.nontrivial = ctx.counters.get("messages", 0) > 2
  ctx.summary = dict(plan=[plan.total, plan.ends, plan.tail, style], closed_at=closed_at, runs=rec.runs, emitted=len(rec.emitted), consumers=[dict(registered=[c.first, c.last], got=c.got[:40], eof=c.eof) for c in cs])

@family("loop", quick=4000, thorough=150000)
async def loop_family(ctx): await scenario(ctx, False)

@family("threads", quick=800, thorough=20000, loop="real")
async def threads(ctx):
  old = sys.getswitchinterval()
  sys.setswitchinterval(ctx.rng.choice((1e-6, 1e-5, 0.005)))
  try: await scenario(ctx, True)
  finally: sys.setswitchinterval(old)

@family("unstarted", quick=60, thorough=500, loop="real")
async def unstarted(ctx):
  """Closing a producer that never ran, once or twice, with waiting consumers or none."""
  rng = ctx.rng
  mp = rng.random() < 0.5
  rec = Recorder(ctx)
  p = (Threaded if mp else Async)(Plan(rng, mp), rec)
  d = Driver(ctx, p, rec, mp, 1)
  cs = [d.consumer() for _ in range(rng.randrange(3))]
  for c in cs: d.register(c)
  for _ in range(rng.randint(1, 2)):
    try: await p.close()
    except Exception as e: ctx.fail("close-fails", repr(e))
  for c in cs + [d.consumer()]: ctx.check(not await d.get(c), "message-after-end", "")
  ctx.check(rec.runs == 0, "runs-after-close", "")
  ctx.sigadd(mp, len(cs)); ctx.nontrivial = True
