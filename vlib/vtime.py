"""Virtual-time event loop: timers fire instantly once nothing else can run, so delays, rates and
time-outs are decided in logical time and never by the machine's load. Sockets on it are socket pairs (what is
written can be read at once)."""
import asyncio, contextlib, selectors, sys, time, traceback
from unittest import mock

class Livelock(Exception): pass
class Deadlock(Exception): pass

MAX_SPIN = 60000  # loop iterations without virtual time advancing

class _VSelector(selectors.DefaultSelector):
  loop: "VLoop" = None
  def select(self, timeout=None):
    lp = self.loop
    if timeout is not None and timeout <= 0:
      lp._spin += 1
      if lp._spin > MAX_SPIN: raise Livelock(f"{MAX_SPIN} loop iterations at virtual time {lp._now}")
      if lp.has_io() and lp._spin % 8 == 0: return super().select(0) # sockets are looked at now and then: an epoll call is slow here
      return []
    # nothing ready
    if lp.has_io():
      ev = super().select(lp.io_grace)
      if ev:
        lp._spin += 1
        if lp._spin > MAX_SPIN: raise Livelock(f"{MAX_SPIN} io iterations at virtual time {lp._now}")
        return ev
    if timeout is None:
      if lp._external: return super().select(0.05)
      raise Deadlock("nothing is scheduled and nothing is ready")
    if lp._external:
      ev = super().select(lp.external_grace)
      if ev: return ev
    lp._now += timeout + 1e-9
    lp._spin = 0
    return []

class VLoop(asyncio.SelectorEventLoop):
  def __init__(self, io_grace=0):
    self._now, self._spin, self._external, self.io_grace = 1000.0, 0, 0, io_grace
    self.external_grace = 0.001 # how long work in an executor may take before time goes on
    sel = _VSelector()
    sel.loop = self
    super().__init__(sel)
    self._base_fds = len(sel.get_map())
    self.epoch = 1_700_000_000.0
  def has_io(self): return len(self._selector.get_map()) > self._base_fds
  def time(self): return self._now
  def wall(self): return self.epoch + self._now
  def run_in_executor(self, executor, func, *args):
    self._external += 1
    fut = super().run_in_executor(executor, func, *args)
    def done(_): self._external -= 1
    fut.add_done_callback(done)
    return fut

@contextlib.contextmanager
def virtual_clock(loop: VLoop):
  """time.time/time_ns follow the loop's virtual time."""
  with mock.patch("time.time", loop.wall), mock.patch("time.time_ns", lambda: int(round(loop.wall() * 1e9))):
    yield

async def settle(t: float = 5.0):
  """Quiescence: returns once no callback can run any more for t virtual seconds."""
  await asyncio.sleep(t)

def _run(ctx, loop, coro, final_timeout):
  asyncio.set_event_loop(loop)
  def on_exc(_loop, c):
    e = c.get("exception")
    ctx.loop_errors.append((c.get("message", ""), "".join(traceback.format_exception(e))[-1500:] if e else ""))
  loop.set_exception_handler(on_exc)
  try:
    return loop.run_until_complete(coro)
  finally:
    try:
      tasks = [t for t in asyncio.all_tasks(loop) if not t.done()]
      for t in tasks: t.cancel()
      if tasks:
        async def fin():
          for _ in range(4):
            alive = [t for t in tasks if not t.done()]
            if not alive: break
            for t in alive: t.cancel()
            await asyncio.wait(alive, timeout=final_timeout)
        with contextlib.suppress(Exception): loop.run_until_complete(fin())
      with contextlib.suppress(Exception): loop.run_until_complete(loop.shutdown_asyncgens())
      for t in tasks:
        if t.done() and not t.cancelled(): t.exception()
    finally:
      loop.set_exception_handler(lambda *_: None)
      with contextlib.suppress(Exception):
        if loop._default_executor is not None: loop._default_executor.shutdown(wait=False)
      loop.close()
      asyncio.set_event_loop(None)

def run_virtual(ctx, coro):
  loop = VLoop()
  ctx.loop = loop
  with virtual_clock(loop):
    return _run(ctx, loop, coro, 2.0)

def run_real(ctx, coro):
  loop = asyncio.SelectorEventLoop()
  ctx.loop = loop
  return _run(ctx, loop, coro, 1.0)
