"""Case registry, case context and per-case execution (runs inside a shard process)."""
import asyncio, hashlib, json, os, random, signal, sys, time, traceback, warnings
from dataclasses import dataclass, field
from typing import Any, Callable

REPO = os.environ.get("STREAMTASKS_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

class Violation(Exception):
  """The property was observed to be broken. `mech` names the mechanism (stable across seeds)."""
  def __init__(self, mech: str, detail: Any = ""):
    super().__init__(f"{mech}: {detail}")
    self.mech, self.detail = mech, detail

class HarnessError(Exception): pass
class CaseTimeout(BaseException): pass

@dataclass
class Family:
  name: str
  fn: Callable
  quick: int
  thorough: int
  loop: str          # "virtual" | "real" | "sync"
  cpu_limit: float
  weight: float = 1.0

FAMILIES: dict[str, Family] = {}

def family(name: str, quick: int, thorough: int, loop: str = "virtual", cpu_limit: float = 40.0):
  def deco(fn):
    FAMILIES[name] = Family(name, fn, quick, thorough, loop, cpu_limit)
    return fn
  return deco

class Ctx:
  """One case: its random source, its log of what it did and what was observed."""
  def __init__(self, prop: str, fam: str, index: int, seed: int, tier: str):
    self.prop, self.family, self.index, self.seed, self.tier = prop, fam, index, seed, tier
    self.key = f"{prop}/{fam}/{index}/{seed}"
    self.rng = random.Random(hashlib.sha256(self.key.encode()).digest())
    self.log: list[Any] = []
    self.counters: dict[str, int] = {}
    self.sig: list[Any] = []
    self.nontrivial = False
    self.summary: Any = None
    self.loop_errors: list[str] = []
    self.cleanups: list[Callable] = []
  def op(self, *what):
    if len(self.log) < 4000: self.log.append(what)
  def count(self, key: str, n: int = 1): self.counters[key] = self.counters.get(key, 0) + n
  def sigadd(self, *parts): self.sig.append(parts)
  def signature(self):
    return hashlib.sha256(repr((self.family, self.sig)).encode()).hexdigest()[:16]
  def fail(self, mech: str, detail: Any = ""): raise Violation(mech, detail)
  def check(self, cond: bool, mech: str, detail: Any = ""):
    self.count("checks")
    if not cond: raise Violation(mech, detail() if callable(detail) else detail)
  def eq(self, got, want, mech: str, where: Any = ""):
    self.count("checks")
    if not (type(got) is type(want) and got == want) and got != want:
      raise Violation(mech, f"{where}: got {short(got)} want {short(want)}")
  def tmpdir(self) -> str:
    import tempfile, shutil
    d = tempfile.mkdtemp(prefix="case-", dir=os.environ["VT_WORK"])
    self.cleanups.append(lambda: shutil.rmtree(d, ignore_errors=True))
    return d

def short(v, n=400):
  s = repr(v)
  return s if len(s) <= n else s[:n] + f"...({len(s)})"

def has_repo_frame(exc: BaseException) -> bool:
  """Did the code under test raise this exception (innermost frame of ours or theirs is theirs)?"""
  repo, ver = os.path.realpath(REPO) + os.sep + "streamtasks", os.path.realpath(VERIF) + os.sep
  last = None
  tb = exc.__traceback__
  while tb is not None:
    fn = os.path.realpath(tb.tb_frame.f_code.co_filename)
    if fn.startswith(repo): last = "repo"
    elif fn.startswith(ver): last = "verif"
    tb = tb.tb_next
  return last == "repo"

def exc_mech(exc: BaseException) -> str:
  """Mechanism name of an unexpected exception: type and innermost repo function (no line numbers)."""
  name = None
  tb = exc.__traceback__
  while tb is not None:
    fn = os.path.realpath(tb.tb_frame.f_code.co_filename)
    if fn.startswith(os.path.realpath(REPO) + os.sep): name = f"{os.path.relpath(fn, os.path.realpath(REPO))}:{tb.tb_frame.f_code.co_name}"
    tb = tb.tb_next
  return f"unexpected-{type(exc).__name__}-in-{name or 'background'}"

def run_case(prop: str, fam: Family, index: int, seed: int, tier: str):
  """Returns (ctx, outcome, mech, detail); outcome in ok / violation / error."""
  from vlib import vtime
  ctx = Ctx(prop, fam.name, index, seed, tier)
  random.seed(ctx.key)
  def on_prof(*_): raise CaseTimeout(f"case used more than {fam.cpu_limit}s of cpu time")
  old = signal.signal(signal.SIGPROF, on_prof)
  signal.setitimer(signal.ITIMER_PROF, fam.cpu_limit, 5.0)
  outcome, mech, detail = "ok", None, None
  try:
    try:
      if fam.loop == "sync": fam.fn(ctx)
      elif fam.loop == "virtual": vtime.run_virtual(ctx, fam.fn(ctx))
      elif fam.loop == "real": vtime.run_real(ctx, fam.fn(ctx))
      else: raise HarnessError(f"bad loop {fam.loop}")
    finally:
      signal.setitimer(signal.ITIMER_PROF, 0)
      signal.signal(signal.SIGPROF, old)
      for c in reversed(ctx.cleanups):
        try: c()
        except Exception: pass
  except Violation as e: outcome, mech, detail = "violation", e.mech, str(e.detail)
  except CaseTimeout as e: outcome, mech, detail = "violation", "does-not-terminate", str(e)
  except vtime.Livelock as e: outcome, mech, detail = "violation", "livelock", str(e)
  except vtime.Deadlock as e: outcome, mech, detail = "violation", "deadlock", str(e)
  except HarnessError as e: outcome, mech, detail = "error", "harness", traceback.format_exc()
  except (KeyboardInterrupt, SystemExit): raise
  except BaseException as e:
    tbs = traceback.format_exc()
    if has_repo_frame(e): outcome, mech, detail = "violation", exc_mech(e), tbs[-3000:]
    else: outcome, mech, detail = "error", "harness", tbs
  return ctx, outcome, mech, detail
