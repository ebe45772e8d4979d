"""C21: stored entries survive a crash at any point of saving."""
import json, os, resource, signal, subprocess, sys, time
from uuid import UUID
from streamtasks.pydanticdb import PydanticDB
from streamtasks.system.named_topic_manager import NamedTopicModel
from streamtasks.system.secret_manager import SecretModel
from streamtasks.system.task_web import DeploymentBase, DeploymentDashboard, DeploymentDashboardWindow, StoredTask
from vlib.core import family
from vlib.values import canon, text

def uid(rng): return UUID(int=rng.getrandbits(128), version=4)

def num(rng): return rng.choice((0.0, -0.0, 1.5, 1e300, 5e-324, float("inf"), float("-inf"), rng.uniform(-1e6, 1e6), 0.1 + 0.2, 2.0**53 + 2))

def jval(rng, depth=3):
  k = rng.random()
  if depth and k < 0.2: return [jval(rng, depth - 1) for _ in range(rng.randrange(4))]
  if depth and k < 0.4: return {text(rng): jval(rng, depth - 1) for _ in range(rng.randrange(4))}
  return rng.choice((lambda: None, lambda: rng.random() < 0.5, lambda: rng.choice((0, 1, -1, 2**31, 2**53 + 1, -2**63, 2**64, 2**80)), lambda: num(rng), lambda: text(rng), lambda: float("nan")))()

def meta(rng): return {text(rng): rng.choice((lambda: rng.randrange(-5, 10**9), lambda: num(rng), lambda: text(rng), lambda: rng.random() < 0.5))() for _ in range(rng.randrange(4))}
def jdict(rng): return {text(rng): jval(rng) for _ in range(rng.randrange(4))}

MAKERS = {
  DeploymentBase: lambda rng: DeploymentBase(id=uid(rng), label=text(rng)),
  StoredTask: lambda rng: StoredTask(id=uid(rng), deployment_id=uid(rng), task_host_id=text(rng), label=text(rng), config=jdict(rng), frontend_config=jdict(rng),
                                     inputs=[meta(rng) for _ in range(rng.randrange(3))], outputs=[meta(rng) for _ in range(rng.randrange(3))]),
  DeploymentDashboard: lambda rng: DeploymentDashboard(id=uid(rng), deployment_id=uid(rng), label=text(rng),
                                     windows=[DeploymentDashboardWindow(task_id=uid(rng), x=num(rng), y=num(rng), width=num(rng), height=num(rng)) for _ in range(rng.randrange(4))]),
  SecretModel: lambda rng: SecretModel(id=uid(rng), value=text(rng) * rng.choice((1, 1, 1, 3000))),
  NamedTopicModel: lambda rng: NamedTopicModel(name=text(rng), metadata=meta(rng)),
}

def cv(v):
  if isinstance(v, UUID): return ("uuid", v.int)
  if hasattr(v, "__dict__") and hasattr(type(v), "model_fields"): return (type(v).__name__, tuple((f, cv(getattr(v, f))) for f in type(v).model_fields))
  if isinstance(v, list): return ("list", tuple(cv(x) for x in v))
  if isinstance(v, dict): return ("dict", tuple(sorted(((k, cv(x)) for k, x in v.items()), key=repr)))
  if isinstance(v, float) and v != v: return ("nan",)
  return canon(v)

def content(rng, model, n=None): return [MAKERS[model](rng) for _ in range(rng.choice((0, 1, 2, 3, 8)) if n is None else n)]
def view(entries): return cv(list(entries))

def load(ctx, model, fn, mech):
  try: return PydanticDB(model, fn)
  except Exception as e: ctx.fail(mech, f"loading raised {type(e).__name__}: {str(e)[:300]}; file: {read(fn)[:300]!r}")

def read(fn):
  try: return open(fn, "rb").read()
  except OSError as e: return repr(e).encode()

@family("roundtrip", quick=1200, thorough=30000, loop="sync")
def roundtrip(ctx):
  """Histories of update/save/load with several database objects on the same file, mutations of what was read."""
  rng = ctx.rng
  model = rng.choice(list(MAKERS))
  fn = os.path.join(ctx.tmpdir(), "db.json")
  db = PydanticDB(model, fn)
  cur, saved = [], None
  ctx.check(view(db.entries) == view([]), "not-empty-at-first", "")
  for _ in range(rng.randrange(3, 14)):
    op = rng.choice(("update", "update", "save", "save", "reopen", "load", "mutate", "filter"))
    ctx.op(op)
    if op == "update":
      cur = content(rng, model) if rng.random() < 0.5 else list(db.entries) + content(rng, model, 1)
      v = view(cur)
      arg = rng.choice((list, tuple, iter))(cur)
      db.update(arg)
      ctx.check(view(db.entries) == v, "update-not-kept", lambda: (cur, db.entries))
    elif op == "filter":
      keep = [rng.random() < 0.7 for _ in cur]
      cur = [e for e, k in zip(db.entries, keep) if k]
      db.update(e for e, k in zip(db.entries, list(keep)) if k)
      ctx.check(view(db.entries) == view(cur), "update-not-kept", lambda: (cur, db.entries))
    elif op == "save":
      before = view(db.entries)
      db.save()
      saved = before
      ctx.check(view(db.entries) == before, "save-changed-entries", "")
      ctx.check(view(load(ctx, model, fn, "saved-does-not-load").entries) == saved, "saved-differs", lambda: (cur, PydanticDB(model, fn).entries))
      ctx.count("saves")
    elif op == "reopen":
      db = load(ctx, model, fn, "saved-does-not-load")
      ctx.check(view(db.entries) == (saved if saved is not None else view([])), "saved-differs", lambda: db.entries)
      cur = list(db.entries)
    elif op == "load":
      if saved is None: continue
      db.load()
      ctx.check(view(db.entries) == saved, "saved-differs", lambda: db.entries)
      cur = list(db.entries)
    elif op == "mutate":
      before = view(db.entries)
      got = db.entries
      n = deep_mutate(rng, got)
      ctx.check(view(db.entries) == before, "returned-entries-expose-state", lambda: (model.__name__, got))
      if rng.random() < 0.3 and saved is not None:
        db.save(); saved = before
        ctx.check(view(PydanticDB(model, fn).entries) == before, "returned-entries-expose-state", lambda: (model.__name__, got))
      ctx.count("mutations", n)
      ctx.nontrivial = ctx.nontrivial or n > 0
    ctx.sigadd(op, len(cur))
  ctx.sigadd(model.__name__, hash(str(view(cur))) % 10**6)

def deep_mutate(rng, v):
  n = 0
  if isinstance(v, list):
    for x in v: n += deep_mutate(rng, x)
    if rng.random() < 0.5: v.append(v[0] if v else 1); n += 1
    elif v and rng.random() < 0.5: v.pop(rng.randrange(len(v))); n += 1
  elif isinstance(v, dict):
    for x in list(v.values()): n += deep_mutate(rng, x)
    v["__new"] = 1; n += 1
  elif hasattr(type(v), "model_fields"):
    for f in type(v).model_fields:
      x = getattr(v, f)
      if isinstance(x, (list, dict)) or hasattr(type(x), "model_fields"): n += deep_mutate(rng, x)
      elif isinstance(x, str): setattr(v, f, x + "!"); n += 1
      elif isinstance(x, float): setattr(v, f, 12345.5); n += 1
  return n

FS_EVENTS = ("open", "os.rename", "os.remove", "os.truncate", "os.link", "os.symlink", "os.chmod", "os.utime", "shutil.move", "shutil.copyfile", "tempfile.mkstemp", "os.mkdir", "os.rmdir")

def die_saving(db, how, k):
  """Forks; the child saves and dies at point k. Returns (status, number of events seen)."""
  r, w = os.pipe()
  pid = os.fork()
  if pid == 0:
    try:
      os.close(r)
      signal.setitimer(signal.ITIMER_PROF, 0)
      if how == "event":
        seen = [0]
        def hook(ev, args):
          if ev in FS_EVENTS:
            os.write(w, b".")
            if seen[0] == k: os.kill(os.getpid(), signal.SIGKILL)
            seen[0] += 1
        sys.addaudithook(hook)
      elif how in ("size", "size-error"):
        signal.signal(signal.SIGXFSZ, signal.SIG_DFL if how == "size" else signal.SIG_IGN)
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        resource.setrlimit(resource.RLIMIT_FSIZE, (k, k))
      elif how == "timer":
        def on_alarm(*_): os.kill(os.getpid(), signal.SIGKILL)
        signal.signal(signal.SIGALRM, signal.SIG_DFL)
        signal.setitimer(signal.ITIMER_REAL, k)
      elif how == "line":
        left = [k]
        def tr(frame, ev, arg):
          if ev in ("line", "return"):
            os.write(w, b".")
            if left[0] == 0: os.kill(os.getpid(), signal.SIGKILL)
            left[0] -= 1
          return tr
        sys.settrace(tr)
      db.save()
      sys.settrace(None)
      os._exit(0)
    except BaseException: os._exit(7)
  os.close(w)
  n = 0
  while (b := os.read(r, 4096)): n += len(b)
  os.close(r)
  _, st = os.waitpid(pid, 0)
  return st, n

@family("crash", quick=160, thorough=2500, loop="sync")
def crash(ctx):
  """Every file operation and every byte offset of the written data (subsampled for long files) is a crash point."""
  rng = ctx.rng
  model = rng.choice(list(MAKERS))
  d = ctx.tmpdir()
  fn = os.path.join(d, "db.json")
  db = PydanticDB(model, fn)
  first = rng.random() < 0.2
  if not first:
    db.update(content(rng, model, rng.randrange(0, 6))); db.save()
  old = view(PydanticDB(model, fn).entries)
  olddisk = read(fn)
  newc = content(rng, model, rng.randrange(0, 6))
  if rng.random() < 0.3: newc = list(db.entries)[:-1]
  new = view(newc)
  db.update(newc)
  # probe how the file grows
  points = [("event", k) for k in range(0, 12)] + [("line", k) for k in range(0, 40)]
  size = 0
  probe = os.path.join(d, "probe.json")
  pdb = PydanticDB(model, probe); pdb.update(newc); pdb.save(); size = os.path.getsize(probe)
  offs = list(range(size + 1)) if size < 60 else sorted(set([0, 1, 2, size - 1, size, size + 1] + [rng.randrange(size) for _ in range(20)] + [x for x in (4096, 8192, 65536, 8191, 4095) if x < size]))
  points += [("size", o) for o in offs] + [("size-error", o) for o in offs[::4]]
  points += [("timer", rng.uniform(1e-6, 6e-4)) for _ in range(6)]
  rng.shuffle(points)
  limit_of = {}
  outcomes = set()
  for how, k in points:
    if k >= limit_of.get(how, 10**9): continue
    st, n = die_saving(db, how, k)
    got_db = load(ctx, model, fn, f"crash-leaves-unloadable-{how}")
    got = view(got_db.entries)
    died = os.WIFSIGNALED(st)
    ctx.count(f"died:{how}" if died else f"survived:{how}")
    if not died and how in ("event", "line"): limit_of[how] = min(k, limit_of.get(how, k))
    if not died and os.WEXITSTATUS(st) == 0: ctx.check(got == new, "save-returned-but-lost", lambda: (how, k, read(fn)[:300]))
    ctx.check(got in (old, new), f"crash-leaves-mixture-{how}", lambda: (how, k, got_db.entries))
    outcomes.add((how, died, got == new))
    if got == new and got != old:
      # a later save must work whatever the dead process left behind; go back to the old content
      b = PydanticDB(model, fn)
      b.update(restore := loads(model, olddisk) if not first else [])
      b.save()
      ctx.check(view(load(ctx, model, fn, "saved-does-not-load").entries) == view(restore), "save-after-crash-lost", lambda: (how, k))
      if first:
        old = view([])
    if rng.random() < 0.05:
      b = PydanticDB(model, fn); b.update(b.entries); b.save()
      ctx.check(view(load(ctx, model, fn, "saved-does-not-load").entries) == got if got != new else True, "save-after-crash-lost", lambda: (how, k))
    ctx.op(how, k, st, got == new)
  ctx.count("points", len(points))
  ctx.nontrivial = any(o[1] for o in outcomes)
  ctx.sigadd(model.__name__, size, sorted(outcomes))

def loads(model, raw):
  import tempfile
  with tempfile.NamedTemporaryFile(dir=os.environ["VT_WORK"], suffix=".json") as f:
    f.write(raw); f.flush()
    return PydanticDB(model, f.name).entries

CHILD = """
import sys, os
from streamtasks.pydanticdb import PydanticDB
sys.path.insert(0, sys.argv[1])
from checks.c21_pydanticdb import MAKERS, view
import random
name, fn, mode, seed = sys.argv[2:6]
model = next(m for m in MAKERS if m.__name__ == name)
db = PydanticDB(model, fn)
if mode == "view": print(repr(view(db.entries)).encode().hex())
else:
  i = 0
  print("ready", flush=True)
  while True:
    db.update([MAKERS[model](random.Random(f"{seed}/{i}/{j}")) for j in range(i % 5)])
    db.save()
    os.write(1, b"%d\\n" % i)
    i += 1
"""

@family("process", quick=16, thorough=300, loop="sync", cpu_limit=60)
def process(ctx):
  """A separate interpreter saves generation after generation and is killed; this process loads what it left."""
  import random
  rng = ctx.rng
  model = rng.choice(list(MAKERS))
  fn = os.path.join(ctx.tmpdir(), "db.json")
  seed = f"{ctx.key}"
  p = subprocess.Popen([sys.executable, "-c", CHILD, os.path.dirname(os.path.dirname(os.path.abspath(__file__))), model.__name__, fn, "write", seed], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
  try:
    ctx.check(p.stdout.readline() == b"ready\n", "child-failed-to-start", "")
    time.sleep(rng.uniform(0.002, 0.3))
  finally:
    p.kill()
  out = p.stdout.read().split()
  p.wait()
  last = int(out[-1]) if out else -1
  gen = lambda i: [] if i < 0 else [MAKERS[model](random.Random(f"{seed}/{i}/{j}")) for j in range(i % 5)]
  db = load(ctx, model, fn, "crash-leaves-unloadable-kill")
  ok = [view(gen(last)), view(gen(last + 1))]
  ctx.check(view(db.entries) in ok, "crash-leaves-mixture-kill", lambda: (last, db.entries))
  ctx.count("generations", last + 1)
  db.update(gen(3)); db.save()
  r = subprocess.run([sys.executable, "-c", CHILD, os.path.dirname(os.path.dirname(os.path.abspath(__file__))), model.__name__, fn, "view", seed], capture_output=True, text=True)
  ctx.check(r.stdout.strip() == repr(view(gen(3))).encode().hex(), "saved-differs", lambda: (r.stdout[:500], r.stderr[-500:]))
  ctx.nontrivial = last > 0
  ctx.sigadd(model.__name__, last, view(db.entries) == ok[1])
