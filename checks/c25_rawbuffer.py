"""C25: the raw-data buffer behaves like a list of payloads."""
import gc, os, tempfile
from streamtasks.net.serialization import RawData
from streamtasks.rawdatabuffer import RawDataBuffer
from vlib.core import family
from vlib.values import top

def payload(rng, big):
  k = rng.random()
  if k < 0.5: return RawData(top(rng))
  if k < 0.8: return RawData(rng.choice((bytes, bytearray, memoryview))(rng.randbytes(rng.choice((1, 1, 2, 10, 255, 1000)))))
  return RawData(rng.randbytes(rng.choice((1023, 1024, 4096, 65536, 200000) if big else (1023, 1024, 5000))))

def outcome(fn):
  try: return ("ok", fn())
  except Exception as e: return ("error", type(e).__name__)

class Pair:
  """The buffer and the list it has to behave like."""
  def __init__(self, ctx, n): self.ctx, self.n, self.buf, self.ref, self.iters = ctx, n, RawDataBuffer(), [], []

def show(o): return o if not (o[0] == "ok" and isinstance(o[1], RawData)) else ("ok", bytes(o[1].serialize()))

def step(ctx, p, big):
  rng = ctx.rng
  b, r = p.buf, p.ref
  k = rng.choice(("append",) * 6 + ("popleft", "popleft", "pop", "popi", "get", "get", "set", "del", "len", "iter", "iter-step", "iter-step", "iter-step", "clear", "all"))
  i = rng.choice((0, -1, 1, -2, len(r), len(r) - 1, -len(r), -len(r) - 1, rng.randrange(-len(r) - 2, len(r) + 3)))
  if k == "clear" and rng.random() < 0.6: k = "append"
  v = payload(rng, big) if k in ("append", "set") else None
  w = None if v is None else bytes(v.serialize())
  def setr(): r[i] = w
  def setb(): b[i] = v
  def delr(): del r[i]
  def delb(): del b[i]
  if k == "append": got, want = outcome(lambda: b.append(v)), outcome(lambda: r.append(w))
  elif k == "popleft": got, want = outcome(b.popleft), outcome(lambda: r.pop(0))
  elif k == "pop": got, want = outcome(b.pop), outcome(r.pop)
  elif k == "popi": got, want = outcome(lambda: b.pop(i)), outcome(lambda: r.pop(i))
  elif k == "get": got, want = outcome(lambda: b[i]), outcome(lambda: r[i])
  elif k == "set": got, want = outcome(setb), outcome(setr)
  elif k == "del": got, want = outcome(delb), outcome(delr)
  elif k == "len": got, want = outcome(lambda: len(b)), outcome(lambda: len(r))
  elif k == "clear": got, want = outcome(b.clear), outcome(r.clear)
  elif k == "all": got, want = outcome(lambda: [bytes(x.serialize()) for x in b]), outcome(lambda: list(r))
  elif k == "iter":
    if len(p.iters) < 3: p.iters.append((iter(b), iter(r)))
    return
  elif k == "iter-step":
    if not p.iters: return
    ib, ir = rng.choice(p.iters)
    got, want = outcome(lambda: next(ib)), outcome(lambda: next(ir))
    if want[0] == "error": p.iters.remove((ib, ir))
  ctx.op(p.n, k, i, w if w is None or len(w) < 60 else len(w))
  ctx.count(k)
  ctx.sigadd(p.n, k, want[0], len(r))
  ctx.check(show(got) == want, "result-differs", lambda: f"buffer {p.n} {k} {i}: got {str(show(got))[:200]} want {str(want)[:200]}")
  ctx.check(len(b) == len(r), "length-differs", lambda: (k, i, len(b), len(r)))

def history(ctx, ops, big):
  rng = ctx.rng
  old = tempfile.tempdir
  tempfile.tempdir = d = ctx.tmpdir()
  try:
    ps = [Pair(ctx, 0)]
    n = 1
    for _ in range(ops):
      x = rng.random()
      if x < 0.02 and len(ps) < 4: ps.append(Pair(ctx, n)); n += 1
      elif x < 0.03 and len(ps) > 1:
        q = ps.pop(rng.randrange(len(ps)))
        q.iters.clear(); q.buf = None; del q
        gc.collect()
        ctx.count("dropped")
      else: step(ctx, rng.choice(ps), big)
    for p in ps:
      p.iters.clear()
      ctx.check([bytes(x.serialize()) for x in p.buf] == p.ref, "content-differs", lambda: p.n)
    ctx.nontrivial = True
    ctx.summary = dict(history=[repr(x) for x in ctx.log[:60]], buffers=n)
    for p in ps: p.buf = None
    ps.clear()
    del p
    gc.collect()
    left = [os.path.join(a, f) for a, _, fs in os.walk(d) for f in fs]
    ctx.check(not left, "files-left", lambda: left[:5])
  finally: tempfile.tempdir = old

@family("ops", quick=2500, thorough=80000, loop="sync")
def ops(ctx): history(ctx, ctx.rng.randint(10, 150), False)

@family("large", quick=80, thorough=3000, loop="sync")
def large(ctx): history(ctx, ctx.rng.randint(10, 120), True)

@family("long", quick=24, thorough=800, loop="sync")
def long(ctx): history(ctx, 2500, False)
