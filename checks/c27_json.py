"""C27: converting any message value to JSON never fails and keeps the value."""
import asyncio, json, math, os
from collections import deque
import msgpack, numpy as np
from pydantic import BaseModel
from streamtasks.net.serialization import RawData
from streamtasks.utils import make_json_serializable
from vlib.core import family
from vlib.values import FLOATS, INTS, text, value

class Point(BaseModel):
  x: int = 1
  label: str = "p"

def faithful(v):
  """The plain JSON values, whose conversion is fully determined."""
  if v is None or isinstance(v, (bool, int, str)): return True
  if isinstance(v, float): return math.isfinite(v)
  if isinstance(v, (list, tuple)): return all(faithful(x) for x in v)
  if isinstance(v, dict): return all(isinstance(k, str) and faithful(x) for k, x in v.items())
  return False

def same(a, b):
  """Equal as JSON, numbers with their type."""
  if isinstance(a, (list, tuple)): return isinstance(b, (list, tuple)) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
  if isinstance(a, dict): return isinstance(b, dict) and a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
  if isinstance(a, float) and isinstance(b, float): return a == b and math.copysign(1, a) == math.copysign(1, b)
  return type(a) is type(b) and a == b

def shape(ctx, v, j, path=()):
  """j is what v became: every part keeps its value and place."""
  c = lambda ok, mech: ctx.check(ok, mech, lambda: f"at {path}: {v!r} became {j!r}")
  if v is None or isinstance(v, (bool, int, str)): c(same(v, j), "value-changed")
  elif isinstance(v, float):
    if math.isfinite(v): c(same(v, j), "value-changed")
    else: c(isinstance(j, str), "not-text")
  elif isinstance(v, (bytes, bytearray, memoryview)): c(j == bytes(v).hex(), "bytes-not-hex")
  elif isinstance(v, (msgpack.ExtType, msgpack.Timestamp)): c(j is not None, "nothing-shown")
  elif isinstance(v, (list, tuple)):
    c(isinstance(j, list) and len(j) == len(v), "list-changed")
    for i, x in enumerate(v): shape(ctx, x, j[i], path + (i,))
  elif isinstance(v, dict):
    c(isinstance(j, dict), "mapping-changed")
    strs = {k for k in v if isinstance(k, str)}
    if len(strs) == len(v): c(j.keys() == v.keys(), "mapping-changed")
    for k in strs:
      c(k in j, "key-lost")
      if sum(1 for o in v if o is not k and not isinstance(o, str)) == 0: shape(ctx, v[k], j[k], path + (k,))
  ctx.count("parts")

def judge(ctx, v):
  try: j = make_json_serializable(v)
  except Exception as e: ctx.fail("conversion-fails", f"{v!r:.300}: {e!r}")
  try: s = json.dumps(j, allow_nan=False)
  except Exception as e: ctx.fail("not-encodable", f"{v!r:.300} became {j!r:.300}: {e!r}")
  if faithful(v): ctx.check(same(json.loads(s), json.loads(json.dumps(v))), "value-changed", lambda: f"{v!r:.300} became {s:.300}"); ctx.count("faithful")
  shape(ctx, v, j)
  ctx.count("values")
  return j

def jvalue(rng, depth):
  k = rng.random()
  if depth <= 0 or k < 0.4: return rng.choice((None, True, False, rng.choice(INTS), rng.choice([f for f in FLOATS if math.isfinite(f)]), text(rng), rng.uniform(-5, 5)))
  if k < 0.55: return [[text(rng) if rng.random() < 0.7 else rng.randrange(5), jvalue(rng, depth - 2)] for _ in range(rng.randrange(4))]     # pairs
  if k < 0.65: return ["".join(rng.choice("ab") for _ in range(2)) for _ in range(rng.randrange(4))]                                       # two-letter texts
  if k < 0.8: return [jvalue(rng, depth - 1) for _ in range(rng.randrange(4))]
  return {text(rng): jvalue(rng, depth - 1) for _ in range(rng.randrange(4))}

@family("messages", quick=3000, thorough=120000, loop="sync")
def messages(ctx):
  """What arrives in a message: everything the wire format can carry."""
  rng = ctx.rng
  for _ in range(4):
    v = value(rng, rng.choice((1, 3, 4))) if rng.random() < 0.6 else jvalue(rng, 4)
    if rng.random() < 0.7 and v is not None and not isinstance(v, bytes):
      try: v = RawData(bytes(RawData(v).serialize())).data
      except Exception: ctx.count("not-sendable")
    ctx.sigadd(repr(v)[:60])
    judge(ctx, v)
  ctx.nontrivial = True
  ctx.summary = dict(last=repr(v)[:300])

@family("special", quick=300, thorough=5000, loop="sync")
def special(ctx):
  """Keys of every type, extension types, deep nesting, and objects that are not message values."""
  rng = ctx.rng
  keys = (None, True, 1, 1.5, math.nan, math.inf, b"\x01", "a", msgpack.ExtType(1, b"x"), msgpack.Timestamp(1, 2), (1, 2), (1, (2, b"")))
  v = {rng.choice(keys): value(rng, 2) for _ in range(rng.randint(1, 5))}
  judge(ctx, v)
  n = rng.choice((5, 50, 200, 400))
  v = rng.choice((0, [], {}, "x"))
  for _ in range(n): v = [v] if rng.random() < 0.5 else {"k": v}
  judge(ctx, v)
  others = (object(), Point(x=5), np.float32(1.5), np.int64(3), np.zeros((2, 2)), np.zeros(0), deque([1, 2]), range(3), {1, 2}, frozenset((1,)), (x for x in ()), 1j, lambda: 0, Exception("x"), asyncio.Queue, os, msgpack.ExtType(5, b"ab"), msgpack.Timestamp(5, 6), bytearray(b"a"), memoryview(b"ab"), (1, 2), ())
  for o in rng.sample(others, 5):
    j = judge(ctx, o if rng.random() < 0.5 else {"o": o, "l": [o]} if not hasattr(o, "__next__") else o)
  ctx.check(make_json_serializable(Point(x=3)) == {"x": 3, "label": "p"}, "model-changed", "")
  ctx.sigadd(n, repr(v)[:30], tuple(v) if isinstance(v, dict) else len(v) if hasattr(v, "__len__") else 0); ctx.nontrivial = True
