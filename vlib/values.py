"""Random msgpack-representable values, type-exact comparison."""
import math, struct
import msgpack

def text(rng, n=12):
  k = rng.randrange(5)
  if k == 0: return ""
  if k == 1: return "".join(rng.choice("abcxyz019_-./ ") for _ in range(rng.randrange(n)))
  if k == 2: return "".join(chr(rng.choice((0, 9, 10, 0x7f, 0x80, 0xff, 0x100, 0x7ff, 0x800, 0xffff, 0x10000, 0x10ffff, 0x1f600))) for _ in range(rng.randrange(6)))
  if k == 3: return rng.choice(("timestamp", "value", "data", "_id", "id", "true", "null", "ä", "x" * 31, "x" * 32, "x" * 255, "x" * 256))
  return "k%d" % rng.randrange(10)

INTS = (0, 1, -1, 31, 32, 127, 128, -32, -33, -128, -129, 255, 256, 32767, 32768, 65535, 65536, 2**31 - 1, 2**31, 2**32 - 1, 2**32, 2**63 - 1, -2**63, 2**64 - 1, -2**31 - 1)
FLOATS = (0.0, -0.0, 1.5, -1e300, 5e-324, math.inf, -math.inf, math.nan, 0.1, 2.0**53)

def scalar(rng):
  k = rng.randrange(9)
  if k == 0: return None
  if k == 1: return rng.random() < 0.5
  if k == 2: return rng.choice(INTS)
  if k == 3: return rng.randrange(-10**6, 10**12)
  if k == 4: return rng.choice(FLOATS)
  if k == 5: return rng.uniform(-1e6, 1e6)
  if k == 6: return rng.randbytes(rng.choice((0, 1, 3, 31, 32, 255, 256, 700)))
  if k == 7: return text(rng)
  return rng.choice((msgpack.ExtType(rng.randrange(0, 100), rng.randbytes(rng.randrange(5))), msgpack.Timestamp(rng.randrange(2**33), rng.randrange(10**9))))

def key(rng):
  return rng.choice((lambda: text(rng), lambda: text(rng), lambda: rng.choice(INTS), lambda: rng.randbytes(3)))()

def value(rng, depth=3, int_keys=True):
  k = rng.random()
  if depth <= 0 or k < 0.35: return scalar(rng)
  n = rng.choice((0, 1, 2, 3, 5, 16) if depth < 3 else (0, 1, 2, 4))
  if k < 0.65: return [value(rng, depth - 1, int_keys) for _ in range(n)]
  return {(key(rng) if int_keys else text(rng)): value(rng, depth - 1, int_keys) for _ in range(n)}

def top(rng, depth=3, int_keys=True):
  """A value that is allowed as a payload (not None, not bytes at top level)."""
  while True:
    v = value(rng, depth, int_keys)
    if v is not None and not isinstance(v, bytes): return v

def canon(v):
  """A hashable form under which two values are equal iff they are the same value of the same type."""
  if isinstance(v, bool) or v is None: return (type(v).__name__, v)
  if isinstance(v, msgpack.ExtType): return ("ext", v.code, bytes(v.data))
  if isinstance(v, msgpack.Timestamp): return ("ts", v.seconds, v.nanoseconds)
  if isinstance(v, float): return ("float", struct.pack(">d", v))
  if isinstance(v, int): return ("int", v)
  if isinstance(v, str): return ("str", v)
  if isinstance(v, (bytes, bytearray, memoryview)): return ("bytes", bytes(v))
  if isinstance(v, (list, tuple)): return ("list", tuple(canon(x) for x in v))
  if isinstance(v, dict): return ("dict", frozenset((canon(k), canon(x)) for k, x in v.items()))
  return ("other", type(v).__name__, repr(v))

def plain(v):
  """Without msgpack extension types."""
  if isinstance(v, (msgpack.ExtType, msgpack.Timestamp)): return 7
  if isinstance(v, list): return [plain(x) for x in v]
  if isinstance(v, dict): return {k: plain(x) for k, x in v.items()}
  return v
