"""C08: messages and payloads survive serialization unchanged."""
import asyncio, copy
import msgpack, msgpack.fallback
from streamtasks.net import create_queue_connection
from streamtasks.net.messages import *
from streamtasks.net.serialization import RawData, deserialize_message, serialize_message, to_raw_data
from vlib.core import family
from vlib.values import *

def rid(rng): return rng.choice((0, 1, 2, 100, 10000, 100000, 2**31, 2**32, 2**48, 2**63, 2**64 - 1, rng.randrange(2**20)))
def ids(rng): return set(rid(rng) for _ in range(rng.choice((0, 0, 1, 2, 5, 20))))
def priced(rng): return {PricedId(i, rng.choice((0, 1, 2, 7, 2**16, 2**32 - 1, 2**33))) for i in ids(rng)}

def message(rng):
  k = rng.randrange(6)
  if k == 0: return TopicDataMessage(rid(rng), RawData(top(rng)))
  if k == 1: return TopicControlMessage(rid(rng), rng.random() < 0.5)
  if k == 2: return AddressedMessage(rid(rng), rid(rng), RawData(top(rng)))
  if k == 3: return AddressesChangedMessage(priced(rng), ids(rng))
  if k == 4: return InTopicsChangedMessage(ids(rng), ids(rng))
  return OutTopicsChangedMessage(priced(rng), ids(rng))

def view(m):
  """What a message says, by type and field."""
  out = [type(m).__name__]
  for f in sorted(m.__dataclass_fields__):
    v = getattr(m, f)
    if isinstance(v, RawData): out.append((f, canon(v.data)))
    elif isinstance(v, (set, frozenset)): out.append((f, "set", frozenset(("p", x.id, x.cost) if isinstance(x, PricedId) else canon(x) for x in v)))
    else: out.append((f, canon(v)))
  return tuple(out)

@family("messages", quick=4000, thorough=120000, loop="sync")
def messages(ctx):
  rng = ctx.rng
  m = message(rng)
  before = view(m)
  raw = serialize_message(m)
  ctx.check(isinstance(raw, (bytes, bytearray, memoryview)), "not-bytes", type(raw))
  ctx.eq(view(m), before, "message-changed-by-serialize")
  form = rng.choice((bytes, bytearray, memoryview))(bytes(raw))
  m2 = deserialize_message(form)
  ctx.check(type(m2) is type(m), "type", lambda: f"{m!r:.300} -> {type(m2)}")
  ctx.eq(view(m2), before, "round-trip", type(m).__name__)
  if not isinstance(m, DataMessage): ctx.check(m == m2 and hash_ok(m, m2), "not-equal", lambda: f"{m} {m2}")
  ctx.eq(view(deserialize_message(serialize_message(m2))), before, "second-round-trip")
  ctx.count("msg:" + type(m).__name__)
  ctx.sigadd(before); ctx.nontrivial = True
  ctx.summary = dict(message=repr(m)[:300], bytes=len(raw))

def hash_ok(a, b):
  """Equal priced ids hash equally, so sets of them compare by content."""
  for f in a.__dataclass_fields__:
    v, w = getattr(a, f), getattr(b, f)
    if isinstance(v, set) and not (v == w and len(v) == len(w) and all(x in w for x in v)): return False
  return True

class Obj:
  def __init__(self, raw, model, shared): self.raw, self.model, self.shared = raw, model, shared

def mutate(rng, v, top_only):
  """In-place change of a container; returns False if there is nothing to change."""
  if not isinstance(v, (dict, list)): return False
  if not top_only:
    inner = [x for x in (v.values() if isinstance(v, dict) else v) if isinstance(x, (dict, list))]
    if inner and rng.random() < 0.6: return mutate(rng, inner[rng.randrange(len(inner))], False)
  if isinstance(v, dict):
    if v and rng.random() < 0.3: del v[sorted(v, key=repr)[rng.randrange(len(v))]]
    else: v["m%d" % rng.randrange(5)] = rng.randrange(10**6)
  else:
    if v and rng.random() < 0.3: v.pop(rng.randrange(len(v)))
    else: v.append(rng.randrange(10**6))
  return True

@family("payloads", quick=3000, thorough=80000, loop="sync")
def payloads(ctx):
  rng = ctx.rng
  objs = []
  def check(o, what):
    ctx.eq(canon(o.raw.data), canon(o.model), "data", what)
    ctx.count("reads")
  def ser(o, what):
    b = bytes(o.raw.serialize())
    ctx.eq(canon(msgpack.fallback.unpackb(b, strict_map_key=False)), canon(o.model), "serialized", what)
    ctx.count("serialized")
    return b
  for _ in range(rng.randint(6, 30)):
    k = rng.randrange(9)
    if not objs or k == 0:
      v = top(rng)
      objs.append(Obj(RawData(v), copy.deepcopy(v), False)); ctx.op("new", repr(v)[:200]); continue
    o = rng.choice(objs)
    i = objs.index(o)
    if k == 1: ctx.op("data", i); check(o, f"data of {i}")
    elif k == 2: ctx.op("serialize", i); ser(o, f"serialize {i}")
    elif k == 3:   # in-place update, then marked as updated
      d = o.raw.data
      st = rng.getstate()
      if mutate(rng, d, o.shared):
        rng.setstate(st); mutate(rng, o.model, o.shared)
        o.raw.update(); ctx.op("update", i); ctx.count("updates")
        if rng.random() < 0.5: ser(o, f"serialize after update {i}")
    elif k == 4:
      objs.append(Obj(o.raw.copy(), copy.deepcopy(o.model), False)); ctx.op("copy", i); ctx.count("copies")
    elif k == 5 and isinstance(o.model, dict):
      objs.append(Obj(o.raw.shallow_copy(), copy.deepcopy(o.model), True)); o.shared = True; ctx.op("shallow", i); ctx.count("shallow_copies")
    elif k == 6:
      b = ser(o, f"serialize {i}")
      objs.append(Obj(RawData(rng.choice((bytes, bytearray, memoryview))(b)), copy.deepcopy(o.model), False)); ctx.op("from bytes", i); ctx.count("from_bytes")
    elif k == 7:
      if rng.random() < 0.5: o.raw.update(); ctx.op("spurious update", i)
      else: ctx.check(to_raw_data(o.raw) is o.raw, "to_raw_data"); ctx.eq(canon(to_raw_data(o.model).data), canon(o.model), "to_raw_data")
    else:
      m = rng.choice((TopicDataMessage(5, o.raw), AddressedMessage(5, 6, o.raw)))
      m2 = deserialize_message(serialize_message(m))
      objs.append(Obj(m2.data, copy.deepcopy(o.model), False)); ctx.op("message", i); ctx.count("through_message")
    if len(objs) > 8: objs.pop(0)
  for i, o in enumerate(objs): check(o, f"final data of {i}"); ser(o, f"final serialize {i}"); check(o, f"final data of {i}")
  ctx.sigadd(tuple(map(repr, ctx.log))); ctx.nontrivial = len(objs) > 1
  ctx.summary = dict(ops=[repr(x) for x in ctx.log])

@family("links", quick=400, thorough=8000)
async def links(ctx):
  """Messages arrive equal over serialized and plain queue links."""
  rng = ctx.rng
  a, b = create_queue_connection(rng.random() < 0.7)
  for _ in range(rng.randint(1, 12)):
    m = rng.choice((lambda: TopicDataMessage(rid(rng), RawData(top(rng))), lambda: TopicControlMessage(rid(rng), rng.random() < 0.5), lambda: AddressedMessage(rid(rng), rid(rng), RawData(top(rng)))))()
    want = view(m)
    x, y = (a, b) if rng.random() < 0.5 else (b, a)
    await x.send(m)
    got = await asyncio.wait_for(y.recv(), 1)
    ctx.eq(view(got), want, "link")
    ctx.count("over_link"); ctx.sigadd(want)
  ctx.nontrivial = True
  ctx.summary = dict(messages=len(ctx.sig))
