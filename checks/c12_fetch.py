"""C12: every fetch gets its own answer; the server survives every request."""
import asyncio
from pydantic import BaseModel
from streamtasks.client.fetch import (FetchError, FetchErrorStatusCode, FetchServer, new_fetch_body_bad_request, new_fetch_body_general_error,
  new_fetch_body_not_found)
from streamtasks.client.signal import SignalServer, send_signal
from streamtasks.services.constants import NetworkPorts
from vlib.core import family
from vlib.net import *
from vlib import values

class Body(BaseModel):
  tag: int
  mode: str

class Inner(BaseModel):
  number: int

class Boom(BaseException): pass

EXCS = (lambda t: ValueError(f"v{t}"), lambda t: KeyError(f"k{t}"), lambda t: RuntimeError(f"r{t}"), lambda t: FetchError(("not_found", f"f{t}")),
        lambda t: StopIteration(f"s{t}"), lambda t: AssertionError(f"a{t}"), lambda t: TimeoutError(f"t{t}"), lambda t: StopAsyncIteration(f"sa{t}"),
        lambda t: Boom(f"b{t}"), lambda t: EOFError(f"e{t}"))
MODES = ("value", "value", "value", "error", "std_error", "raise", "validation", "body_validation", "none", "late", "raise_after", "invalid_after", "twice", "error_twice",
         "value_then_error", "slow", "inner_cancel", "nested", "error_odd", "none_value")
STD = ((new_fetch_body_bad_request, FetchErrorStatusCode.BAD_REQUEST), (new_fetch_body_not_found, FetchErrorStatusCode.NOT_FOUND), (new_fetch_body_general_error, FetchErrorStatusCode.GENERAL))

class Server:
  """One real FetchServer + SignalServer; `plan[tag]` says what the handler does with the request of that tag."""
  def __init__(self, ctx, c, port, sport, other=None):
    self.ctx, self.c, self.port, self.plan, self.calls, self.signals = ctx, c, port, {}, [], []
    self.server = FetchServer(c.client, port)
    self.sig = SignalServer(c.client, sport)
    self.busy = 0
    self.late = []
    self.nested = None
    for r in ("a", "b"): self.server.add_route(r, self.handler(r))
    self.sig.add_route("s", self.on_signal)
  def handler(self, route):
    async def run(req):
      if isinstance(req.body, dict) and req.body.get("mode") == "body_validation": self.calls.append((route, req.body["ptag"]))
      b = Body.model_validate(req.body)
      tag = b.tag
      self.calls.append((route, tag))
      mode, v, exc = self.plan[tag]
      if mode == "value": await req.respond(v)
      elif mode == "none_value": await req.respond(None)
      elif mode in ("error", "error_odd", "std_error"): await req.respond_error(v)
      elif mode == "raise":
        if self.ctx.rng.random() < 0.5: await asyncio.sleep(0)
        raise exc(tag)
      elif mode == "validation": Inner.model_validate({"number": f"x{tag}"})
      elif mode == "none": pass
      elif mode == "late": self.late.append(asyncio.create_task(self.respond_late(req, v)))
      elif mode == "raise_after": await req.respond(v); raise exc(tag)
      elif mode == "invalid_after": await req.respond(v); Inner.model_validate({})
      elif mode == "twice": await req.respond(v); await req.respond("second")
      elif mode == "error_twice": await req.respond_error(v); await req.respond("second")
      elif mode == "value_then_error": await req.respond(v); await req.respond_error("second")
      elif mode == "slow": await asyncio.sleep(self.ctx.rng.random() * 0.3); await req.respond(v)
      elif mode == "inner_cancel":
        t = asyncio.create_task(asyncio.sleep(10)); t.cancel()
        await t
      elif mode == "nested":
        r = await self.c.client.fetch(self.nested, "a", {"tag": v, "mode": "value"})
        await req.respond(r)
    return run
  async def respond_late(self, req, v):
    await asyncio.sleep(self.ctx.rng.choice((0, 0.001, 0.1, 1)))
    await req.respond(v)
  async def on_signal(self, body):
    self.signals.append(body)
    k = body["k"]
    if k == 1: raise ValueError("signal")
    if k == 2: Inner.model_validate({})
    if k == 3: raise Boom()
    if k == 4:
      t = asyncio.create_task(asyncio.sleep(10)); t.cancel()
      await t
    if k == 5: await asyncio.sleep(0.01)
    if k == 6: raise FetchError("x")

async def scenario(ctx, kinds, n_switch, n_callers, rounds):
  rng = ctx.rng
  net = Net(ctx, kinds)
  await net.tree(n_switch)
  servers = []
  for i in range(rng.choice((1, 2, 2))):
    c = await net.add_client(address=100 + i)
    s = Server(ctx, c, NetworkPorts.FETCH if rng.random() < 0.6 else 500 + i, NetworkPorts.SIGNAL if rng.random() < 0.6 else 700 + i)
    s.sport = s.sig._port
    servers.append(s)
  if len(servers) == 2:
    servers[0].nested = (101, servers[1].port)
  tasks = [t for s in servers for t in (asyncio.create_task(s.server.run()), asyncio.create_task(s.sig.run()))]
  callers = [await net.add_client(address=200 + i) for i in range(n_callers)]
  await settle()
  tagc = 0
  expect_calls = {id(s): [] for s in servers}
  sent_signals = {(id(s), c.id): [] for s in servers for c in callers}
  def describe(e):
    return "FetchError" if isinstance(e, FetchError) else repr(e)
  async def one(c, s, cancel):
    nonlocal tagc
    tagc += 1
    tag, route, mode = tagc, rng.choice("ab"), rng.choice(MODES)
    if mode == "nested" and (s.nested is None): mode = "value"
    v, exc, k = values.plain(values.top(rng)), rng.choice(EXCS), rng.randrange(3)
    if mode == "error_odd": v = rng.choice((None, "text", 5, [], {}, ["x"], {"a": 1}, ["bad_request"], [[1]], [{"a": 1}]))
    if mode == "std_error": v = STD[k][0](f"m{tag}")
    if mode == "nested":
      tagc += 1; v = tagc
      nv, nm = values.plain(values.top(rng)), rng.choice(("value", "error", "raise", "none"))
      servers[1].plan[v] = (nm, nv, exc)
      expect_calls[id(servers[1])].append(("a", v))
    s.plan[tag] = (mode, v, exc)
    body = {"tag": tag, "mode": mode}
    if mode == "body_validation": body = {"tag": f"nope{tag}", "mode": mode, "ptag": tag}
    expect_calls[id(s)].append((route, tag))
    ep = s.c.address if s.port == NetworkPorts.FETCH and rng.random() < 0.5 else (s.c.address, s.port)
    ctx.op("fetch", tag, c.id, s.c.id, route, mode)
    ctx.count("mode:" + mode)
    try:
      if cancel is not None:
        r = await asyncio.wait_for(c.client.fetch(ep, route, body), cancel)
      else:
        r = await asyncio.wait_for(c.client.fetch(ep, route, body), 400)
      kind, val = "value", r
    except asyncio.TimeoutError:
      ctx.check(cancel is not None, "fetch-not-answered", lambda: (tag, mode, [str(x) for x in ctx.loop_errors[-2:]], [t.done() and t for t in tasks]))
      ctx.count("cancelled"); return
    except FetchError as e: kind, val, err = "error", e.body, e
    ctx.count("answers"); ctx.sigadd(tag, c.id, mode, kind)
    lst = lambda x: list(x) if isinstance(x, (tuple, list)) else x
    want_kind, want = "value", v
    gen = lambda text: ["general", text]
    if mode in ("none", "late", "none_value"): want = None
    elif mode in ("error", "error_twice", "error_odd", "std_error"): want_kind = "error"
    elif mode == "raise": want_kind, want = "error", gen(str(exc(tag)))
    elif mode in ("validation", "body_validation"): want_kind, want = "error", "bad"
    elif mode == "inner_cancel": want_kind, want = "error", "general"
    elif mode == "nested":
      if nm == "value": want = nv
      elif nm == "none": want = None
      else: want_kind, want = "error", "general"
    ctx.check(kind == want_kind, "wrong-outcome", lambda: (tag, mode, kind, val, want_kind, want))
    if want in ("bad", "general") and want_kind == "error" and mode in ("validation", "body_validation", "inner_cancel", "nested"):
      ctx.check(isinstance(val, (list, tuple)) and len(val) == 2 and isinstance(val[1], str) and val[0] == {"bad": "bad_request", "general": "general"}[want], "wrong-error", lambda: (tag, mode, val))
      ctx.check(err.status_code == (FetchErrorStatusCode.BAD_REQUEST if want == "bad" else FetchErrorStatusCode.GENERAL), "wrong-status", lambda: (tag, mode, val))
    elif mode == "raise" and isinstance(exc(tag), StopIteration):  # python replaces it
      ctx.check(list(val)[0] == "general", "wrong-error", lambda: (tag, mode, val))
    else:
      ctx.check(values.canon(val) == values.canon(want), "wrong-answer", lambda: (tag, mode, val, want))
    if mode == "std_error":
      ctx.check(err.status_code == STD[k][1], "wrong-status", lambda: (val, err.status_code))
      str(err); repr(err)
    elif kind == "error":
      # whatever an error carries, inspecting it works
      try: st = err.status_code
      except Exception as e: ctx.fail("error-not-inspectable", (val, repr(e)))
      str(err); repr(err)
      if not (isinstance(val, (list, tuple)) and len(val) > 0 and val[0] in ("bad_request", "not_found", "general")):
        ctx.check(st is None, "wrong-status", lambda: (val, st))
  pending = []
  seq = 0
  for _ in range(rounds):
    c, s, r = rng.choice(callers), rng.choice(servers), rng.random()
    if r < 0.55:
      for _ in range(rng.choice((1, 1, 2, 5))):
        pending.append(asyncio.create_task(one(rng.choice(callers), rng.choice(servers), rng.choice((None, None, None, None, 0.001, 0.05)))))
    elif r < 0.7:
      for _ in range(rng.choice((1, 3))):
        seq += 1
        body = {"n": seq, "k": rng.randrange(8), "v": rng.randrange(100)}
        sent_signals[id(s), c.id].append((body["n"], body["k"]))
        await send_signal(c.client, s.c.address if s.sport == NetworkPorts.SIGNAL else (s.c.address, s.sport), "s", dict(body, c=c.id))
        ctx.count("signals")
    elif r < 0.85:
      bad = rng.choice((None, 5, "x", [], {}, {"return_address": 1}, {"descriptor": "a"}, {"return_address": "x", "return_port": "y", "descriptor": "a", "body": 1},
        {"return_address": 200, "return_port": 1, "descriptor": "unknown", "body": 1}, {"descriptor": "unknown", "body": 3}, {"descriptor": 5, "body": 3},
        {"return_address": 987654, "return_port": 1, "descriptor": "a", "body": None}, {"return_address": -5, "return_port": 1, "descriptor": "a", "body": None},
        {"body": 3, "error": True}, values.plain(values.top(rng))))
      if bad is None: bad = False
      port = rng.choice((s.port, s.sport, s.port, 1 << 32, 12, 100, 4096))
      await c.client.send_to((rng.choice((s.c.address, c.address, 200)), port), RawData(bad))
      ctx.count("malformed")
    elif r < 0.9: await asyncio.gather(*pending); pending.clear()
    else: await asyncio.sleep(rng.choice((0, 0.001, 0.1)))
  res = await asyncio.gather(*pending, return_exceptions=True)
  for x in res:
    if isinstance(x, BaseException): raise x
  await settle(20)
  ctx.check(not any(t.done() for t in tasks), "server-ended", lambda: [repr(t) for t in tasks])
  for s in servers:
    got, want = sorted(s.calls), sorted(expect_calls[id(s)])
    ctx.check(set(got) <= set(want) and len(set(got)) == len(got), "handler-called-wrongly", lambda: [x for x in got if got.count(x) > 1 or x not in want])
    missing = set(want) - set(got)
    ctx.check(not missing, "request-not-handled", lambda: missing)
    for c in callers:
      g = [(b["n"], b["k"]) for b in s.signals if b["c"] == c.id]
      ctx.check(g == sent_signals[id(s), c.id], "signals-differ", lambda: (g, sent_signals[id(s), c.id]))
  # the servers still answer
  for s in servers:
    for c in callers[:1]:
      tagc += 1
      s.plan[tagc] = ("value", ["alive", tagc], None)
      r = await asyncio.wait_for(c.client.fetch((s.c.address, s.port), "a", {"tag": tagc, "mode": "value"}), 60)
      ctx.eq(list(r), ["alive", tagc], "server-dead")
  ctx.nontrivial = ctx.counters.get("answers", 0) > 3
  ctx.summary = dict(answers=ctx.counters.get("answers"), first=[x[1:] for x in ctx.log[-8:]])
  for t in tasks: t.cancel()

@family("tree", quick=300, thorough=20000)
async def tree(ctx):
  rng = ctx.rng
  await scenario(ctx, KINDS if rng.random() < 0.8 else YIELD, rng.randint(1, 4), rng.randint(1, 4), rng.randint(8, 40))

@family("bodies", quick=150, thorough=4000)
async def bodies(ctx):
  """Whatever the body of a request is (nothing, zero, an empty list, ...), it arrives as sent and is answered like any other."""
  rng = ctx.rng
  net = Net(ctx, KINDS[:6])
  await net.tree(rng.randint(1, 3))
  s = await net.add_client(address=100)
  server = FetchServer(s.client)
  seen = []
  @server.route("echo")
  async def _(req):
    seen.append(req.body)
    await req.respond(req.body)
  @server.route("silent")
  async def _(req): seen.append(req.body)
  @server.route("fails")
  async def _(req):
    seen.append(req.body)
    raise RuntimeError("x")
  @server.route("refuses")
  async def _(req):
    seen.append(req.body)
    await req.respond_error(req.body)
  task = asyncio.create_task(server.run())
  callers = [await net.add_client(address=200 + i) for i in range(rng.randint(1, 3))]
  await settle()
  plain = lambda x: list(x) if isinstance(x, tuple) else x
  same = lambda a, b: values.canon(plain(a)) == values.canon(plain(b))
  for _ in range(rng.randint(3, 10)):
    body = rng.choice((None, None, 0, False, "", b"", [], {}, 0.0, 5, "text", [None], {"a": None}, values.plain(values.top(rng))))
    route, n = rng.choice(("echo", "silent", "fails", "refuses")), len(seen)
    ctx.op(route, body)
    c = rng.choice(callers)
    try: kind, r = "value", await asyncio.wait_for(c.client.fetch(100, route, body), 100)
    except asyncio.TimeoutError: ctx.fail("fetch-not-answered", lambda: (route, body))
    except FetchError as e: kind, r = "error", e
    ctx.check(kind == ("value" if route in ("echo", "silent") else "error"), "wrong-answer", lambda: (route, body, kind, r))
    if route == "echo": ctx.check(same(r, body), "wrong-answer", lambda: (route, body, r))
    elif route == "silent": ctx.check(r is None, "wrong-answer", lambda: (route, body, r))
    elif route == "fails": ctx.check(r.status_code == FetchErrorStatusCode.GENERAL, "wrong-answer", lambda: (route, body, r.body))
    else: ctx.check(same(r.body, body), "wrong-answer", lambda: (route, body, r.body))
    ctx.check(len(seen) == n + 1 and same(seen[-1], body), "wrong-body", lambda: (route, body, seen[n:]))
    ctx.count("bodies"); ctx.sigadd(route, repr(body)[:40])
  ctx.check(not task.done(), "server-died", lambda: repr(task))
  task.cancel()
  await asyncio.wait([task], timeout=100)
  ctx.nontrivial = True
  ctx.summary = [repr(x) for x in ctx.log]
