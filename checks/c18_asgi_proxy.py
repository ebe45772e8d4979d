"""C18: an application behind the network proxy behaves like the application called directly."""
import asyncio
from streamtasks.asgi import ASGIAppRunner, ASGIProxyApp
from streamtasks.client.fetch import FetchError, FetchServer
from streamtasks.services.constants import NetworkPorts
from vlib.core import family
from vlib.net import *
from vlib import values

def exact(v):
  """values.canon, but telling lists, tuples and sets apart"""
  if isinstance(v, tuple): return ("tuple", tuple(exact(x) for x in v))
  if isinstance(v, list): return ("list", tuple(exact(x) for x in v))
  if isinstance(v, (set, frozenset)): return ("set", frozenset(exact(x) for x in v))
  if isinstance(v, dict): return ("dict", tuple(sorted(((repr(exact(k)), exact(x)) for k, x in v.items()))))
  return values.canon(v)

def rich(rng, depth=2):
  k = rng.random()
  if depth <= 0 or k < 0.4: return values.plain(values.scalar(rng))
  n = rng.choice((0, 1, 2, 3))
  if k < 0.55: return [rich(rng, depth - 1) for _ in range(n)]
  if k < 0.7: return tuple(rich(rng, depth - 1) for _ in range(n))
  if k < 0.75: return {rng.choice((1, "a", b"x", True, 2.5, None)) for _ in range(n)}
  if k < 0.8: return rng.choice((["list", [1]], ["dict", {"a": 1}], ["none"], ["bytes", "00"], ["unknown"], ["int", 3], [], ["tuple"], {"list": []}, ["x", 1]))
  return {values.text(rng): rich(rng, depth - 1) for _ in range(n)}

def make_scope(rng, cid, typ):
  s = {"type": typ, "asgi": {"version": "3.0", "spec_version": rng.choice(("2.3", "2.4"))}, "http_version": "1.1", "path": "/" + values.text(rng), "raw_path": rng.randbytes(rng.randrange(6)),
       "query_string": rng.randbytes(rng.randrange(5)), "root_path": "", "scheme": "http" if typ == "http" else "ws",
       "headers": [(rng.randbytes(rng.randrange(1, 6)), rng.randbytes(rng.randrange(40))) for _ in range(rng.randrange(5))], "client": rng.choice((("1.2.3.4", 5000 + cid), None)), "server": ("h", 80),
       "x-id": cid, "x-rich": rich(rng)}
  if typ == "http": s["method"] = rng.choice(("GET", "POST"))
  else: s["subprotocols"] = rng.choice(([], ["a", "b"]))
  if rng.random() < 0.3: s["extensions"] = {"http.response.trailers": {}}
  if rng.random() < 0.3: s["headers"] = tuple([k, v] for k, v in s["headers"])
  return s

def data(rng): return rng.randbytes(rng.choice((0, 1, 5, 100, 5000)))

def client_events(rng, typ, n, tag):
  ev = [{"type": "websocket.connect"}] if typ == "websocket" else []
  for i in range(n):
    if typ == "http": ev.append({"type": "http.request", "body": data(rng), "more_body": i < n - 1, "tag": (tag, i)})
    else: ev.append({"type": "websocket.receive", "bytes": rng.choice((None, b"", data(rng))), "text": rng.choice((None, "", values.text(rng))), "tag": (tag, i), "extra": rich(rng)})
  return ev

def app_event(rng, typ, i, n, tag):
  if i == 0: return {"type": "http.response.start", "status": 200, "headers": [(b"a", data(rng))], "tag": [tag, 0]} if typ == "http" else {"type": "websocket.accept", "subprotocol": None, "headers": [], "tag": [tag, 0]}
  if typ == "http": return {"type": "http.response.body", "body": data(rng), "more_body": i < n, "tag": [tag, i]}
  return {"type": "websocket.send", "bytes": data(rng), "text": None, "tag": [tag, i], "extra": rich(rng)}

class Boom(BaseException): pass

def make_script(rng, typ, tag, n_in):
  """What the application does with a connection."""
  n_out = rng.choice((0, 1, 2, 3, 6))
  evs = [app_event(rng, typ, i, n_out - 1, tag) for i in range(n_out)]
  style = rng.choice(("seq", "seq", "echo", "duplex", "late_read", "burst", "gather"))
  ops = []
  if style == "seq":
    for _ in range(n_in):
      ops.append(("recv",))
      if evs and rng.random() < 0.5: ops.append(("send", evs.pop(0)))
      if rng.random() < 0.3: ops.append(("sleep", rng.choice((0, 0.001, 0.2))))
    ops += [("send", e) for e in evs]
  elif style == "echo": ops = [("echo", n_in)] + [("send", e) for e in evs]
  elif style == "duplex": ops = [("duplex", n_in, evs)]
  elif style == "late_read": ops = [("send", e) for e in evs] + [("sleep", rng.choice((0, 0.5)))] + [("recv",)] * n_in
  elif style == "burst": ops = [("send", e) for e in evs] + [("recv",)] * rng.randint(0, n_in)
  elif style == "gather": ops = [("gather", n_in)] + [("send", e) for e in evs]
  x = rng.random()
  if x < 0.12: ops = ops[:rng.randint(0, len(ops))] + [("raise", rng.choice((ValueError, KeyError, Boom, StopIteration)))]
  elif x < 0.2: ops = ops[:rng.randint(0, len(ops))]
  elif x < 0.25: ops = ops[:rng.randint(0, len(ops))] + [("inner_cancel",)]
  elif x < 0.55: ops.append(("until_disconnect", rng.choice((1, 1, 2))))
  return style, ops

async def run_script(ops, receive, send, got):
  async def recv():
    e = await receive()
    got.append(e)
    return e
  for op in ops:
    if op[0] == "recv": await recv()
    elif op[0] == "send": await send(op[1])
    elif op[0] == "sleep": await asyncio.sleep(op[1])
    elif op[0] == "raise": raise op[1]("app failed")
    elif op[0] == "echo":
      for _ in range(op[1]): await send({"type": "echo", "of": await recv()})
    elif op[0] == "gather": await asyncio.gather(*(recv() for _ in range(op[1])))
    elif op[0] == "duplex":
      async def out():
        for e in op[2]:
          await send(e); await asyncio.sleep(0.001)
      async def inp():
        for _ in range(op[1]): await recv()
      await asyncio.gather(out(), inp())
    elif op[0] == "inner_cancel":
      t = asyncio.create_task(asyncio.sleep(5)); t.cancel(); await t
    elif op[0] == "until_disconnect":
      n = 0
      while n < op[1]:
        e = await recv()
        if e["type"].endswith(".disconnect"): n += 1

class Driver:
  """The server side of one connection: feeds events, records what is sent."""
  def __init__(self, rng, events, end, delays):
    self.rng, self.events, self.end, self.delays, self.i, self.sent = rng, events, end, delays, 0, []
    self.sends = 0
  async def receive(self):
    i = self.i
    if i < len(self.events):
      self.i += 1
      d = self.delays[i]
      if d is not None: await asyncio.sleep(d)
      if self.end == ("receive_raises", i): raise OSError("client gone")
      return self.events[i]
    if self.end[0] == "disconnect":
      if i == len(self.events): self.i += 1; await asyncio.sleep(self.end[1])
      return self.end[2]
    if self.end[0] == "receive_raises": raise OSError("client gone")
    await asyncio.Event().wait()
  async def send(self, e):
    if self.end == ("send_raises", len(self.sent)): raise OSError("client gone")
    self.sent.append(e)
    d = self.rng.choice((None, None, 0, 0.002))
    if d is not None: await asyncio.sleep(d)

async def call(app, scope, drv, cancel_after, limit):
  """Returns (returned|raised|cancelled|hangs)."""
  t = asyncio.create_task(app(scope, drv.receive, drv.send))
  if cancel_after is not None:
    await asyncio.wait([t], timeout=cancel_after)
    if not t.done():
      t.cancel()
      await asyncio.wait([t], timeout=limit)
      return ("cancelled" if t.cancelled() else "raised" if t.done() and t.exception() else "returned" if t.done() else "hangs"), t
  else: await asyncio.wait([t], timeout=limit)
  if not t.done():
    t.cancel(); await asyncio.wait([t], timeout=10)
    return "hangs", t
  return ("cancelled" if t.cancelled() else "raised" if t.exception() else "returned"), t

def receivers(c): return len(c.client._receivers)

async def scenario(ctx, kinds):
  rng = ctx.rng
  net = Net(ctx, kinds)
  await net.tree(rng.randint(1, 3))
  hosts = [await net.add_client(address=200 + i) for i in range(rng.choice((1, 1, 2)))]
  users = [await net.add_client(address=300 + i) for i in range(rng.choice((1, 2)))]
  if rng.random() < 0.2: users.append(hosts[0])
  await settle(5)
  scripts, appgot, appstate, scopes = {}, {}, {}, {}
  async def app(scope, receive, send):
    cid = scope["x-id"]
    ctx.check(cid not in appstate, "app-started-twice", cid)
    scopes[cid], appgot[cid], appstate[cid] = scope, [], "running"
    try: await run_script(scripts[cid][1], receive, send, appgot[cid]); appstate[cid] = "returned"
    except asyncio.CancelledError: appstate[cid] = "cancelled"; raise
    except BaseException: appstate[cid] = "raised"; raise
  runners = []
  for h in hosts:
    port = rng.choice((NetworkPorts.ASGI, 7777))
    runners.append([h, port, asyncio.create_task(ASGIAppRunner(h.client, app, port).run())])
  # sometimes a relay: the application of the second runner is a proxy of the first
  relay = None
  if rng.random() < 0.25:
    m = await net.add_client(address=400)
    relay = [m, NetworkPorts.ASGI, asyncio.create_task(ASGIAppRunner(m.client, ASGIProxyApp(m.client, (hosts[0].address, runners[0][1]))).run())]
    runners.append(relay)
  await settle(3)
  everyone = {id(c): c for c in (*hosts, *users, *([relay[0]] if relay else []))}.values()
  base = {c.id: receivers(c) for c in everyone}
  async def connection(cid, u, r):
    typ = rng.choice(("http", "http", "websocket"))
    n_in = rng.choice((1, 1, 2, 3, 8))
    events = client_events(rng, typ, n_in, cid)
    style, ops = scripts[cid] = make_script(rng, typ, cid, len(events))
    end = rng.choice((("block",), ("block",), ("block",), ("disconnect", rng.choice((0, 0.01, 1, 5)), {"type": typ + ".disconnect", "code": 1005}),
                      ("cancel",), ("receive_raises", rng.randrange(n_in + 1)), ("send_raises", rng.randrange(3))))
    cancel_after = rng.choice((0, 0.001, 0.3, 3)) if end[0] == "cancel" else None
    delays = [rng.choice((None, None, 0, 0.001, 0.2)) for _ in events]
    scope = make_scope(rng, cid, typ)
    ctx.op("connection", cid, typ, "user", u.id, "runner", r[0].id, style, [o[0] for o in ops], end, cancel_after)
    ctx.count("end:" + end[0])
    # the application called directly
    ddrv, dgot = Driver(rng, events, end, delays), []
    async def direct(scope, receive, send): await run_script(ops, receive, send, dgot)
    dres, _ = await call(direct, scope, ddrv, cancel_after, 60)
    # and through the network
    drv = Driver(rng, events, end, delays)
    sc = exact(scope)
    proxy = ASGIProxyApp(u.client, r[0].address if r[1] == NetworkPorts.ASGI and rng.random() < 0.5 else (r[0].address, r[1]))
    pres, pt = await call(proxy, scope, drv, cancel_after, 200)
    ctx.count("connections"); ctx.count("kind:" + typ); ctx.sigadd(typ, style, len(ops), end[0], dres)
    await settle(8)
    ctx.check(exact(scope) == sc, "scope-changed")
    info = lambda: dict(cid=cid, style=style, ops=[o[0] for o in ops], end=end, direct=dres, proxied=pres, app=appstate.get(cid), got=appgot.get(cid), want=dgot, sent=drv.sent, want_sent=ddrv.sent)
    if cid not in appstate:
      ctx.check(end[0] == "cancel", "app-not-called", info); ctx.count("never_started"); return
    ctx.check(exact(scopes[cid]) == sc, "scope-differs", lambda: (scopes[cid], scope))
    got, want = [exact(e) for e in appgot[cid]], [exact(e) for e in dgot]
    sent, wsent = [exact(e) for e in drv.sent], [exact(e) for e in ddrv.sent]
    ctx.count("events_in", len(got)); ctx.count("events_out", len(sent))
    given = [exact(e) for e in events]
    if style == "gather": got_s = [e for e in got if e in given]
    else: got_s = got
    k = sum(1 for e in got_s if e in given)
    if style != "gather": ctx.check(got_s[:k] == given[:k], "request-events-differ", info)
    ctx.check(all(e["type"] == typ + ".disconnect" for e in appgot[cid] if exact(e) not in given), "invented-event", info)
    if end[0] == "block":
      if dres == "hangs":  # waits for events that never come
        ctx.check(pres == "hangs", "ended-early", info)
        ctx.check(sent == wsent, "response-events-differ", info)
        ctx.check(sorted(map(repr, [e for e in got if e in given])) == sorted(map(repr, want)), "request-events-differ", info); ctx.count("hung_then_cancelled")
      else:
        ctx.check(pres != "hangs", "call-not-ended", info)
        ctx.check(sorted(map(repr, got)) == sorted(map(repr, want)) and (style == "gather" or got == want), "request-events-differ", info)
        ctx.check(sent == wsent, "response-events-differ", info)
        ctx.check(appstate[cid] == dres or (dres == "hangs"), "app-ended-differently", info)
    else:
      ctx.check(pres != "hangs" or dres == "hangs", "call-not-ended", info)
      seq_sent = sent == wsent[:len(sent)] or wsent == sent[:len(wsent)]
      if style != "duplex": ctx.check(seq_sent or "echo" == style, "response-events-differ", info)
    # the application's side of a connection that is over: whoever reads until the disconnect has seen it
    if any(o[0] == "until_disconnect" for o in ops) and end[0] != "disconnect" and (drv.i > 0 or drv.sent):
      ctx.check(appstate[cid] != "running", "app-not-told", info); ctx.count("told_of_abnormal_end")
    if any(o[0] == "until_disconnect" for o in ops) and end[0] == "disconnect":
      ctx.check(appstate[cid] != "running", "app-not-told", info); ctx.count("told_of_disconnect")
  cid = 0
  for _ in range(rng.randint(1, 3)):
    batch = []
    for _ in range(rng.choice((1, 2, 4, 8))):
      cid += 1
      batch.append(asyncio.create_task(connection(cid, rng.choice(users), rng.choice(runners))))
    for t in asyncio.as_completed(batch): await t
  await settle(10)
  ctx.check(not any(r[2].done() for r in runners), "runner-ended", lambda: [r[2] for r in runners])
  if all(s != "running" for s in appstate.values()):
    ctx.check({c.id: receivers(c) for c in everyone} == base, "connection-leaked", lambda: ({c.id: receivers(c) for c in everyone}, base)); ctx.count("leak_checks")
  # stopping a runner ends its connections on both sides
  r, u = runners[0], rng.choice(users)
  cid += 1
  scripts[cid] = ("stop", [("until_disconnect", 1)])
  drv = Driver(rng, client_events(rng, "http", 2, cid), ("block",), [None, None])
  t = asyncio.create_task(call(ASGIProxyApp(u.client, (r[0].address, r[1])), make_scope(rng, cid, "http"), drv, None, 300))
  await settle(rng.choice((0.001, 3)))
  r[2].cancel()
  res = None
  if cid in appstate or rng.random() < 0.5:
    await settle(5)
    if cid in appstate:
      res, _ = await asyncio.wait_for(t, 400)
      ctx.check(res != "hangs" and appstate[cid] != "running", "stopped-runner-keeps-connection", lambda: (res, appstate[cid])); ctx.count("stopped_runners")
  t.cancel()
  # a refused or unanswered connection leaves nothing behind
  c = rng.choice(users)
  await settle(3)
  n = receivers(c)
  fs = FetchServer(hosts[0].client, 7999)
  @fs.route("init")
  async def _(req): raise ValueError("no")
  ft = asyncio.create_task(fs.run())
  await settle(2)
  drv = Driver(rng, [], ("block",), [])
  res, pt = await call(ASGIProxyApp(c.client, (hosts[0].address, 7999)), make_scope(rng, 0, "http"), drv, None, 100)
  ctx.check(res == "raised" and isinstance(pt.exception(), FetchError), "refusal-not-reported", lambda: (res, pt))
  res, _ = await call(ASGIProxyApp(c.client, (hosts[0].address, 7998)), make_scope(rng, 0, "http"), drv, 3, 100)
  ctx.check(res == "cancelled", "cancel-ignored", res)
  await settle(3)
  ctx.check(receivers(c) <= n + (1 if c is hosts[0] else 0), "refused-connection-leaked", lambda: (receivers(c), n))
  ft.cancel()
  ctx.nontrivial = ctx.counters.get("events_in", 0) > 0
  ctx.summary = dict(log=[x for x in ctx.log if x[0] == "connection"][:4])

@family("connections", quick=400, thorough=20000)
async def connections(ctx): await scenario(ctx, KINDS if ctx.rng.random() < 0.6 else YIELD)

@family("nobody", quick=60, thorough=1500)
async def nobody(ctx):
  """The other side is gone (its node was killed), or never was there: the request ends with an error, others go on."""
  rng = ctx.rng
  net = Net(ctx, KINDS)
  await net.tree(rng.randint(1, 3))
  u, r, gone = [await net.add_client(address=1000 + i) for i in range(3)]
  async def app(scope, receive, send):
    await send({"type": "http.response.start", "status": 200, "headers": []})
    await send({"type": "http.response.body", "body": scope["path"].encode()})
  runners = [asyncio.create_task(ASGIAppRunner(c.client, app).run()) for c in (r, gone)]
  await settle()
  how = rng.choice(("never", "port", "link", "link", "stopped"))
  target = {"never": (4242, NetworkPorts.ASGI), "port": (1001, 77)}.get(how, (1002, NetworkPorts.ASGI))
  async def request(target, path):
    got = []
    async def receive(): await asyncio.Event().wait()
    async def send(e): got.append(e)
    res = await asyncio.wait_for(asyncio.wait([asyncio.create_task(ASGIProxyApp(u.client, target)({"type": "http", "path": path}, receive, send))], timeout=200), 300)
    return res[0], got
  if how in ("link", "stopped"):
    done, got = await request(target, "/first")
    ctx.check(done and got and got[-1]["body"] == b"/first", "not-answered", lambda: got)
    if how == "link": gone.raw_link.close()
    else: runners[1].cancel()
    await settle()
  async def lost(i):
    done, got = await request(target, f"/{i}")
    ctx.check(bool(done), "never-ends", lambda: (how, got))
    for t in done: ctx.check(t.exception() is not None and not got, "answered-by-nobody", lambda: (how, got))
    ctx.count("lost")
  async def fine(i):
    done, got = await request((1001, NetworkPorts.ASGI), f"/{i}")
    ctx.check(done and [e.get("body") for e in got] == [None, f"/{i}".encode()], "others-disturbed", lambda: (how, got))
    ctx.count("served")
  await asyncio.gather(*(rng.choice((lost, fine))(i) for i in range(rng.randint(1, 6))), lost("a"), fine("b"))
  ctx.check(receivers(u) == 1, "receiver-left", lambda: u.client._receivers)
  ctx.check(not runners[0].done(), "runner-ended", lambda: runners[0])
  ctx.keep = runners
  ctx.nontrivial = True
  ctx.sigadd(how, tuple(sorted(ctx.counters.items())))
  ctx.summary = dict(how=how, counters=dict(ctx.counters))
