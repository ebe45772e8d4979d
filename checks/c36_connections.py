"""C36: the connection manager's list, its file and the real connections say the same."""
import asyncio, json, os, random, re, signal, subprocess, sys, time
from contextlib import suppress
from urllib.parse import quote, unquote, urlparse
from streamtasks.asgi import ASGIProxyApp
from streamtasks.client import Client
from streamtasks.connection import (DEFAULT_COSTS, AutoReconnector, TCPConnectionData, UnixConnectionData, WebsocketConnectionData, connect, create_server,
                                    extract_connection_data_from_url, get_node_socket_path)
from streamtasks.env import NODE_NAME
from streamtasks.net import Switch
from streamtasks.net.serialization import RawData
from streamtasks.system.connection_manager import ConnectionManager
from vlib import http
from vlib.core import family
from vlib.disco import with_discovery
from vlib.net import make_pair
from vlib.site import Site, free_port
from vlib.vtime import settle

WORDS = ("a", "Studio", "node-1", "MyNode", "cam_2", "X9", "ROOM.7", "über", "n")
HOSTS = ("127.0.0.1", "localhost", "Example.ORG", "a-b.c", "10.1.2.3", "[::1]", "[2001:DB8::7]", "h")
TOKEN = "abcDEF0123456789-_.~"

def token(rng, n=None): return "".join(rng.choice(TOKEN) for _ in range(n or rng.randint(1, 12)))

def make_url(rng):
  """A url and what it says."""
  scheme = rng.choice(("tcp", "ws", "wss", "unix", "node", "tcp", "ws"))
  want = dict(scheme=scheme, hs={})
  user = pw = None
  if scheme != "unix" and rng.random() < 0.4:
    user = token(rng); want["hs"]["username"] = user
    if rng.random() < 0.7: pw = token(rng); want["hs"]["password"] = pw
  info = "" if user is None else user + ("" if pw is None else ":" + pw) + "@"
  if scheme in ("tcp", "ws", "wss"):
    host, port = rng.choice(HOSTS), rng.choice((1, 80, 443, 9006, 65535, rng.randint(1, 65535)))
    want.update(host=host.strip("[]"), port=port)
    auth, path = f"{info}{host}:{port}", rng.choice(("", "", "/", "/x"))
  elif scheme == "unix": auth, path = "", "/" + "/".join(rng.choice(WORDS) for _ in range(rng.randint(1, 4))) + rng.choice((".sock", "", ".S")); want["path"] = path
  else: auth, path = info + rng.choice(("", *(w for w in WORDS))), ""; want["name"] = auth[len(info):]
  q = {}
  if rng.random() < 0.4: q["cost"] = rng.choice((1, 2, 30, 999, 150, rng.randint(1, 10**6)))
  if rng.random() < 0.4: q["auth"] = token(rng); want["hs"]["auth"] = q["auth"]
  if rng.random() < 0.2: k = "k" + token(rng, 3).replace("cost", "x"); q[k] = token(rng); want["hs"][k] = q[k]
  want["cost"] = q.get("cost")
  items = list(q.items()); rng.shuffle(items)
  url = f"{scheme if rng.random() < 0.85 else scheme.upper()}://{auth}{path}" + ("?" + "&".join(f"{k}={quote(str(v))}" for k, v in items) if items else "")
  want["secrets"] = [s for s in (user, pw, q.get("auth")) if s and len(s) >= 6]
  return url, want

DEFAULT = {"tcp": DEFAULT_COSTS.TCP, "ws": DEFAULT_COSTS.WEBSOCKET, "wss": DEFAULT_COSTS.WEBSOCKET, "unix": DEFAULT_COSTS.UNIX, "node": DEFAULT_COSTS.NODE}
DOCUMENTED = {"tcp": 100, "ws": 150, "wss": 150, "unix": 50, "node": 25}

@family("urls", quick=400, thorough=8000, loop="sync")
def urls(ctx):
  """What a url says is what is connected to."""
  rng = ctx.rng
  for _ in range(30):
    url, want = make_url(rng)
    ctx.count("urls"); ctx.count("scheme:" + want["scheme"])
    d = extract_connection_data_from_url(url)
    s = want["scheme"]
    ctx.check(d.cost == (want["cost"] or DEFAULT[s]), "url-cost", lambda: (url, d))
    for k, v in want["hs"].items(): ctx.check(d.handshake_data.get(k) == v, "url-handshake", lambda: (url, k, d))
    ctx.check(("auth" in d.handshake_data) == ("auth" in want["hs"]) and ("password" in d.handshake_data) == ("password" in want["hs"]), "url-handshake", lambda: (url, d))
    if s in ("tcp", "ws", "wss"):
      ctx.check(isinstance(d, TCPConnectionData if s == "tcp" else WebsocketConnectionData), "url-kind", lambda: (url, d))
      ctx.check(d.hostname.lower() == want["host"].lower() and d.port == want["port"], "url-address", lambda: (url, d))
      if s != "tcp":
        p = urlparse(d.uri)
        ctx.check((p.scheme, (p.hostname or "").lower(), p.port) == (s, want["host"].lower(), want["port"]), "websocket-uri", lambda: (url, d.uri))
        ctx.check(not any(x in d.uri for x in want["secrets"]), "uri-secret", lambda: (url, d.uri))
    else:
      ctx.check(isinstance(d, UnixConnectionData), "url-kind", lambda: (url, d))
      ctx.check(d.path == (want["path"] if s == "unix" else get_node_socket_path(want["name"] or None)), "url-path", lambda: (url, d))
    ctx.sigadd(url)
  for w in rng.sample(WORDS, 4):
    ctx.eq(extract_connection_data_from_url(w).path, get_node_socket_path(w), "bare-name", w)
    ctx.check(w in get_node_socket_path(w), "bare-name", w)
  ctx.eq(extract_connection_data_from_url(None).path, get_node_socket_path(NODE_NAME()), "default-node")
  for bad in ("http://h:1", "ftp://x", "tcp://h:99999", "tcp://h:port", "ws://h:-1", "://", "udp://h:1", "tcp://[::1:80"):
    try: d = extract_connection_data_from_url(bad)
    except ValueError: ctx.count("bad_urls")
    else:
      if bad != "://": ctx.fail("bad-url-accepted", f"{bad} {d}")
  ctx.nontrivial = True

BAD = ("http://h:1", "ftp://x", "tcp://h:99999", "ws://u:secretpassword@h:70000", "tcp://h:port", "ws://h:-1", "udp://127.0.0.1:5", "tcp://[::1:80")
BAD_BODIES = (b"", b"{", b"[]", b"{}", b'{"url": 5}', b'{"url": null}', b'"tcp://h:1"', b"null", b"\xff")

class Remote:
  """An endpoint elsewhere: a server the manager may connect to."""
  def __init__(self, url, full): self.url, self.full, self.server, self.task = url, full, None, None
  async def start(self, i):
    self.server = create_server(self.full)
    self.site = Site(self.server.switch); await self.site.start(1000 + i, 2000 + i)
    self.task = asyncio.create_task(self.server.run())
    await asyncio.wait_for(self.server.wait_running(), 50)
  async def stop(self):
    if self.task is None: return
    self.task.cancel()
    await asyncio.wait([self.task], timeout=60)
    self.task = self.server = None

class Peer:
  """A client elsewhere that connects to one of the manager's servers."""
  def __init__(self, url, ok): self.url, self.ok, self.w = url, ok, None

def endpoint(ctx, d, kind, n):
  if kind == "unix": return f"unix://{d}/{n}.sock"
  if kind == "node": return f"node://T{os.getpid()}-{ctx.index}-Node{n}"
  if kind == "bare": return f"T{os.getpid()}-{ctx.index}-Bare{n}"
  return f"{kind}://{ctx.rng.choice(('127.0.0.1', '127.0.0.1', 'localhost', '[::1]'))}:{free_port()}"

class System:
  def __init__(self, ctx): self.ctx, self.rng, self.secrets, self.seen, self.n = ctx, ctx.rng, [], 0, 0
  async def until(self, cond, t=40):
    end = self.ctx.loop.time() + t
    while True:
      r = cond()
      if asyncio.iscoroutine(r): r = await r
      if r or self.ctx.loop.time() > end: return r
      await asyncio.sleep(0.1)
  async def build(self):
    self.net = await with_discovery(self.ctx, ("queue", "rawqueue", "v-zero"), self.rng.randint(1, 2))
    self.dir = self.ctx.tmpdir()
    os.environ["DATA_DIR"] = self.dir
    self.client = (await self.net.add_client()).client
    await self.client.request_address()
    await self.start()
  async def start(self):
    self.manager = ConnectionManager(register_endpoits=[])
    a, b, _, _ = await make_pair(self.rng, self.rng.choice(("queue", "rawqueue")))
    await self.net.switches[0].add_link(a)
    await self.manager.switch.add_link(b)
    self.link = a
    self.site = Site(self.net.switches[0])
    await settle(3)
    self.task = asyncio.create_task(self.manager.run())
    self.ctx.check(await self.until(lambda: getattr(self.manager, "client", None) is not None and self.manager.client.address is not None), "manager-does-not-start", lambda: self.task)
    await settle(2)
    self.ctx.check(not self.task.done(), "manager-ended", lambda: self.task)
    self.app = ASGIProxyApp(self.client, self.manager.client.address)
    self.base_links = len(self.manager.switch.link_manager.links)
  async def stop(self):
    self.task.cancel()
    await asyncio.wait([self.task], timeout=60)
    self.ctx.check(self.task.done(), "manager-does-not-stop")
    self.link.close()
  async def req(self, method, path, body=None, secret_ok=False):
    r = await http.call(self.app, method, path, body, timeout=300)
    self.ctx.check(r.complete, "no-response", lambda: (method, path, r))
    self.ctx.count("http")
    if not secret_ok: self.leak(r.body, (method, path))
    return r
  def leak(self, data, where):
    if isinstance(data, str): data = data.encode()
    for s in self.secrets: self.ctx.check(s.encode() not in data, "credential-shown", lambda: (where, s, data[:400]))
    if self.secrets: self.ctx.count("secret_scans")
  async def list(self, kind):
    r = await self.req("GET", f"/api/{kind}s")
    self.ctx.check(r.status == 200, "list-fails", lambda: (kind, r))
    return r.json()

def shown_ok(shown, url):
  """The shown url names the same endpoint (without the credentials)."""
  if "://" not in url: return shown == url
  a, b = urlparse(shown), urlparse(url)
  return a.scheme == b.scheme and (a.hostname or "") == (b.hostname or "") and a.port == b.port and a.path == b.path

@family("history", quick=240, thorough=5000, cpu_limit=120)
async def history(ctx):
  rng = ctx.rng
  ctx.loop.io_grace, ctx.loop.external_grace = 0.0008, 0.01
  if rng.random() < 0.5: # slow sockets: writing may wait
    drain = asyncio.StreamWriter.drain
    async def slow(self):
      if rng.random() < 0.5: await asyncio.sleep(rng.choice((0, 0.001, 0.02)))
      return await drain(self)
    asyncio.StreamWriter.drain = slow
    ctx.cleanups.append(lambda: setattr(asyncio.StreamWriter, "drain", drain))
    ctx.count("slow_sockets")
  s = System(ctx)
  kinds = ("tcp", "unix", "ws", "node", "bare", "tcp")
  await s.build()
  sock = lambda: None
  # endpoints elsewhere, and places where the manager will serve
  remotes, places = [], []
  for i in range(rng.randint(1, 3)):
    base = endpoint(ctx, s.dir, rng.choice(kinds), f"r{i}")
    tok = None if "://" not in base or rng.random() < 0.4 else "tok" + token(rng, 9)
    full = base if tok is None else f"{base}?auth={tok}"
    if tok: s.secrets.append(tok)
    remotes.append(Remote(base, full)); remotes[-1].tok = tok; remotes[-1].i = i
  for i in range(rng.randint(1, 3)):
    base = endpoint(ctx, s.dir, rng.choice(kinds), f"p{i}")
    tok = None if "://" not in base or rng.random() < 0.4 else "tok" + token(rng, 9)
    if tok: s.secrets.append(tok)
    places.append(dict(base=base, tok=tok, full=base if tok is None else f"{base}?auth={tok}", peers=[], blocker=None, i=i))
  for r in remotes:
    if rng.random() < 0.6: await r.start(r.i)
  ops = ["add-conn", "add-conn", "add-server", "add-server", "dup", "bad", "remove", "remove-server", "unknown", "remote-toggle", "remote-toggle", "peer", "peer", "peer-wrong", "peer-drop", "peer-flash", "block", "restart", "sub"]
  if rng.random() < 0.3: ops = ["add-conn", "remote-toggle", "remote-toggle", "peer", "peer-drop", "peer-flash", "add-server", "sub"]
  plan = [rng.choice(ops) for _ in range(rng.randint(4, 11))]
  if rng.random() < 0.4: plan[0:0] = rng.sample(["add-conn", "add-server", "sub"], 3)
  conns, servers = [], []   # what was acknowledged: dict(id, url, ...)
  subs = []

  async def peer_connect(pl, tok):
    url = pl["base"] if tok is None else f"{pl['base']}?auth={tok}"
    try: l = await asyncio.wait_for(connect(url), 30)
    except (OSError, Exception) as e: return None
    return l

  def serving(pl): return any(x["place"] is pl for x in servers) and pl["blocker"] is None
  async def compare(what):
    """Lists, flags and counts against what is really there."""
    for kind, model in (("connection", conns), ("server", servers)):
      async def right():
        got = await s.list(kind)
        if [g["id"] for g in got] != [m["id"] for m in model]: return False
        for g, m in zip(got, model):
          if kind == "connection":
            if g["connected"] != m["up"]() or not g["running"]: return False
          elif m["up"]() and (g["connection_count"] != sum(1 for p in m["place"]["peers"] if not p.closed) or not g["running"]): return False
          elif not m["up"]() and g["running"]: return False
        return True
      ok = await s.until(right)
      got = await s.list(kind)
      def want(): return [(m["id"], m["url"], m["up"](), sum(1 for p in m["place"]["peers"] if not p.closed) if kind == "server" else None) for m in model]
      ctx.check([g["id"] for g in got] == [m["id"] for m in model], f"{kind}-list", lambda: (what, got, want()))
      ctx.check(ok, f"{kind}-state", lambda: (what, got, want()))
      for g, m in zip(got, model): ctx.check(shown_ok(g["url"], m["url"]), "shown-url", lambda: (g, m["url"]))
    ctx.count("compared")
    # nothing stays behind in the switch of the manager: one link per entry whose worker runs
    n = lambda: len(s.manager.switch.link_manager.links) - s.base_links
    w = lambda: len(conns) + sum(m["up"]() for m in servers)
    ctx.check(await s.until(lambda: n() == w()), "links-left", lambda: (what, n(), w()))
    for sub in subs:
      for m in sub.out: s.leak(m, "on-change")
    if subs and what not in ("restart",):
      async def same():
        now = {kind: await s.list(kind) for kind in ("connection", "server")}
        return all(x.view == now for x in subs)
      ctx.check(await s.until(same, 10), "view-not-updated", lambda: (what, [x.view for x in subs], [x.out for x in subs], [x.error for x in subs]))
      ctx.count("views", len(subs))

  async def follow(x):
    """A user interface: lists again after every announcement."""
    n = 0
    while not x.closed.is_set():
      if len(x.out) > n:
        n += 1
        if x.out[n - 1] in x.view: x.view[x.out[n - 1]] = await s.list(x.out[n - 1])
      else: await asyncio.sleep(0.01)

  async def traffic(what):
    """Entries shown as connected carry data both ways."""
    for m in conns:
      if not m["up"](): continue
      r = m["remote"]
      site = Site(s.manager.switch if rng.random() < 0.5 else s.net.switches[0])
      await site.start(2000 + r.i, 1000 + r.i)
      s.n += 2; n = s.n
      for x, y in ((site, r.site), (r.site, site)):
        ctx.check(await s.until(lambda: x.out.is_requested), "no-traffic", lambda: (what, m["url"], "no demand"))
        for k in (n, n + 1): await x.out.send(RawData({"n": k}))
        ctx.check(await s.until(lambda: y.got[-2:] == [{"n": n}, {"n": n + 1}]), "no-traffic", lambda: (what, m["url"], y.got[-3:], n))
      site.task.cancel()
      await site.client.stop_wait() if hasattr(site.client, "stop_wait") else None
      site.client._link.close()
      ctx.count("traffic")
  steps = len(plan)
  await compare("start")
  for step in range(steps):
    op = plan[step]
    changed0 = [len(x.out) for x in subs]
    if op == "add-conn":
      free = [r for r in remotes if not any(m["remote"] is r for m in conns)]
      twice = [r for r in remotes if r.tok and r not in free and not any(m["url"].endswith("wrong") for m in conns if m["remote"] is r)]
      if not free and not twice: continue
      r = rng.choice(free + twice)
      right = rng.random() < 0.8
      info = ""
      url = r.full if right else (r.url if r.tok else None)
      if url is None: url, right = r.full, True
      if r in twice: url, right = r.full + "wrong", False # a second entry that differs in the credentials only
      if url.startswith(("tcp", "ws")) and rng.random() < 0.4:
        pw = "pass" + token(rng, 8); s.secrets.append(pw)
        url = url.replace("://", f"://user:{pw}@", 1)
      ctx.op(op, url, right)
      resp = await s.req("POST", "/api/connection", {"url": url})
      ctx.check(resp.status == 200, "add-refused", lambda: (url, resp))
      g = resp.json()
      ctx.check(shown_ok(g["url"], url), "shown-url", lambda: (g, url))
      conns.append(dict(id=g["id"], url=url, remote=r, up=(lambda r=r, right=right: right and r.task is not None), place=None))
    elif op in ("add-server", "block"):
      free = [p for p in places if not any(m["place"] is p for m in servers)]
      if not free: continue
      p = rng.choice(free)
      if op == "block":
        if not p["base"].startswith(("tcp", "ws")) or "localhost" in p["base"] or p["blocker"]: continue
        u = urlparse(p["base"])
        p["blocker"] = await asyncio.start_server(lambda r, w: w.close(), u.hostname, u.port)
        ctx.count("blocked")
        op = "add-server-blocked"
      ctx.op(op, p["full"])
      resp = await s.req("POST", "/api/server", {"url": p["full"]})
      ctx.check(resp.status == 200, "add-refused", lambda: (p["full"], resp))
      g = resp.json()
      ctx.check(shown_ok(g["url"], p["full"]), "shown-url", lambda: (g, p["full"]))
      servers.append(dict(id=g["id"], url=p["full"], place=p, up=lambda p=p: p["blocker"] is None, remote=None))
    elif op == "dup":
      if not conns and not servers: continue
      kind, m = rng.choice([("connection", m) for m in conns] + [("server", m) for m in servers])
      ctx.op(op, kind, m["url"])
      resp = await s.req("POST", f"/api/{kind}", {"url": m["url"]}, True)
      ctx.check(400 <= resp.status < 500, "duplicate-accepted", lambda: (kind, m["url"], resp))
    elif op == "bad":
      kind = rng.choice(("connection", "server"))
      body = {"url": rng.choice(BAD)} if rng.random() < 0.7 else rng.choice(BAD_BODIES)
      ctx.op(op, kind, body)
      resp = await s.req("POST", f"/api/{kind}", body, True)
      ctx.check(400 <= resp.status < 500, "bad-request-accepted", lambda: (kind, body, resp))
    elif op in ("remove", "remove-server"):
      model, kind = (conns, "connection") if op == "remove" else (servers, "server")
      if not model: continue
      m = rng.choice(model)
      ctx.op(op, m["url"])
      resp = await s.req("DELETE", f"/api/{kind}/{m['id']}")
      ctx.check(resp.status == 200, "remove-refused", lambda: (kind, m["url"], m["up"](), resp))
      model.remove(m)
      if kind == "server":
        ctx.check(await s.until(lambda: all(p.closed for p in m["place"]["peers"])), "connected-to-removed-server", m["url"])
        m["place"]["peers"] = []
        if m["place"]["blocker"]:
          m["place"]["blocker"].close(); m["place"]["blocker"] = None
        else:
          l = await peer_connect(m["place"], m["place"]["tok"])
          ctx.check(l is None, "removed-server-serves", m["url"])
          ctx.count("gone_checked")
      else:
        r = m["remote"]
        if r.task is not None: ctx.check(await s.until(lambda: r.server.connection_count == sum(1 for x in conns if x["remote"] is r and x["up"]())), "removed-connection-stays", lambda: (m["url"], r.server.connection_count))
    elif op == "unknown":
      kind = rng.choice(("connection", "server"))
      other = [m["id"] for m in (servers if kind == "connection" else conns)]
      if any(m["url"] in [x["url"] for x in conns] for m in servers): other = []
      id = rng.choice(other + ["0" * 16, "x", "%20"])
      ctx.op(op, kind, id)
      resp = await s.req("DELETE", f"/api/{kind}/{id}")
      ctx.check(resp.status == 404, "unknown-removed", lambda: (kind, id, resp))
    elif op == "remote-toggle":
      r = rng.choice(remotes)
      ctx.op(op, r.full, r.task is None)
      if r.task is None: await r.start(r.i)
      else: await r.stop()
      ctx.count("toggles")
    elif op in ("peer", "peer-wrong", "peer-flash"):
      up = [m["place"] for m in servers if m["up"]()]
      if not up: continue
      p = rng.choice(up)
      ctx.op(op, p["base"])
      if op == "peer-wrong":
        if p["tok"] is None: continue
        l = await peer_connect(p, rng.choice((None, p["tok"] + "x", p["tok"][:-1])))
        ctx.check(l is None, "wrong-credentials-accepted", p["full"]); ctx.count("rejected")
      else:
        l = await s.until(lambda: peer_connect(p, p["tok"]))
        ctx.check(l, "server-not-reachable", lambda: p["full"])
        if op == "peer":
          sw = Switch(); await sw.add_link(l)
          far = Client(await sw.add_local_connection()); far.start()
          n = s.n = s.n + 2
          out = far.out_topic(3000 + step); await out.start(); await out.set_registered(True)
          async with s.client.in_topic(3000 + step) as inp:
            async with inp.RegisterContext():
              ctx.check(await s.until(lambda: out.is_requested), "server-no-traffic", lambda: p["full"])
              await out.send(RawData({"n": n}))
              got = await asyncio.wait_for(inp.recv_data(), 60)
              ctx.eq(got.data, {"n": n}, "server-no-traffic")
          p["peers"].append(l); p.setdefault("keep", []).append((far, sw))
          ctx.count("peers")
        else:
          if rng.random() < 0.5: await asyncio.sleep(rng.choice((0, 0.001)))
          l.close(); ctx.count("flashes")
          async def flash():
            l = await peer_connect(p, p["tok"])
            if l is None: return
            ctx.count("flashes")
            if rng.random() < 0.5: await asyncio.sleep(rng.uniform(0, 0.04))
            else:
              for _ in range(rng.randint(0, 6)): await asyncio.sleep(0)
            if hasattr(l._connection, "_writer") and rng.random() < 0.5: l._connection._writer.transport.abort()
            l.close()
          await asyncio.gather(*(flash() for _ in range(rng.choice((0, 3, 12)))))
    elif op == "peer-drop":
      ps = [(m["place"], l) for m in servers for l in m["place"]["peers"] if not l.closed]
      if not ps: continue
      p, l = rng.choice(ps)
      ctx.op(op, p["base"])
      l.close(); p["peers"].remove(l)
      ctx.count("drops")
    elif op == "restart":
      ctx.op(op)
      for x in subs: x.disconnect()
      subs.clear()
      await s.stop()
      for m in servers:
        ctx.check(await s.until(lambda: all(l.closed for l in m["place"]["peers"])), "connected-to-stopped-manager", m["url"])
        m["place"]["peers"] = []
        if m["up"]():
          l = await peer_connect(m["place"], m["place"]["tok"])
          ctx.check(l is None, "stopped-manager-serves", m["url"])
      for r in remotes:
        if r.task is not None: ctx.check(await s.until(lambda: r.server.connection_count == 0), "stopped-manager-connected", lambda: (r.url, r.server.connection_count))
      s.manager = None
      await s.start()
      s.base_links = len(s.manager.switch.link_manager.links) - len(conns) - sum(m["up"]() for m in servers)
      ctx.count("restarts")
    elif op == "sub":
      if len(subs) >= 2: continue
      x = http.WS(s.app, "/on-change")
      ctx.check(await s.until(lambda: x.accepted.is_set()), "on-change-not-accepted", lambda: x.error)
      subs.append(x); changed0.append(0)
      ctx.op(op)
      await settle(1)
      x.view = {}
      for kind in ("connection", "server"): x.view[kind] = await s.list(kind)
      x.follow = asyncio.create_task(follow(x))
    if op in ("add-conn", "add-server", "add-server-blocked", "remove", "remove-server"): # who changes the lists knows it
      for x in subs: x.view = {kind: await s.list(kind) for kind in x.view}
    await compare(op)
    if op in ("remote-toggle", "peer", "peer-drop") and subs:
      await settle(3)
      affects = "connection" if op == "remote-toggle" else "server"
      if op != "remote-toggle" or any(m["remote"] is r and (m["url"].endswith(r.full.split("://")[-1]) or r.tok is None) for m in conns):
        for x, n0 in zip(subs, changed0):
          ctx.check(affects in x.out[n0:], "change-not-announced", lambda: (op, list(ctx.log)[-2:], x.out, n0, x.error, x.closed.is_set())); ctx.count("announced")
    if step % 3 == 2 or step == steps - 1: await traffic(op)
    ctx.check(not s.task.done(), "manager-ended", lambda: (op, s.task))
  for x in subs: x.disconnect()
  await s.stop()
  for r in remotes: await r.stop()
  ctx.sigadd(tuple(re.sub(r":\d+|T\d+-\d+|/tmp\S+/|tok\S+|pass[^@]*", "", repr(o)) for o in ctx.log)); ctx.nontrivial = len(ctx.log) > 2
  ctx.summary = dict(history=[repr(x) for x in ctx.log], counters=dict(ctx.counters))

CHILD = """
import sys, os, asyncio, json
from streamtasks.asgi import ASGIProxyApp
from streamtasks.client import Client
from streamtasks.client.discovery import wait_for_topic_signal
from streamtasks.services.constants import NetworkTopics
from streamtasks.net import Switch, create_queue_connection
from streamtasks.services.discovery import DiscoveryWorker
from streamtasks.system.connection_manager import ConnectionManager
sys.path.insert(0, sys.argv[1])
from vlib import http
async def main():
  sw = Switch()
  d = DiscoveryWorker(); await sw.add_link(await d.create_link()); asyncio.create_task(d.run())
  c = Client(await sw.add_local_connection()); c.start()
  await wait_for_topic_signal(c, NetworkTopics.DISCOVERY_SIGNAL)
  await c.request_address()
  m = ConnectionManager(register_endpoits=[])
  await sw.add_link(await m.create_link())
  t = asyncio.create_task(m.run())
  while getattr(m, "client", None) is None or m.client.address is None: await asyncio.sleep(0.005)
  await asyncio.sleep(0.05)
  app = ASGIProxyApp(c, m.client.address)
  print("ready", flush=True)
  loop = asyncio.get_running_loop()
  while True:
    line = await loop.run_in_executor(None, sys.stdin.readline)
    if not line: os._exit(0)
    method, path, body = json.loads(line)
    r = await http.call(app, method, path, body, timeout=30)
    print(json.dumps([r.status, r.body.decode()]), flush=True)
asyncio.run(main())
"""

class Proc:
  def __init__(self, ctx, d):
    self.ctx = ctx
    root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    self.p = subprocess.Popen([sys.executable, "-c", CHILD, root], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=open(os.path.join(d, "err"), "ab"), env=dict(os.environ, DATA_DIR=d))
    self.err = os.path.join(d, "err")
    ctx.cleanups.append(self.end)
    ctx.check(self.p.stdout.readline() == b"ready\n", "manager-does-not-start", lambda: open(self.err).read()[-600:])
  def send(self, method, path, body=None):
    self.p.stdin.write(json.dumps([method, path, body]).encode() + b"\n"); self.p.stdin.flush()
  def answer(self):
    l = self.p.stdout.readline()
    self.ctx.check(l, "no-response", lambda: open(self.err).read()[-600:])
    return json.loads(l)
  def call(self, *a):
    self.send(*a)
    return self.answer()
  def end(self, sig=signal.SIGKILL):
    if self.p.poll() is None: self.p.send_signal(sig)
    self.p.wait(20); self.p.stdin.close(); self.p.stdout.close()

@family("killed", quick=24, thorough=400, loop="sync", cpu_limit=120)
def killed(ctx):
  """The process of the manager dies; what was acknowledged is there when it starts again."""
  rng = ctx.rng
  d = ctx.tmpdir()
  model = {"connection": [], "server": []}
  n = 0
  p = Proc(ctx, d)
  for life in range(rng.randint(2, 3)):
    for _ in range(rng.randint(1, 6)):
      kind = rng.choice(("connection", "server"))
      if model[kind] and rng.random() < 0.35:
        id, url = rng.choice(model[kind])
        st, _ = p.call("DELETE", f"/api/{kind}/{id}")
        ctx.eq(st, 200, "remove-refused", url)
        model[kind].remove((id, url)); ctx.op("remove", kind, url)
      else:
        n += 1
        url = f"unix://{d}/{n}.sock" + ("x" * rng.choice((0, 50, 500)) if kind == "connection" else "")
        st, b = p.call("POST", f"/api/{kind}", {"url": url})
        ctx.eq(st, 200, "add-refused", url)
        model[kind].append((json.loads(b)["id"], url)); ctx.op("add", kind, n)
      ctx.count("acknowledged")
    pending = None
    if rng.random() < 0.4: # one more request is under way
      n += 1
      kind = rng.choice(("connection", "server")); url = f"unix://{d}/{n}.sock"
      p.send("POST", f"/api/{kind}", {"url": url}); pending = (kind, url)
      time.sleep(rng.uniform(0, 0.01)); ctx.count("in_flight")
    sig = rng.choice((signal.SIGKILL, signal.SIGKILL, signal.SIGTERM))
    ctx.op("kill", sig.name)
    p.end(sig)
    ctx.count("kills")
    p = Proc(ctx, d) # the sockets of the killed process are still there
    for kind in model:
      st, b = p.call("GET", f"/api/{kind}s")
      ctx.eq(st, 200, "list-fails", b)
      got = [(g["id"], urlparse(g["url"]).path) for g in json.loads(b)]
      ctx.check(all(g["running"] for g in json.loads(b)), "not-running-after-restart", lambda: b)
      if pending and pending[0] == kind and len(got) == len(model[kind]) + 1 and got[-1][1] == urlparse(pending[1]).path: model[kind].append((got[-1][0], pending[1])); ctx.count("in_flight_kept")
      ctx.check(got == [(i, urlparse(u).path) for i, u in model[kind]], "acknowledged-lost", lambda: (kind, got, model[kind]))
  p.end()
  ctx.sigadd(tuple(map(repr, ctx.log))); ctx.nontrivial = True
  ctx.summary = dict(history=[repr(x) for x in ctx.log])
