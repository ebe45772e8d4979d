"""C23: named topics and secrets are stored, resolved and removed consistently."""
import asyncio, os, uuid
from urllib.parse import quote, unquote
from streamtasks.asgi import ASGIProxyApp
from streamtasks.client.discovery import wait_for_address_name
from streamtasks.client.fetch import FetchError, FetchErrorStatusCode
from streamtasks.services.constants import NetworkAddressNames
from streamtasks.system.named_topic_manager import NamedTopicManager
from streamtasks.system.secret_manager import SecretManager, SecretManagerClient
from streamtasks.system.task_web import TaskWebBackend
from vlib import http
from vlib.core import Violation, family
from vlib.disco import *
from vlib.linear import linearizable
from vlib.values import text

def freeze(v):
  if isinstance(v, dict): return ("d", tuple(sorted((k, freeze(x)) for k, x in v.items())))
  if isinstance(v, list): return ("l", tuple(freeze(x) for x in v))
  return (type(v).__name__, repr(v))

async def attach(ctx, net, worker):
  a, b, _, _ = await make_pair(ctx.rng, ctx.rng.choice(("queue", "rawqueue", "sock", "v-zero")))
  await net.switches[ctx.rng.randrange(len(net.switches))].add_link(a)
  await worker.switch.add_link(b)
  await settle(3)
  worker._verif_link = a
  return asyncio.create_task(worker.run())

NAMES = ("a", "b", "a b", "ä/ü", "a/b", "/a", "a/", "%41", "A", "100%", "a?b=c", "..", "a/../b", "", "x" * 300, "a\nb", "😀", "named-topics", "a+b", "%2F")

class Services:
  """Both managers (and a backend) with clients; restarted on request."""
  def __init__(self, ctx): self.ctx, self.rng = ctx, ctx.rng
  async def build(self):
    ctx, rng = self.ctx, self.rng
    self.net = await with_discovery(ctx, KINDS, rng.randint(1, 3))
    os.environ["DATA_DIR"] = ctx.tmpdir()
    self.use_backend = rng.random() < 0.6
    self.tasks, self.ids = {}, {}
    if self.use_backend:
      self.backend = TaskWebBackend()
      self.tasks["backend"] = await attach(ctx, self.net, self.backend)
      await settle(3)
    await self.start()
  async def start(self):
    ctx, rng = self.ctx, self.rng
    eps = [NetworkAddressNames.TASK_MANAGER_WEB] if self.use_backend else []
    order = [("named", NamedTopicManager), ("secret", SecretManager)]
    rng.shuffle(order)
    self.workers = {}
    for name, cls in order:
      self.workers[name] = cls(register_endpoits=eps)
      self.tasks[name] = await attach(ctx, self.net, self.workers[name])
    await settle(10) # the name may still belong to the previous run; it is taken over once the new one is up
    self.clients = []
    for _ in range(3):
      c = (await self.net.add_client()).client
      await c.request_address()
      for n in (NetworkAddressNames.NAMED_TOPIC_MANAGER, NetworkAddressNames.SECRET_MANAGER): 
        try: await asyncio.wait_for(wait_for_address_name(c, n), 200)
        except TimeoutError: ctx.fail("service-not-available", f"{n} {self.tasks}")
      self.clients.append(c)
    await settle(5)
  async def restart(self):
    self.ctx.op("restart")
    self.ctx.count("restarts")
    for n in ("named", "secret"):
      t = self.tasks[n]
      self.ctx.check(not t.done(), "service-ended", lambda: t)
      t.cancel()
      await asyncio.wait([t], timeout=100)
      self.workers[n]._verif_link.close()
    await settle(3)
    self.ids = {}
    await self.start()
  def app(self, kind):
    c = self.rng.choice(self.clients)
    if self.use_backend: return ASGIProxyApp(c, NetworkAddressNames.TASK_MANAGER_WEB), "/named-topics" if kind == "named" else "/secrets"
    return ASGIProxyApp(c, NetworkAddressNames.NAMED_TOPIC_MANAGER if kind == "named" else NetworkAddressNames.SECRET_MANAGER), ""
  async def http(self, kind, method, path, body=None):
    app, prefix = self.app(kind)
    # what a server does with the url a browser sends
    r = await http.call(app, method, unquote(prefix + path), body)
    self.ctx.check(r.complete, "no-response", lambda: (method, path, r))
    self.ctx.count("http")
    return r
  async def fetch(self, kind, desc, body):
    self.ctx.count("fetch")
    try: return True, await asyncio.wait_for(self.rng.choice(self.clients).fetch(NetworkAddressNames.NAMED_TOPIC_MANAGER if kind == "named" else NetworkAddressNames.SECRET_MANAGER, desc, body), 300)
    except FetchError as e: return False, e.status_code
    except TimeoutError: self.ctx.fail("no-response", f"{kind} {desc} {body}")

NOTFOUND = ("not-found",)

def q(name): return quote(name, safe="")

async def execute(s, op):
  """Runs one operation over one of the interfaces; returns its normalised result."""
  kind, what, key, val, via = op
  ctx = s.ctx
  if kind == "named":
    if what == "put":
      body = {"name": key, "metadata": val}
      if via == "http":
        r = await s.http(kind, "PUT", "/api/named-topic", body); ctx.check(r.ok, "put-refused", r); got = r.json()
      else:
        ok, got = await s.fetch(kind, "put_named_topic", body); ctx.check(ok, "put-refused", lambda: got)
      ctx.check(freeze(got) == freeze(body), "put-result", lambda: (got, body))
      return None
    if what == "get":
      if via == "http":
        r = await s.http(kind, "GET", f"/api/named-topic/{q(key)}")
        ctx.check(r.ok or r.status == 404, "get-status", r)
        return freeze(r.json()) if r.ok else NOTFOUND
      ok, got = await s.fetch(kind, "get_named_topic", {"name": key})
      ctx.check(ok or got == FetchErrorStatusCode.NOT_FOUND, "get-status", lambda: got)
      return freeze(got) if ok else NOTFOUND
    if what == "delete":
      if via == "http": r = await s.http(kind, "DELETE", f"/api/named-topic/{q(key)}"); ctx.check(r.ok or r.status == 404, "delete-status", r)
      else: ok, got = await s.fetch(kind, "delete_named_topic", {"name": key}); ctx.check(ok or got == FetchErrorStatusCode.NOT_FOUND, "delete-status", lambda: got)
      return None
    if what == "list":
      if via == "http": r = await s.http(kind, "GET", "/api/named-topics"); ctx.check(r.ok, "list-status", r); got = r.json()
      else: ok, got = await s.fetch(kind, "list_named_topics", None); ctx.check(ok, "list-status", lambda: got)
      names = [e["name"] for e in got]
      ctx.check(len(set(names)) == len(names), "name-listed-twice", lambda: names)
      return frozenset(freeze(e) for e in got)
    if what == "resolve":
      ok, got = await s.fetch(kind, "resolve_named_topic", {"name": key})
      ctx.check(ok and isinstance(got["topic"], int), "resolve-fails", lambda: got)
      t = s.ids.setdefault(key, got["topic"])
      ctx.check(t == got["topic"], "resolves-differently", lambda: (key, t, got))
      ctx.check(len(set(s.ids.values())) == len(s.ids), "names-share-topic", lambda: s.ids)
      ctx.count("resolved")
      return None
  else:
    if what == "put":
      if via == "http": r = await s.http(kind, "PUT", "/api/secret", {"id": str(key), "value": val}); ctx.check(r.ok, "put-refused", r)
      elif via == "client": await SecretManagerClient(s.rng.choice(s.clients)).put_secret(key, val); ctx.count("fetch")
      else:
        ok, got = await s.fetch(kind, "put_secret", {"id": str(key), "value": val}); ctx.check(ok, "put-refused", lambda: got)
        ctx.check(got["value"] == val and str(got["id"]) == str(key), "put-result", lambda: got)
      return None
    if what == "get":
      if via == "client":
        try: return ("v", await SecretManagerClient(s.rng.choice(s.clients)).resolve_secret(key))
        except FetchError as e: ctx.check(e.status_code == FetchErrorStatusCode.NOT_FOUND, "get-status", lambda: e.body); return NOTFOUND
      ok, got = await s.fetch(kind, "get_secret", {"id": str(key)})
      ctx.check(ok or got == FetchErrorStatusCode.NOT_FOUND, "get-status", lambda: got)
      if ok: ctx.check(str(got["id"]) == str(key), "get-other-key", lambda: got)
      return ("v", got["value"]) if ok else NOTFOUND
    if what == "delete":
      if via == "http": r = await s.http(kind, "DELETE", f"/api/secret/{key}"); ctx.check(r.ok or r.status == 404, "delete-status", r)
      elif via == "client":
        try: await SecretManagerClient(s.rng.choice(s.clients)).delete_secret(key)
        except FetchError as e: ctx.check(e.status_code == FetchErrorStatusCode.NOT_FOUND, "delete-status", lambda: e.body)
      else: ok, got = await s.fetch(kind, "delete_secret", {"id": str(key)}); ctx.check(ok or got == FetchErrorStatusCode.NOT_FOUND, "delete-status", lambda: got)
      return None

def apply(state, op):
  kind, what, key, val, _ = op
  m = dict(state)
  k = (kind, key)
  if what == "put": m[k] = freeze({"name": key, "metadata": val}) if kind == "named" else ("v", val); r = None
  elif what == "get": r = m.get(k, NOTFOUND)
  elif what == "delete": m.pop(k, None); r = None
  elif what == "list": r = frozenset(v for (kd, _), v in m.items() if kd == "named")
  elif what == "resolve":
    if k not in m: m[k] = freeze({"name": key, "metadata": {}})
    r = None
  return frozenset(m.items()), r

def metadata(rng): return {text(rng): rng.choice((lambda: rng.randrange(-2**53, 2**53), lambda: rng.uniform(-10, 10), lambda: 1.0, lambda: text(rng), lambda: rng.random() < 0.5, lambda: "1"))() for _ in range(rng.randrange(4))}

def draw(rng, names, sids):
  if rng.random() < 0.6:
    what = rng.choice(("put", "put", "get", "get", "get", "delete", "list", "resolve", "resolve"))
    return ("named", what, rng.choice(names) if what != "list" else None, metadata(rng) if what == "put" else None, "fetch" if what == "resolve" else rng.choice(("http", "fetch")))
  what = rng.choice(("put", "put", "get", "get", "get", "delete"))
  return ("secret", what, rng.choice(sids), text(rng) if what == "put" else None, rng.choice(("client", "fetch")) if what == "get" else rng.choice(("http", "fetch", "client")))

@family("maps", quick=90, thorough=2500)
async def maps(ctx):
  """Random histories over every interface, concurrent batches judged by linearizability, with restarts and malformed requests in between."""
  rng = ctx.rng
  s = Services(ctx)
  await s.build()
  names = rng.sample(NAMES, 4)
  sids = [uuid.UUID(int=rng.getrandbits(128), version=4) for _ in range(3)]
  states = {frozenset()}
  async def one(op, delay):
    if delay is not None: await asyncio.sleep(delay)
    t0 = ctx.loop.time()
    r = await execute(s, op)
    return (t0, ctx.loop.time(), op, r)
  for _ in range(rng.randint(6, 16)):
    x = rng.random()
    if x < 0.08: await s.restart()
    elif x < 0.2:
      # malformed requests are refused and change nothing
      bad = rng.choice(((lambda: s.fetch("named", "put_named_topic", rng.choice((None, {}, {"name": 5}, {"name": "a"}, {"name": "a", "metadata": 3}, [1], "x")))), (lambda: s.fetch("secret", "put_secret", rng.choice((None, {"id": "x", "value": "1"}, {"id": str(sids[0])}, {"id": str(sids[0]), "value": 5}))))
                       , (lambda: s.fetch("named", rng.choice(("get_named_topic", "delete_named_topic", "resolve_named_topic")), rng.choice((None, {}, {"name": None})))), (lambda: s.fetch("secret", rng.choice(("get_secret", "delete_secret")), {"id": "nope"}))))
      ok, got = await bad()
      ctx.check(not ok, "malformed-accepted", lambda: got)
      for r in (await s.http("named", "PUT", "/api/named-topic", rng.choice(({"name": "a"}, b"{", b"", [1]))), await s.http("secret", "PUT", "/api/secret", {"id": "z", "value": "1"}), await s.http("secret", "DELETE", "/api/secret/nope")):
        ctx.check(r.status >= 400, "malformed-accepted", r)
      ctx.count("malformed", 4)
    else:
      n = 1 if rng.random() < 0.4 else rng.randint(2, 6)
      ops = await asyncio.gather(*(one(draw(rng, names, sids), None if n == 1 else rng.choice((None, 0, 0.0005, 0.01))) for _ in range(n)))
      for o in ops: ctx.op(*o); ctx.sigadd(o[2][0:2], o[3] is NOTFOUND)
      new = linearizable(states, list(ops), apply)
      ctx.check(bool(new), "not-linearizable", lambda: f"possible before: {[dict(x) for x in list(states)[:3]]}; operations: {ops}")
      states = new
      ctx.count("batches")
      ctx.count("orders", len(new))
      if n > 1: ctx.nontrivial = True
  # everything, over every interface, and once more after a restart
  for round in range(2):
    for name in names:
      for via in ("http", "fetch"):
        o = ("named", "get", name, None, via)
        states = linearizable(states, [await one(o, None)], apply)
        ctx.check(bool(states), "final-read-differs", lambda: (o, ctx.log[-1]))
    for via in ("http", "fetch"):
      o = ("named", "list", None, None, via)
      states = linearizable(states, [await one(o, None)], apply)
      ctx.check(bool(states), "final-list-differs", o)
    for sid in sids:
      o = ("secret", "get", sid, None, "client")
      states = linearizable(states, [await one(o, None)], apply)
      ctx.check(bool(states), "final-secret-differs", o)
    if round == 0: await s.restart()
  for n, t in s.tasks.items(): ctx.check(not t.done(), "service-ended", lambda: (n, t))
