"""Random network histories with a reference model of who provides, subscribes and owns what."""
import asyncio
from vlib.net import *
from streamtasks.client.receiver import Receiver

class World:
  def __init__(self, ctx, kinds, n_switch, n_client, topics, addresses=()):
    self.ctx, self.rng = ctx, ctx.rng
    self.net = Net(ctx, kinds)
    self.n_switch, self.n_client = n_switch, n_client
    self.topics, self.addresses = list(topics), list(addresses)
    self.outs, self.subs = {}, {}     # (cid, topic) -> OutTopic / TopicSub
    self.provided, self.subscribed = set(), set()
    self.owner = {}                   # address -> cid
    self.probes = []
  @property
  def clients(self): return [c for c in self.net.clients if c.alive]
  async def build(self):
    await self.net.tree(self.n_switch)
    for _ in range(self.n_client): await self.net.add_client()
  async def out(self, c, t):
    if (c.id, t) not in self.outs:
      self.outs[c.id, t] = o = c.client.out_topic(t)
      await o.start()
    return self.outs[c.id, t]
  async def sub(self, c, t):
    if (c.id, t) not in self.subs:
      self.subs[c.id, t] = s = TopicSub(c, t)
      await s.start()
    return self.subs[c.id, t]
  async def provide(self, c, t, on):
    self.ctx.op("provide", c.id, t, on)
    await (await self.out(c, t)).set_registered(on)
    (self.provided.add if on else self.provided.discard)((c.id, t))
  async def subscribe(self, c, t, on):
    self.ctx.op("subscribe", c.id, t, on)
    s = await self.sub(c, t)
    await (s.sub() if on else s.unsub())
    (self.subscribed.add if on else self.subscribed.discard)((c.id, t))
  async def set_address(self, c, a):
    self.ctx.op("address", c.id, a)
    await c.client.set_address(a)
    if c.address is not None and self.owner.get(c.address) == c.id: self.owner.pop(c.address)
    c.address = a
    if a is not None: self.owner[a] = c.id
  def forget(self, c):
    c.alive = False
    self.provided = {x for x in self.provided if x[0] != c.id}
    self.subscribed = {x for x in self.subscribed if x[0] != c.id}
    self.owner = {a: o for a, o in self.owner.items() if o != c.id}
  def detach(self, c, how=None):
    how = how or self.rng.choice(("client", "switch"))
    self.ctx.op("detach", c.id, how, c.kind)
    self.forget(c)
    (c.raw_link if how == "client" else c.link_sw).close()
  def split(self):
    if not self.net.edges: return False
    i, j, a, b = self.net.edges.pop(self.rng.randrange(len(self.net.edges)))
    self.ctx.op("split", i, j)
    (a if self.rng.random() < 0.5 else b).close()
    self.net.disconnect(i, j)
    return True
  async def rejoin(self):
    comps = [sorted(self.net.reachable(i)) for i in range(len(self.net.switches))]
    i = self.rng.randrange(len(self.net.switches))
    others = [k for k in range(len(self.net.switches)) if k not in comps[i]]
    if not others: return False
    await self.net.join(i, self.rng.choice(others))
    return True
  # ---- reference model
  def client(self, cid): return self.net.clients[cid]
  def providers(self, t): return [self.client(c) for c, x in self.provided if x == t]
  def subscribers(self, t): return [self.client(c) for c, x in self.subscribed if x == t]
  def expected_topics(self, sw, exclude_edge=None, exclude_client=None):
    out = {}
    for c, t in self.provided:
      if c == exclude_client: continue
      d = self.client(c).cost_at(sw)
      if d is not None: out[t] = min(out.get(t, 1 << 60), d)
    return out
  def expected_addresses(self, sw, exclude_client=None):
    out = {}
    for a, c in self.owner.items():
      if c == exclude_client: continue
      d = self.client(c).cost_at(sw)
      if d is not None: out[a] = d
    return out
  def behind(self, i, j):
    """Switches reachable from j without crossing the edge i-j."""
    seen, todo = {j}, [j]
    while todo:
      k = todo.pop()
      for n, _ in self.net.adj[k]:
        if n not in seen and not (k == j and n == i): seen.add(n); todo.append(n)
    return seen
  def check_demand(self):
    ctx = self.ctx
    for t in self.topics:
      provs = self.providers(t)
      subs = self.subscribers(t)
      for p in provs:
        reach = [s for s in subs if s is not p and self.net.dist(s.sw, p.sw) is not None]
        req = self.outs[p.id, t].is_requested
        if not reach: ctx.check(not req, "requested-without-subscriber", lambda: f"topic {t}: provider {p.id} is requested, subscribers {[s.id for s in subs]}")
        elif len(provs) == 1: ctx.check(req, "not-requested", lambda: f"topic {t}: provider {p.id} is not requested by {[s.id for s in reach]}")
        ctx.count("requested" if req else "unrequested")
      for s in subs:
        costs = {p.id: p.cost_at(s.sw) for p in provs if p is not s and p.cost_at(s.sw) is not None}
        if not costs or any(p is s for p in provs): continue
        best = [p for p in costs if costs[p] == min(costs.values())]
        ctx.check(any(self.outs[p, t].is_requested for p in best), "best-provider-not-requested", lambda: f"topic {t} subscriber {s.id}: none of the least cost providers {best} of {costs} is requested")
        if len(costs) > 1: ctx.count("multi_provider_demand")
  def table_of(self, link): return dict(link.out_topics), dict(link.addresses)
  def check_routes(self):
    ctx = self.ctx
    for i, j, a, b in self.net.edges:
      for me, other, link in ((i, j, a), (j, i, b)):
        side = self.behind(me, other)
        cost = next(c for k, c in self.net.adj[me] if k == other)
        want_t, want_a = {}, {}
        for c, t in self.provided:
          if self.client(c).sw in side: want_t[t] = min(want_t.get(t, 1 << 60), self.client(c).cost_at(other) + cost)
        for ad, c in self.owner.items():
          if self.client(c).sw in side: want_a[ad] = self.client(c).cost_at(other) + cost
        self._cmp(link.out_topics, want_t, "topics", f"link at switch {me} from {other}")
        self._cmp(link.addresses, want_a, "addresses", f"link at switch {me} from {other}")
    for p in self.probes:
      self._cmp(p.topics, self.expected_topics(p.sw), "topics", f"probe at switch {p.sw} attached at {p.when}")
      self._cmp(p.addresses, self.expected_addresses(p.sw), "addresses", f"probe at switch {p.sw} attached at {p.when}")
    for c in self.clients:
      want = {}
      for o, t in self.provided:
        if o == c.id: continue
        d = self.client(o).cost_at(c.sw)
        if d is not None: want[t] = min(want.get(t, 1 << 60), d)
      self._cmp({t: v - c.raw_link._cost for t, v in c.raw_link.out_topics.items()}, want, "topics", f"client link {c.id}")
  def _cmp(self, got, want, what, where):
    ctx = self.ctx
    ctx.count("tables")
    ctx.count("routes", len(want))
    ctx.check(not (set(got) - set(want)), "stale-" + what, lambda: f"{where}: stale {sorted(set(got) - set(want))}; got {got} want {want}")
    ctx.check(not (set(want) - set(got)), "missing-" + what, lambda: f"{where}: missing {sorted(set(want) - set(got))}; got {got} want {want}")
    ctx.check(got == want, "wrong-cost-" + what, lambda: f"{where}: got {got} want {want}")
  async def add_probe(self, sw):
    p = Probe(sw, len(self.ctx.log))
    await p.attach(self.net, self.rng)
    self.probes.append(p)
    self.ctx.op("probe", sw)
    return p

class Probe:
  """A raw link end that rebuilds the advertised tables from the messages it is sent."""
  def __init__(self, sw, when): self.sw, self.when, self.topics, self.addresses, self.task, self.requests = sw, when, {}, {}, None, []
  async def attach(self, net, rng):
    a, self.link = vlink_pair(rng, 1, 1, "small", raw=rng.random() < 0.5)
    await net.switches[self.sw].add_link(a)
    self.task = asyncio.create_task(self._run())
  async def _run(self):
    while True:
      m = await self.link._recv()
      if isinstance(m, OutTopicsChangedMessage): self._apply(self.topics, m)
      elif isinstance(m, AddressesChangedMessage): self._apply(self.addresses, m)
      else: self.requests.append(m)
  def _apply(self, table, m):
    for i in m.remove: table.pop(i, None)
    for p in m.add: table[p.id] = p.cost
