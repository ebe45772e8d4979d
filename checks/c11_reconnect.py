"""C11: managed connections come back by themselves and close cleanly."""
import asyncio, os, socket
import websockets
from streamtasks.client import Client
from streamtasks.connection import AutoReconnector, RawStreamConnection, connect, create_server
from streamtasks.net import ConnectionClosedError, Switch, create_queue_connection
from streamtasks.net.serialization import RawData
from vlib.core import family
from vlib.site import Site, free_port
from vlib.vtime import settle

async def ping(ctx, a, b, n, sleep, tries, what):
  """Both directions carry a message published after the route is there."""
  for x, y in ((a, b), (b, a)):
    for _ in range(tries):
      if x.out.is_requested: break
      await sleep(0.02)
    ctx.check(x.out.is_requested, "no-traffic", lambda: f"{what}: demand did not come back")
    for k in (n, n + 1): await x.out.send(RawData({"n": k}))
    for _ in range(tries):
      if y.got[-2:] == [{"n": n}, {"n": n + 1}]: break
      await sleep(0.02)
    ctx.check(y.got[-2:] == [{"n": n}, {"n": n + 1}], "no-traffic", lambda: f"{what}: received {y.got[-3:]} want {n}")
    ctx.count("pings")

@family("scripted", quick=600, thorough=20000)
async def scripted(ctx):
  """Scripted connect outcomes in virtual time: progress is bounded by the delay."""
  rng = ctx.rng
  delay = rng.choice((0.01, 0.5, 1, 3))
  remote = Switch()
  state = {"mode": "ok", "link": None, "calls": 0}
  async def connect_fn():
    state["calls"] += 1
    ctx.count("connect_calls")
    if rng.random() < 0.3: await asyncio.sleep(rng.choice((0, 0.01, 0.3)))
    m = state["mode"]
    if m == "refused": raise ConnectionRefusedError("refused")
    if m == "missing": raise FileNotFoundError("no such socket")
    if m == "closed": raise ConnectionClosedError("closed in handshake")
    if m == "reset": raise ConnectionResetError("reset")
    if m == "timeout": raise TimeoutError("timeout")
    if m == "dns": raise socket.gaierror("name resolution")
    if m == "rejected": raise ConnectionError("Server rejected connection")
    if m == "ws": raise websockets.InvalidHandshake("bad")
    a, b = create_queue_connection(rng.random() < 0.5)
    if m == "dead": a.close(); return a
    if m == "dies": asyncio.get_running_loop().call_later(rng.choice((0, 0.001, 0.05)), b.close)
    await remote.add_link(b)
    state["link"], state["peer"] = a, b
    return a
  rc = AutoReconnector(connect_fn, delay=delay)
  here, there = Site(rc.switch), Site(remote)
  await here.start(1, 2); await there.start(2, 1)
  ctx.check(rc.connected is False, "connected-before-start")
  t = asyncio.create_task(rc.run())
  n = 0
  for step in range(rng.randint(3, 10)):
    state["mode"] = rng.choice(("ok", "ok", "ok", "refused", "missing", "closed", "reset", "timeout", "dns", "rejected", "dead", "dies", "ws"))
    ctx.op("mode", state["mode"]); ctx.count("mode:" + state["mode"])
    if rng.random() < 0.8 and state["link"] is not None and not state["link"].closed:
      how = rng.choice(("peer", "link", "remote_switch"))
      ctx.op("loss", how); ctx.count("losses")
      if how == "peer": state["peer"].close()
      elif how == "link": state["link"].close()
      else: await remote.remove_link(state["peer"]); state["peer"].close()
      await asyncio.sleep(0)
      await settle(delay * rng.choice((0.1, 0.5)) if rng.random() < 0.5 else 0.001)
    c0 = state["calls"]
    await settle(4 * delay + 2)
    ctx.check(not t.done(), "reconnector-ended", lambda: f"after {list(ctx.log)[-3:]}: {t.exception()!r}" if t.done() and not t.cancelled() else "cancelled")
    up = state["link"] is not None and not state["link"].closed
    ctx.check(rc.connected == up, "connected-flag", lambda: f"mode {state['mode']}: connected={rc.connected} link up={up}")
    if state["mode"] == "ok":
      ctx.check(up, "not-reconnected", lambda: f"not connected after {4 * delay + 2}s with delay {delay}")
      await asyncio.wait_for(rc.wait_connected(), 0.1)
      n += 2
      await ping(ctx, here, there, n, asyncio.sleep, 50, f"after {ctx.log[-2:]}")
      ctx.count("reconnected")
    elif not up: ctx.check(state["calls"] > c0, "no-retry", lambda: f"mode {state['mode']}: no attempt within {4 * delay + 2}s, delay {delay}"); ctx.count("retries")
    ctx.check(len(rc.switch.link_manager.links) == 1 + int(up), "stale-link", lambda: f"links attached: {len(rc.switch.link_manager.links)}, up={up}")
  link = state["link"]
  t.cancel()
  await settle(2)
  ctx.check(t.done(), "does-not-stop")
  ctx.check(link is None or link.closed, "link-left-open", "the reconnector was stopped but its link is open")
  ctx.check(rc.connected is False, "connected-after-stop")
  c0 = state["calls"]
  await settle(5 * delay + 5)
  ctx.check(state["calls"] == c0, "retries-after-stop")
  ctx.sigadd(tuple(map(repr, ctx.log)), delay); ctx.nontrivial = True
  ctx.summary = dict(history=[repr(x) for x in ctx.log], delay=delay, counters=dict(ctx.counters))

@family("servers", quick=64, thorough=900, loop="real")
async def servers(ctx):
  """Real servers that start late, restart, drop connections; several reconnectors."""
  rng = ctx.rng
  kind = ("unix", "tcp", "ws")[ctx.index // 8 % 3]
  d = ctx.tmpdir()
  url = f"unix://{d}/s.sock" if kind == "unix" else f"{kind}://127.0.0.1:{free_port()}"
  rcs = [AutoReconnector(lambda: connect(url), delay=0.02) for _ in range(rng.randint(1, 3))]
  tasks = [asyncio.create_task(rc.run()) for rc in rcs]
  sites = []
  for i, rc in enumerate(rcs):
    s = Site(rc.switch); await s.start(100 + i, 200 + i); sites.append(s)
  server = stask = None
  hub = {}
  async def start():
    nonlocal server, stask, hub
    server = create_server(url)
    stask = asyncio.create_task(server.run())
    hub = {}
    for i in range(len(rcs)):
      s = Site(server.switch); await s.start(200 + i, 100 + i); hub[i] = s
    await asyncio.wait_for(server.wait_running(), 5)
  async def stop():
    nonlocal server, stask
    stask.cancel()
    await asyncio.wait([stask], timeout=8)
    ctx.check(stask.done(), "server-does-not-stop", lambda: f"{kind} server with {server.connection_count} connections did not end within 8s of being stopped")
    ctx.check(not server.running, "running-after-stop")
    for _ in range(300):
      if server.connection_count == 0 and not any(rc.connected for rc in rcs): break
      await asyncio.sleep(0.01)
    ctx.check(not any(rc.connected for rc in rcs), "connected-to-stopped-server", lambda: f"{[rc.connected for rc in rcs]}")
    ctx.check(server.connection_count == 0, "count-after-stop", lambda: f"{server.connection_count}")
    server = stask = None
    ctx.count("stops")
  n = 0
  async def all_up(what):
    nonlocal n
    for _ in range(600):
      if all(rc.connected for rc in rcs) and server.connection_count == len(rcs): break
      await asyncio.sleep(0.01)
    for t in tasks: ctx.check(not t.done(), "reconnector-ended", lambda: f"{what}: {t!r}")
    ctx.check(all(rc.connected for rc in rcs), "not-reconnected", lambda: f"{what}: {[rc.connected for rc in rcs]}")
    ctx.check(server.connection_count == len(rcs), "count", lambda: f"{what}: connection_count {server.connection_count}, live {len(rcs)}")
    n += 2
    for i in range(len(rcs)): await ping(ctx, sites[i], hub[i], n, asyncio.sleep, 200, f"{kind} {what}")
    ctx.count("up")
  ctx.op("kind", kind, len(rcs))
  if rng.random() < 0.6: ctx.op("late"); await asyncio.sleep(rng.choice((0.01, 0.08))); ctx.count("late_start")
  else: ctx.op("early")
  await start()
  await all_up("start")
  for step in range(rng.randint(2, 5)):
    k = rng.choice(("restart", "drop_remote", "drop_local", "visitor", "abort_visitor", "restart_gap"))
    ctx.op(k); ctx.count("fault:" + k)
    if k in ("restart", "restart_gap"):
      await stop()
      if k == "restart_gap": await asyncio.sleep(0.1)
      await start()
    elif k == "drop_remote":
      links = [l for l in server.switch.link_manager.links if type(l).__name__ == "RawConnectionLink"]
      rng.choice(links).close()
      await asyncio.sleep(0.005)
    elif k == "drop_local":
      rc = rng.choice(rcs)
      [l for l in rc.switch.link_manager.links if type(l).__name__ == "RawConnectionLink"][0].close()
      await asyncio.sleep(0.005)
    else:
      for _ in range(rng.randint(1, 6)):
        l = await connect(url)
        if k == "visitor" and rng.random() < 0.5: await asyncio.sleep(rng.choice((0, 0.001, 0.01)))
        if k == "abort_visitor" and kind != "ws": l._connection._writer.transport.abort()
        l.close()
    await all_up(f"after {k}")
  for t in tasks: t.cancel()
  await asyncio.wait(tasks, timeout=8)
  ctx.check(all(t.done() for t in tasks), "reconnector-does-not-stop")
  for _ in range(300):
    if server.connection_count == 0: break
    await asyncio.sleep(0.01)
  ctx.check(server.connection_count == 0, "count", lambda: f"all reconnectors stopped, connection_count {server.connection_count}")
  await stop()
  ctx.count("kind:" + kind)
  ctx.sigadd(tuple(map(repr, ctx.log))); ctx.nontrivial = True
  ctx.summary = dict(history=[repr(x) for x in ctx.log], counters=dict(ctx.counters))
