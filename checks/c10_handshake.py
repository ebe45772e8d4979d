"""C10: only clients with the right auth and version are admitted, every time."""
import asyncio, os, socket, struct
import msgpack, websockets
import streamtasks.connection as sc
from streamtasks.connection import RawStreamConnection, connect, create_server
from streamtasks.net import ConnectionClosedError
from vlib.core import family

SYNC = bytes(RawStreamConnection.SYNC_WORD)
VERSION = sc._get_version_specifier()

def free_port():
  with socket.socket() as s: s.bind(("127.0.0.1", 0)); return s.getsockname()[1]

class Raw:
  """A hand-made client speaking the wire format, so that any handshake can be sent."""
  @classmethod
  async def open(cls, kind, where):
    self = cls(); self.kind = kind
    if kind == "ws": self.ws = await websockets.connect(where)
    elif kind == "tcp": self.r, self.w = await asyncio.open_connection("127.0.0.1", where)
    else: self.r, self.w = await asyncio.open_unix_connection(where)
    return self
  async def frame(self, data):
    if self.kind == "ws": await self.ws.send(data)
    else: self.w.write(SYNC + struct.pack("<L", len(data)) + data); await self.w.drain()
  async def raw(self, data):
    if self.kind == "ws": await self.ws.send(data.hex())   # a text frame: not part of the protocol
    else: self.w.write(data); await self.w.drain()
  async def read(self):
    """The server's handshake answer, or None when it closed without one."""
    try:
      if self.kind == "ws": return await asyncio.wait_for(self.ws.recv(), 10)
      await self.r.readexactly(4)
      n, = struct.unpack("<L", await self.r.readexactly(4))
      return await self.r.readexactly(n)
    except (EOFError, ConnectionError, websockets.ConnectionClosed): return None
  async def at_eof(self):
    try:
      if self.kind == "ws": await asyncio.wait_for(self.ws.recv(), 10); return False
      return await asyncio.wait_for(self.r.read(1), 10) == b""
    except (EOFError, ConnectionError, websockets.ConnectionClosed): return True
    except asyncio.TimeoutError: return False
  def close(self, abort=False):
    if self.kind == "ws":
      if abort: self.ws.transport.abort()
      else: self.task = asyncio.create_task(self.ws.close())
    elif abort: self.w.transport.abort()
    else: self.w.close()

ATTEMPTS = ("good", "good", "good", "wrong_auth", "no_auth", "raw_good", "raw_wrong_auth", "wrong_version", "no_version", "not_dict", "garbage", "stray_then_close", "close_now", "partial", "stall", "auth_type")

async def scenario(ctx, kind):
  rng = ctx.rng
  auth = rng.choice((None, "secret", "s3cr&t=", "x", ""))
  if auth == "": auth = None
  q = "" if auth is None else "?auth=" + auth.replace("&", "%26").replace("=", "%3D")
  extra = rng.random() < 0.3
  d = ctx.tmpdir()
  if kind == "unix": where = d + "/s.sock"; base = f"unix://{where}"
  else: where = free_port(); base = f"{kind}://127.0.0.1:{where}"
  if kind == "ws": where = base
  server = create_server(base + q + (("&" if q else "?") + "name=n" if extra else ""))
  ctx.op("server", kind, "auth", auth)
  st = asyncio.create_task(server.run())
  await asyncio.wait_for(server.wait_running(), 5)
  for _ in range(500):
    try: x = await Raw.open(kind, where); x.close(); break
    except (ConnectionError, OSError): await asyncio.sleep(0.004)
  live, raws = [], []
  bad_urls = ["?auth=wrong", "?auth=Secret", "?auth=secret%20", "?auth="]
  async def attempt(what, n):
    if rng.random() < 0.3: await asyncio.sleep(rng.choice((0, 0.001, 0.005)))
    if what in ("good", "wrong_auth", "no_auth"):
      if what == "wrong_auth" and auth is None: return
      if what == "no_auth" and auth is None: what = "good"
      u = base + {"good": q, "wrong_auth": rng.choice(bad_urls), "no_auth": ""}[what]
      try:
        link = await asyncio.wait_for(connect(u), 15)
      except (ConnectionError, ConnectionClosedError, EOFError, OSError, asyncio.TimeoutError) as e:
        ctx.check(what != "good", "valid-client-refused", lambda: f"attempt {n} on {kind} server with auth {auth!r}: {e!r}")
        ctx.count("refused"); return
      ctx.check(what == "good", "invalid-client-admitted", f"attempt {n} ({what}) url {u} on server with auth {auth!r}")
      live.append(link); ctx.count("admitted"); return
    c = await Raw.open(kind, where)
    raws.append(c)
    hello = {"version": VERSION}
    if auth is not None: hello["auth"] = auth
    expect = False
    if what == "raw_good": expect = True; await c.frame(msgpack.packb({**hello, "more": [1]}))
    elif what == "raw_wrong_auth":
      await c.frame(msgpack.packb({**hello, "auth": rng.choice(("None", "null", "", "x", 0, False, [], {}))} if auth is None else {**hello, "auth": rng.choice(("", None, "x" + auth, auth[:-1], auth.upper() if auth.upper() != auth else "q", 0, True, [auth], {"auth": auth}))}))
    elif what == "wrong_version": await c.frame(msgpack.packb({**hello, "version": rng.choice(("0.0", VERSION + ".1", "", None, 1.0, [VERSION], VERSION + " "))}))
    elif what == "no_version": hello.pop("version"); await c.frame(msgpack.packb(hello))
    elif what == "auth_type":
      if auth is None: return c.close()
      await c.frame(msgpack.packb({**hello, "auth": auth.encode()}))
    elif what == "not_dict": await c.frame(msgpack.packb(rng.choice(([1, 2], "version", 5, None, [["version", VERSION]]))))
    elif what == "garbage": await c.frame(rng.choice((b"", b"\xc1", b"\xff" * 9, b"\x81", rng.randbytes(40))))
    elif what == "stray_then_close": await c.raw(rng.randbytes(30)); c.close(); ctx.count("aborted"); return
    elif what == "close_now": c.close(abort=rng.random() < 0.5); ctx.count("aborted"); return
    elif what == "partial":
      if kind == "ws": c.close(abort=True)
      else:
        p = SYNC + struct.pack("<L", 50) + msgpack.packb(hello)
        await c.raw(p[:rng.randint(1, len(p))]); c.close(abort=rng.random() < 0.5)
      ctx.count("aborted"); return
    elif what == "stall": ctx.count("stalled"); return   # never says anything, stays open
    a = await asyncio.wait_for(c.read(), 15)
    ok = False
    if a is not None:
      ans = msgpack.unpackb(a, strict_map_key=False)
      ok = isinstance(ans, dict) and ans.get("accepted") is True
      ctx.check("auth" not in ans, "auth-disclosed", ans)
    ctx.check(ok == expect, "valid-client-refused" if expect else "invalid-client-admitted", lambda: f"attempt {n} ({what}) on {kind} server with auth {auth!r}: answer {a}")
    if expect: live.append(c); ctx.count("admitted")
    else:
      ctx.check(await c.at_eof(), "refused-not-closed", f"attempt {n} ({what})")
      ctx.count("refused")
  async def quiet(where_):
    n = -1
    for _ in range(400):
      n = (server.connection_count, len(server.switch.link_manager.links))
      if n == (len(live), len(live)): break
      await asyncio.sleep(0.01)
    await asyncio.sleep(0.01)
    n = (server.connection_count, len(server.switch.link_manager.links))
    ctx.check(n == (len(live), len(live)), "count", lambda: f"{where_}: connection_count, attached links = {n}, live admitted clients {len(live)}")
    ctx.count("counts")
  n = 0
  for rnd in range(rng.randint(2, 5)):
    batch = [rng.choice(ATTEMPTS) for _ in range(rng.choice((1, 1, 2, 4, 7)))]
    ctx.op("batch", batch)
    res = await asyncio.gather(*(attempt(w, n + i) for i, w in enumerate(batch)), return_exceptions=True)
    for r in res:
      if isinstance(r, BaseException): raise r
    n += len(batch)
    await quiet(f"after batch {batch}")
    if live and rng.random() < 0.5:
      x = live.pop(rng.randrange(len(live)))
      ctx.op("leave"); x.close(); await quiet("after a client left"); ctx.count("left")
  await attempt("good", n)   # whatever happened before, a valid client still gets in
  await quiet("final")
  ctx.count("kind:" + kind)
  ctx.sigadd(tuple(map(repr, ctx.log))); ctx.nontrivial = True
  ctx.summary = dict(history=[repr(x) for x in ctx.log], counters=dict(ctx.counters))
  for x in live + raws: x.close()
  st.cancel()
  await asyncio.wait([st], timeout=2)

def fam(kind, quick, thorough):
  @family(kind, quick, thorough, loop="real")
  async def _(ctx): await scenario(ctx, kind)
fam("unix", 120, 1500)
fam("tcp", 120, 1500)
fam("ws", 60, 800)
