"""C20: files and bodies are transferred byte for byte, and no path leads out of the static root."""
import asyncio, base64, json, mimetypes, os, string
from urllib.parse import quote_from_bytes
from streamtasks.asgiserver import ASGIServer, HTTPContext, WebsocketContext, decode_data_uri, http_context_handler, static_content_handler, static_file_handler, static_files_handler, websocket_context_handler
from vlib.core import family
from vlib import values

def scope_of(path, typ="http", headers=(), method="GET"):
  s = {"type": typ, "path": path, "raw_path": None, "query_string": b"", "headers": list(headers), "root_path": ""}
  if typ == "http": s["method"] = method
  return s

async def request(app, path, chunks=(b"",), headers=(), method="GET", limit=60, disconnect=False):
  sent, i = [], 0
  async def receive():
    nonlocal i
    i += 1
    if i > len(chunks): return {"type": "http.disconnect"}
    e = {"type": "http.request", "body": chunks[i - 1], "more_body": i < len(chunks) or disconnect}
    if e["body"] == b"" and path.endswith("b"): del e["body"]
    return e
  async def send(e): sent.append({**e})
  await asyncio.wait_for(app(scope_of(path, headers=headers, method=method), receive, send), limit)
  return sent

def judge(ctx, sent, status, body, what, mime=None):
  """One start, then bodies of which exactly the last one is final."""
  ctx.check(len(sent) >= 2 and sent[0]["type"] == "http.response.start" and all(e["type"] == "http.response.body" for e in sent[1:]), "malformed-response", lambda: (what, sent[:3]))
  ctx.check(sent[0]["status"] == status, "wrong-status", lambda: (what, sent[0], status))
  more = [bool(e.get("more_body")) for e in sent[1:]]
  ctx.check(more == [True] * (len(more) - 1) + [False], "not-one-final-body", lambda: (what, more[-5:]))
  got = b"".join(bytes(e["body"]) for e in sent[1:])
  h = {bytes(k).lower(): bytes(v) for k, v in sent[0]["headers"]}
  ctx.check(len(h) == len(list(sent[0]["headers"])), "duplicate-header", lambda: (what, sent[0]))
  if body is not None: ctx.check(got == body, "bytes-differ", lambda: (what, len(got), len(body), got[:60], body[:60]))
  if b"content-length" in h: ctx.check(h[b"content-length"] == str(len(got)).encode(), "wrong-content-length", lambda: (what, h, len(got)))
  elif body is not None and status == 200: ctx.check("stream" in str(what), "no-content-length", lambda: (what, h))
  if mime is not None: ctx.check(h[b"content-type"].decode().split(";")[0] == mime, "wrong-content-type", lambda: (what, h, mime))
  ctx.count(f"status:{status}")
  return got, h

NAMES = ("a.txt", "b.html", "index.html", "index.txt", "c d.css", "ä.json", "..x.txt", "e..", "noext", "x.unknownext", ".hidden", "sub", "dir2", "%2e%2e", "q?x.js", "root", "...", "-", "a\\b.txt", "x.tar.gz", "mod.wasm", "e.map")

def make_tree(ctx, rng, tmp):
  """root/ with files, sub directories and links; outside it files that must never be shown."""
  secrets, files = {}, {}
  root = os.path.join(tmp, rng.choice(("root", "r", "www.txt")))
  def secret(p):
    b = b"SECRET-" + rng.randbytes(12).hex().encode()
    os.makedirs(os.path.dirname(p), exist_ok=True)
    with open(p, "wb") as f: f.write(b)
    secrets[p] = b
  secret(os.path.join(tmp, "outside", "s.txt")); secret(os.path.join(tmp, "outside", "index.html")); secret(os.path.join(tmp, "outside", "deep", "t.html"))
  secret(root + "2/a.txt"); secret(os.path.join(tmp, "index.html")); secret(os.path.join(tmp, "b.html"))
  def fill(d, depth):
    os.makedirs(d, exist_ok=True)
    for n in rng.sample(NAMES, rng.randint(1, 7)):
      p = os.path.join(d, n)
      if os.path.lexists(p): continue
      k = rng.random()
      if k < 0.55:
        b = rng.randbytes(rng.choice((0, 1, 2, 3, 6, 7, 8, 21, 100, 1000, 5000)))
        with open(p, "wb") as f: f.write(b)
        files[p] = b
      elif k < 0.72 and depth < 3: fill(p, depth + 1)
      elif k < 0.76: os.symlink(os.path.join(tmp, "outside", "s.txt"), p)
      elif k < 0.79: os.symlink(os.path.join(tmp, "outside"), p)
      elif k < 0.82: os.symlink(os.path.join("..", "..", "..", "outside") if rng.random() < 0.5 else "..", p)
      elif k < 0.85: os.symlink(p, p)
      elif k < 0.88: os.symlink(os.path.join(tmp, "outside", "index.html"), p)
      elif k < 0.93 and files: os.symlink(rng.choice(list(files)), p)
      elif k < 0.96: os.symlink(root, p)
      elif k < 0.98: os.symlink("gone", p)
      else: os.mkfifo(p)
  fill(root, 0)
  return root, secrets, files

def gen_path(rng, tmp, root, files):
  k = rng.random()
  entries = [os.path.join(d, n) for d, ds, fs in os.walk(root) for n in (*ds, *fs, "")]
  p = "/" + os.path.relpath(rng.choice(entries), root) if entries and k < 0.8 else "/" + "/".join(rng.choice(NAMES + ("..", ".", "", "outside")) for _ in range(rng.randint(0, 4)))
  for _ in range(rng.choice((0, 0, 0, 1, 1, 2))):
    i = rng.randrange(len(p) + 1)
    p = rng.choice((lambda: p + "/..", lambda: p + "/../outside/s.txt", lambda: "/.." + p, lambda: p + "/", lambda: p.replace("/", "//", 1), lambda: p + "\0", lambda: p + "/index.html", lambda: p[:i] + "\0" + p[i:],
      lambda: "\\" + p, lambda: "/" + os.path.join(tmp, "outside", "s.txt"), lambda: os.path.join(tmp, "outside", "s.txt"), lambda: p + "/" + "n" * 300, lambda: "/" + "x/" * 3000, lambda: "/../" + os.path.basename(root) + "2/a.txt",
      lambda: p + "/../../" + os.path.basename(root) + p, lambda: "/./" + p, lambda: p + "\udc80", lambda: p.replace("/", "\\"), lambda: "/%2e%2e/outside/s.txt", lambda: p + "/../../../../../../../.." + tmp + "/outside/s.txt", lambda: "", lambda: p + "?x", lambda: "/~" + p, lambda: p + "/sub/b.html"))()
  return p

@family("static", quick=700, thorough=40000)
async def static(ctx):
  rng = ctx.rng
  tmp = ctx.tmpdir()
  root, secrets, files = make_tree(ctx, rng, tmp)
  real_root = os.path.realpath(root)
  index = rng.choice((["index.html"], ["index.txt", "index.html"], [], ["a.txt", "index.html"], ["sub", "b.html"], ["index.html"]))
  size = rng.choice((1, 2, 3, 7, 64, 1000, 1_000_000, -1, 0))
  app = ASGIServer()
  link = None
  if rng.random() < 0.2: link = os.path.join(tmp, "linked"); os.symlink(root, link)
  app.add_handler(static_files_handler(link or root, (x for x in index) if rng.random() < 0.3 else index, **({} if rng.random() < 0.1 else dict(response_buffer_size=size))))
  for _ in range(rng.randint(5, 25)):
    path = gen_path(rng, tmp, root, files)
    def target():
      try: t = os.path.realpath(os.path.join(real_root, path.lstrip("/\\")))
      except (ValueError, OSError): return None
      inside = lambda x: x == real_root or x.startswith(real_root + os.sep)
      if not inside(t): return None
      if os.path.isdir(t):
        for n in index:
          c = os.path.realpath(os.path.join(t, n))
          if inside(c) and os.path.isfile(c): return c
        return None
      return t if os.path.isfile(t) else None
    t = target()
    sent = await request(app, path)
    body = b"".join(bytes(e.get("body", b"")) for e in sent)
    for p, s in secrets.items(): ctx.check(s not in body, "file-outside-root-returned", lambda: (path, p, index))
    if t is None: judge(ctx, sent, 404, None, (path, index))
    else:
      with open(t, "rb") as f: want = f.read()
      judge(ctx, sent, 200, want, (path, t, size), mimetypes.guess_type(t)[0] or "application/octet-stream")
      if 0 < size < len(want): ctx.count("multi_buffer")
    if ".." in path: ctx.count("dotdot")
    ctx.sigadd(path.replace(tmp, ""), t is None)
  # a file as the root
  if files:
    f, b = rng.choice(list(files.items()))
    for h in (static_files_handler(f, []), static_file_handler(f, response_buffer_size=size)):
      judge(ctx, await request(h, rng.choice(("/", "/x/../y", ""))), 200, b, (f, size), mimetypes.guess_type(f)[0] or "application/octet-stream")
  # sizes around the buffer size
  n = rng.choice((1, 2, 3, 5, 16, 1000))
  for extra in (-1, 0, 1):
    b = rng.randbytes(max(0, n * rng.randint(0, 4) + extra))
    p = os.path.join(tmp, "sized.bin")
    with open(p, "wb") as fd: fd.write(b)
    sent = await request(static_file_handler(p, response_buffer_size=n), "/")
    judge(ctx, sent, 200, b, ("sized", n, len(b)), "application/octet-stream")
    ctx.check(all(len(e["body"]) <= n for e in sent[1:]), "buffer-size-ignored", (n, len(b)))
  ctx.nontrivial = True
  ctx.summary = dict(index=index, size=size, files=len(files))

CHARSETS = ("utf-8", "UTF-8", "latin-1", "utf-16", "ascii", "cp1252")

@family("bodies", quick=3000, thorough=200000)
async def bodies(ctx):
  rng = ctx.rng
  async def go(fn, **kw):
    app = ASGIServer()
    app.add_handler(http_context_handler(fn))
    return await request(app, rng.choice(("/a", "/b")), **kw)
  body = rng.randbytes(rng.choice((0, 1, 2, 100, 3000)))
  chunks, i = [], 0
  while i < len(body):
    n = rng.choice((0, 1, 3, 50, 5000)); chunks.append(body[i:i + n]); i += n
  chunks = chunks + [b""] * rng.randrange(3) or [b""]
  got = []
  mode = rng.choice(("all", "read", "mixed"))
  async def read(c):
    if mode == "all": got.append(await c.body.read_all())
    else:
      b = b""
      while not c.body.ended:
        b += await (c.body.read_all() if mode == "mixed" and rng.random() < 0.3 else c.body.read())
      got.append(b)
    ctx.check(not c.more_request_body, "more-body-expected", mode)
    ctx.check(await c.body.read_all() == b"", "read-after-end", mode)
    await c.respond_buffer(200, got[0], "x/y")
  sent = await go(read, chunks=chunks)
  ctx.check(got == [body], "request-body-differs", lambda: (mode, len(got[0]), len(body)))
  judge(ctx, sent, 200, body, "echo", "x/y")
  ctx.count("request_chunks", len(chunks))
  # a streamed response
  parts = [rng.randbytes(rng.choice((0, 1, 10, 1000))) for _ in range(rng.randrange(6))]
  async def stream(c):
    w = await c.respond(200, rng.choice(([], [(b"a", b"b")], ((b"a", b"b"),))))
    for p in parts:
      w.write(p)
      if rng.random() < 0.5: await w.flush()
    await w.close()
  judge(ctx, await go(stream), 200, b"".join(parts), "stream")
  # texts and json
  t = "".join(values.text(rng) for _ in range(3))
  charset = rng.choice(CHARSETS)
  enc = t.encode(charset, "ignore"); dec = enc.decode(charset)
  ct = rng.choice((f"text/plain; charset={charset}", f"Text/Plain;charset={charset}", f"text/plain ; x=1; Charset={charset} "))
  res = []
  async def text(c):
    res.append(await c.receive_text({"text/plain"}))
    await c.respond_text(res[0])
  cut = rng.randrange(len(enc) + 1)
  judge(ctx, await go(text, chunks=[enc[:cut], enc[cut:]], headers=[(rng.choice((b"content-type", b"Content-Type")), ct.encode())]), 200, dec.encode(), ("text", ct), "text/plain")
  ctx.check(res == [dec], "text-differs", lambda: (charset, res, dec))
  j = values.plain(values.top(rng, int_keys=False))
  def jsonable(v):
    if isinstance(v, bytes): return v.hex()
    if isinstance(v, list): return [jsonable(x) for x in v]
    if isinstance(v, dict): return {k: jsonable(x) for k, x in v.items() if isinstance(k, str)}
    return v
  j = jsonable(j)
  async def js(c): await c.respond_json(await c.receive_json())
  sent = await go(js, chunks=[json.dumps(j).encode()], headers=[(b"content-type", b"application/json")])
  b, _ = judge(ctx, sent, 200, None, "json", "application/json")
  ctx.check(values.canon(json.loads(b)) == values.canon(json.loads(json.dumps(j))), "json-differs", lambda: (j, b))
  # refused content types
  sent = await go(js, chunks=[b"{}"], headers=rng.choice(([], [(b"content-type", b"text/plain")], [(b"content-type", b"application/json")] * 2, [(b"content-type", b"application/json; charset=nope")])))
  judge(ctx, sent, 500, None, "refused")
  # fixed content
  cs = rng.choice((None, "utf-8"))
  judge(ctx, await request(static_content_handler(body, "a/b", cs), "/"), 200, body, "content", "a/b")
  # a client that goes away while sending
  got2 = []
  async def partial(c):
    got2.append(await c.body.read_all()); ctx.check(not c.connected, "disconnect-missed")
  await go(partial, chunks=chunks, disconnect=True)
  ctx.check(got2 == [body], "partial-body-differs", lambda: (got2, body))
  ctx.sigadd(len(body), tuple(map(len, chunks))[:20], charset); ctx.nontrivial = True

@family("websocket", quick=2000, thorough=100000)
async def websocket(ctx):
  rng = ctx.rng
  msgs = [rng.choice((lambda: values.text(rng), lambda: rng.randbytes(rng.choice((0, 1, 50, 3000))), lambda: "", lambda: b""))() for _ in range(rng.randrange(8))]
  evs = [{"type": "websocket.connect"}]
  for m in msgs:
    e = {"type": "websocket.receive"}
    k = rng.random()
    if isinstance(m, str): e["text"] = m
    else: e["bytes"] = m
    if k < 0.5: e["bytes" if isinstance(m, str) else "text"] = None
    evs.append(e)
  evs.append({"type": "websocket.disconnect", "code": 1001})
  sent, got, i = [], [], 0
  async def receive():
    nonlocal i
    i += 1
    return evs[i - 1]
  async def send(e): sent.append(e)
  how = rng.choice(("messages", "receive"))
  @websocket_context_handler
  async def app(c):
    if how == "messages":
      async for m in c.messages(headers=[(b"X-A", b"1")], subprotocol="p"): got.append(m); await c.send_message(m)
    else:
      await c.accept([(b"X-A", b"1")], "p")
      while True:
        k, m = await c.receive()
        if k == "disconnect": break
        got.append(m); await c.send_message(m)
    ctx.check(not c.connected, "disconnect-missed")
  await asyncio.wait_for(app(scope_of("/", "websocket"), receive, send), 60)
  ctx.check([(type(m), m) for m in got] == [(type(m), m) for m in msgs], "messages-differ", lambda: (how, got, msgs))
  ctx.check(sent[0] == {"type": "websocket.accept", "subprotocol": "p", "headers": [(b"x-a", b"1")]}, "wrong-accept", lambda: sent[0])
  out = [e["bytes"] if e["bytes"] is not None else e["text"] for e in sent[1:]]
  ctx.check([(type(m), m) for m in out] == [(type(m), m) for m in msgs], "sent-messages-differ", lambda: (out, msgs))
  ctx.count("ws_messages", len(msgs)); ctx.sigadd(how, tuple(len(m) for m in msgs)); ctx.nontrivial = bool(msgs)

@family("data_uri", quick=5000, thorough=300000, loop="sync")
def data_uri(ctx):
  rng = ctx.rng
  data = rng.choice((lambda: rng.randbytes(rng.choice((0, 1, 2, 3, 50, 300))), lambda: "".join(values.text(rng) for _ in range(2)).encode("utf-8"), lambda: b"a+b c%20%zz,;=&?#/"))()
  mime = rng.choice(("", "text/plain", "image/png", "application/x+y", "Text/HTML"))
  charset = rng.choice((None, None, "utf-8", "latin-1"))
  b64 = rng.random() < 0.5
  meta = mime + (f";charset={charset}" if charset else "") + (";base64" if b64 else "")
  enc = base64.b64encode(data).decode() if b64 else quote_from_bytes(data, safe=rng.choice(("/", "", "+/?&=;,:@!$'()*~", "+")))
  got, m, c = decode_data_uri(f"data:{meta},{enc}", *([("d/t", "d/b")] if rng.random() < 0.3 else []))
  ctx.check(got == data, "data-uri-bytes-differ", lambda: (meta, enc, got, data))
  if mime: ctx.check(m == mime.lower(), "wrong-mime", lambda: (meta, m))
  else: ctx.check(m in (("application/octet-stream", "d/b") if b64 else ("text/plain", "d/t")), "wrong-mime", lambda: (meta, m))
  if charset: ctx.check(c == charset, "wrong-charset", lambda: (meta, c))
  ctx.count("b64" if b64 else "percent"); ctx.sigadd(meta, len(data)); ctx.nontrivial = True
  for bad in ("", "data", "http://x", "xdata:,a"):
    try: decode_data_uri(bad)
    except ValueError: ctx.count("refused_uris")
    else: ctx.fail("malformed-uri-accepted", bad)
