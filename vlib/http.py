"""Calling ASGI applications as a client would."""
import asyncio, json

def http_scope(method, path, headers=(), query=b""):
  return {"type": "http", "asgi": {"version": "3.0"}, "http_version": "1.1", "method": method, "path": path, "raw_path": path.encode("utf-8", "surrogateescape"), "query_string": query,
          "root_path": "", "scheme": "http", "headers": [(b"host", b"h"), *headers], "client": ("127.0.0.1", 1), "server": ("h", 80)}

class Response:
  def __init__(self): self.status, self.headers, self.body, self.complete = None, [], b"", False
  @property
  def ok(self): return self.status is not None and 200 <= self.status < 300
  def json(self): return json.loads(self.body)
  def __repr__(self): return f"<{self.status} {self.body[:300]!r}>"

async def call(app, method, path, body=None, timeout=600, headers=None, chunks=1):
  """body: bytes, or a JSON value."""
  if body is not None and not isinstance(body, bytes): body = json.dumps(body).encode()
  body = body or b""
  hs = list(headers or [])
  if body: hs += [(b"content-type", b"application/json"), (b"content-length", b"%d" % len(body))]
  parts = [body[i * len(body) // chunks:(i + 1) * len(body) // chunks] for i in range(chunks)]
  r, i, gone = Response(), 0, asyncio.Event()
  async def receive():
    nonlocal i
    if i < len(parts):
      i += 1
      return {"type": "http.request", "body": parts[i - 1], "more_body": i < len(parts)}
    await gone.wait()
    return {"type": "http.disconnect"}
  async def send(e):
    if e["type"] == "http.response.start": r.status, r.headers = e["status"], list(e.get("headers", []))
    elif e["type"] == "http.response.body":
      r.body += bytes(e.get("body", b""))
      if not e.get("more_body", False): r.complete = True; gone.set()
  await asyncio.wait_for(app(http_scope(method, path, hs), receive, send), timeout)
  return r

class WS:
  """One websocket connection to an ASGI app."""
  def __init__(self, app, path):
    self.inq, self.out, self.accepted, self.closed, self.error = asyncio.Queue(), [], asyncio.Event(), asyncio.Event(), None
    scope = {"type": "websocket", "asgi": {"version": "3.0"}, "http_version": "1.1", "path": path, "raw_path": path.encode(), "query_string": b"", "root_path": "", "scheme": "ws",
             "headers": [(b"host", b"h")], "client": ("127.0.0.1", 1), "server": ("h", 80), "subprotocols": []}
    self.inq.put_nowait({"type": "websocket.connect"})
    async def send(e):
      if e["type"] == "websocket.accept": self.accepted.set()
      elif e["type"] == "websocket.send": self.out.append(e.get("text") if e.get("text") is not None else e.get("bytes"))
      elif e["type"] == "websocket.close": self.closed.set()
    async def run():
      try: await app(scope, self.inq.get, send)
      except asyncio.CancelledError: raise
      except BaseException as e: self.error = e
      finally: self.closed.set()
    self.task = asyncio.create_task(run())
  def send_text(self, t): self.inq.put_nowait({"type": "websocket.receive", "text": t, "bytes": None})
  def disconnect(self): self.inq.put_nowait({"type": "websocket.disconnect", "code": 1000})
