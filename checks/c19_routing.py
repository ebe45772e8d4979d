"""C19: a request is handled by the first route that matches its whole path, and answered exactly once."""
import asyncio
from pydantic import BaseModel
from streamtasks.asgi import asgi_default_http_error_handler
from streamtasks.asgiserver import (ASGIRouter, ASGIServer, HTTPContext, NoHandlerError, PathPattern, TransportContext, WebsocketContext, http_context_handler,
  path_rewrite, transport_context_handler, websocket_context_handler)
from streamtasks.client.fetch import FetchError, new_fetch_body_bad_request, new_fetch_body_general_error, new_fetch_body_not_found
from vlib.core import family

LITERALS = ("a", "b", "ab", "api", ".", "-", "x.y", "ä", "a+b", "(c)", "a b", "[z]", "^$", "A", "\n", "%41", "*")
NAMES = ("id", "name", "p", "x1", "_u", "")

def gen_pattern(rng):
  """list of parts: str literal or (name, allow_slash); the text is the joined form"""
  parts, prev_param = [], False
  names = list(NAMES)
  for _ in range(rng.randint(1, 4)):
    seg = "/"
    if prev_param and rng.random() < 0.15: seg = ""
    if seg: parts.append(seg)
    for _ in range(rng.choice((1, 1, 1, 2, 3))):
      if rng.random() < 0.45:
        n = names.pop(rng.randrange(len(names))) if names and rng.random() < 0.9 else rng.choice(NAMES)
        if n and any(isinstance(x, tuple) and x[0] == n for x in parts): n = ""
        parts.append((n or None, rng.random() < 0.25))
        prev_param = True
      else: parts.append(rng.choice(LITERALS)); prev_param = False
  if rng.random() < 0.05: parts = ["/"]
  merged = []
  for p in parts:
    if isinstance(p, str) and merged and isinstance(merged[-1], str): merged[-1] += p
    else: merged.append(p)
  return merged

def text_of(parts): return "".join(p if isinstance(p, str) else "{" + (p[0] or "") + ("*" if p[1] else "") + "}" for p in parts)

def assignments(parts, path, limit=2000):
  """All values of the parameters under which the pattern reads as the path (independent of the implementation)."""
  n = [0]
  def go(i, pos):
    n[0] += 1
    if n[0] > limit: return
    if i == len(parts):
      if pos == len(path): yield ()
      return
    p = parts[i]
    if isinstance(p, str):
      if path.startswith(p, pos): yield from go(i + 1, pos + len(p))
      return
    for e in range(pos, len(path) + 1):
      if not p[1] and "/" in path[pos:e]: break
      for r in go(i + 1, e): yield (path[pos:e], *r)
  return list(go(0, 0)), n[0] <= limit

def fill(rng, parts, clean=False):
  out, vals = "", []
  for p in parts:
    if isinstance(p, str): out += p; continue
    alphabet = ("q", "w", "77", "Q_") if clean else ("q", "a", "b", "ab", ".", "-", "x.y", "77", "", "ä", "\n", "{", "}")
    v = "".join(rng.choice(alphabet) for _ in range(rng.randint(1, 3) if clean else rng.randrange(4)))
    if p[1] and rng.random() < 0.6: v += "/" + rng.choice(("", "q", "q/w", "ab"))
    vals.append(v); out += v
  return out, vals

def mutate(rng, path):
  k = rng.randrange(7)
  i = rng.randrange(len(path) + 1)
  if k == 0: return path + rng.choice(("/", "x", "/x", "/a", "/a/b"))
  if k == 1: return path[:-1]
  if k == 2: return path[:i] + "/" + path[i:]
  if k == 3: return path[:i] + path[i + 1:]
  if k == 4: return path[:i] + rng.choice("ab.-/x") + path[i:]
  if k == 5: return "/x" + path
  return path.swapcase()

@family("patterns", quick=24000, thorough=1500000, loop="sync")
def patterns(ctx):
  rng = ctx.rng
  parts = gen_pattern(rng)
  txt = text_of(parts)
  if txt.endswith("/") and txt != "/": parts = parts[:-1] + ([parts[-1].rstrip("/")] if parts[-1].rstrip("/") else []); txt = text_of(parts)
  if not parts: return
  try: pat = PathPattern(txt)
  except ValueError as e: ctx.fail("pattern-refused", (txt, e))
  for _ in range(rng.randint(2, 6)):
    path, vals = fill(rng, parts)
    for _ in range(rng.choice((0, 0, 1, 1, 2))): path = mutate(rng, path)
    want, complete = assignments(parts, path)
    if not complete: continue
    got = pat.match(path)
    names = [p[0] for p in parts if not isinstance(p, str)]
    ctx.count("matches" if want else "rejections")
    if not want: ctx.check(got is None, "matches-other-path", lambda: (txt, path, got)); continue
    ctx.check(got is not None, "does-not-match", lambda: (txt, path, want[:3]))
    ok = [dict((n, v) for n, v in zip(names, w) if n is not None) for w in want]
    ctx.check(got in ok, "wrong-parameters", lambda: (txt, path, got, ok[:4]))
    if len(names) > 1: ctx.count("multi_params")
    # a path built from parameters matches again
    if all(names):
      built = pat.construct(got)
      ctx.check(built == path, "built-path-differs", lambda: (txt, got, built, path))
      ctx.check(pat.match(built) == got, "built-path-not-matched", lambda: (txt, got, built))
      ctx.count("rebuilt")
  path, vals = fill(rng, parts, clean=True)
  names = [p[0] for p in parts if not isinstance(p, str)]
  if all(names) and len(names):
    p = dict(zip(names, vals))
    built = pat.construct(p)
    ctx.check(built == path, "built-path-differs", lambda: (txt, p, built, path))
    w, complete = assignments(parts, path)
    if complete and len(w) == 1: ctx.check(pat.match(built) == p, "parameters-not-returned", lambda: (txt, p, pat.match(built))); ctx.count("unique_roundtrips")
    slashed = [n for n, q in ((x[0], x[1]) for x in parts if not isinstance(x, str)) if not q]
    if slashed:
      try: r = pat.construct({**p, slashed[0]: "a/b"})
      except ValueError: ctx.count("slash_refused")
      else: ctx.fail("slash-accepted", (txt, r))
    if len(p) and rng.random() < 0.3:
      try: pat.construct({k: v for k, v in p.items() if k != names[0]})
      except ValueError: ctx.count("missing_refused")
      else: ctx.fail("missing-accepted", txt)
      ctx.check(pat.construct({k: v for k, v in p.items() if k != names[0]}, default_value="dd") == pat.construct({**p, names[0]: "dd"}), "default-ignored", txt)
  ctx.sigadd(txt); ctx.nontrivial = True
  ctx.summary = txt

class Inner(BaseModel):
  number: int
class Odd(BaseException): pass

def validation():
  Inner.model_validate({"number": "x"})
def r(e):
  def f(): raise e
  return f
ERRORS = {"value": (lambda: r(ValueError("v"))(), 400), "validation": (validation, 400), "unicode": (lambda: b"\xff".decode(), 400), "key": (lambda: {}["k"], 404), "index": (lambda: [][0], 500),
          "fetch_nf": (lambda: r(FetchError(new_fetch_body_not_found("m")))(), 404), "fetch_bad": (lambda: r(FetchError(new_fetch_body_bad_request("m")))(), 400),
          "fetch_gen": (lambda: r(FetchError(new_fetch_body_general_error("m")))(), 500), "fetch_odd": (lambda: r(FetchError("text"))(), 500), "fetch_none": (lambda: r(FetchError(None))(), 500),
          "runtime": (lambda: r(RuntimeError("r"))(), 500), "base": (lambda: r(Odd())(), 500), "zero": (lambda: 1 / 0, 500), "type": (lambda: None + 1, 500)}

class Passed(Exception): pass

class Model:
  """What a tree of handlers does with a request: returns an outcome tuple or raises Passed/Failed."""

class Failed(Exception):
  def __init__(self, kind, started): self.kind, self.started = kind, started

def build(ctx, rng, depth, stack, calls, counter):
  """Adds random handlers to a real stack and returns their description for the model."""
  desc = []
  for _ in range(rng.randint(0 if depth else 1, 5)):
    k = rng.random()
    counter[0] += 1
    hid = counter[0]
    if k < 0.62:
      parts = rng.choice((gen_pattern(rng), gen_pattern(rng), ["/", ("id", False)], ["/a/", ("p", True)], ["/a"], ["/", ("p", True)], ["/a/", ("id", False), "/b"], ["/", ("x", False), "/", ("y", False)]))
      t = text_of(parts)
      if t.endswith("/") and t != "/": parts = ["/a/", ("id", False)]; t = text_of(parts)
      typ = rng.choice(("http", "http", "http", "websocket", "transport"))
      methods = rng.sample(("get", "POST", "Put", "DELETE", "patch"), rng.randint(1, 3))
      mode = rng.choice(("respond", "respond", "respond", "slow", "error", "error_started", "pass", "read_body"))
      err = rng.choice(list(ERRORS))
      if depth < 2 and rng.random() < 0.15:
        # the route leads to a router of its own
        mode, h = "router", ASGIRouter()
        parts = rng.choice((["/", ("p", True)], ["/", ("p", True)], ["/", ("id", False), "/", ("rest", True)], ["/a/", ("q", True)], ["/", (None, True), "/b"]))
        t = text_of(parts)
        err = build(ctx, rng, depth + 1, h, calls, counter)
      else: h = leaf(ctx, rng, hid, mode, err, calls)
      rw = None
      if typ != "websocket" and rng.random() < 0.12:
        rw = rng.choice((["/new/", ("id", True)], ["/r/", ("p", False)]))
        h = path_rewrite(h, text_of(rw), default_param_value="dflt")
      if typ == "http": stack.add_http_route(h, t, methods)
      elif typ == "websocket": stack.add_websocket_route(h, t)
      else: stack.add_transport_route(h, t)
      desc.append(("route", hid, typ, parts, [m.upper() for m in methods], mode, err, rw))
    elif k < 0.8:
      mode = rng.choice(("pass", "pass", "headers", "state", "recover", "twice"))
      stack.add_handler(middleware(ctx, hid, mode, calls))
      desc.append(("mw", hid, mode))
    elif k < 0.88:
      stack.add_handler(asgi_default_http_error_handler); desc.append(("errors",))
    elif depth < 2:
      sub = ASGIRouter()
      d = build(ctx, rng, depth + 1, sub, calls, counter)
      stack.add_handler(sub); desc.append(("stack", d))
  return desc

def leaf(ctx, rng, hid, mode, err, calls):
  @transport_context_handler
  async def handler(c: TransportContext):
    rid = c.scope["x-rid"]
    before = dict(c.params)
    calls[rid].append((hid, before, c.path))
    if mode == "slow": await asyncio.sleep(rng.choice((0, 0.01, 0.2)))
    ctx.check(c.params == before, "parameters-changed", lambda: (rid, hid, before, c.params))
    if mode == "pass": await c.next(); return
    if mode == "error": ERRORS[err][0]()
    if isinstance(c, HTTPContext):
      if mode == "read_body":
        await c.respond_text((await c.body.read_all()).decode() + f"|{hid}"); return
      if mode == "error_started":
        w = await c.respond(207, [(b"x-h", str(hid).encode())])
        if rng.random() < 0.5: w.write(b"part"); await w.flush()
        ERRORS[err][0]()
      await c.respond_text(str(hid), status=203)
    elif isinstance(c, WebsocketContext):
      await c.accept()
      if mode == "error_started": await c.close(1003); ERRORS[err][0]()
      await c.send_message(str(hid))
      await c.close(1001)
  return handler

def middleware(ctx, hid, mode, calls):
  async def handler(scope, receive, send):
    @transport_context_handler
    async def run(c):
      rid = c.scope["x-rid"]
      calls[rid].append((hid, dict(c.params), c.path))
      if mode == "headers" and isinstance(c, HTTPContext): c.add_response_headers([(b"x-mw", str(hid).encode())])
      if mode == "state":
        s = {**c.scope}
        s["state"] = {**s.get("state", {}), "mw": hid}
        await c.next(s); return
      if mode in ("recover", "twice"):
        p = dict(c.params)
        try: await c.next()
        except NoHandlerError:
          ctx.check(c.params == p, "parameters-leaked", lambda: (rid, hid, p, c.params))
          if mode == "twice": await c.next(); return
          if isinstance(c, HTTPContext): await c.respond_text(f"r{hid}", status=299)
          else: await c.close(1012)
        return
      await c.next()
    await run(scope, receive, send)
  return handler

def expect(desc, req, first=True):
  """Model: returns ('http', status, hid) / ('ws', code, accepted) or raises Passed / Failed(kind)."""
  trace = req["trace"]
  def stack(items, params, path):
    if not items: raise Passed()
    it, rest = items[0], items[1:]
    nxt = lambda: stack(rest, params, path)
    if it[0] == "stack": return stack(it[1], params, path)
    if it[0] == "errors":
      if req["type"] != "http": return nxt()
      try: return nxt()
      except Failed as f:
        if f.started: raise
        return ("http", ERRORS[f.kind][1], None)
    if it[0] == "mw":
      trace.append((it[1], params, path))
      if it[2] in ("recover", "twice"):
        try: return nxt()
        except Passed:
          if it[2] == "twice": return nxt()
          return ("http", 299, f"r{it[1]}") if req["type"] == "http" else ("ws", 1012, None)
      return nxt()
    _, hid, typ, parts, methods, mode, err, rw = it
    if typ == "http" and req["type"] != "http" or typ == "websocket" and req["type"] != "websocket": return nxt()
    if typ == "http" and req["method"] not in methods: return nxt()
    w, complete = assignments(parts, path)
    if not complete: raise Unclear()
    if not w: return nxt()
    names = [p[0] for p in parts if not isinstance(p, str)]
    alts = [dict((n, v) for n, v in zip(names, x) if n is not None) for x in w]
    p2 = path
    if rw:
      # the parameter values are the handler's; any valid assignment may be used
      name = rw[1][0]
      vals = [a.get(name, "dflt") for a in alts]
      if not rw[1][1]:
        if any("/" in v for v in vals) and not all("/" in v for v in vals): raise Unclear()
        if all("/" in v for v in vals): raise Failed("value", False)
      p2 = ("rewritten", [rw[0] + v for v in vals])
    if mode == "router":
      if rw and len(set(p2[1])) != 1: raise Unclear()
      req["nested"] = True
      return stack(err, alts, p2[1][0] if rw else p2)
    trace.append((hid, alts, p2))
    if mode == "pass": raise Passed()
    if mode == "error": raise Failed(err, False)
    if mode == "error_started":
      req["partial"] = ("http", 207, hid) if req["type"] == "http" else ("ws", 1003, hid)
      raise Failed(err, True)
    if req["type"] == "http": return ("http", 200 if mode == "read_body" else 203, hid)
    return ("ws", 1001, hid)
  return stack(desc, {}, req["path"])

class Unclear(Exception): pass

@family("requests", quick=4000, thorough=100000)
async def requests(ctx):
  rng = ctx.rng
  calls = {}
  server = ASGIServer()
  desc = build(ctx, rng, 0, Adder(server), calls, [0])
  all_parts = []
  def collect(d):
    for it in d:
      if it[0] == "route":
        all_parts.append(it[3])
        if it[5] == "router": collect(it[6])
      elif it[0] == "stack": collect(it[1])
  collect(desc)
  ctx.op("handlers", desc)
  shared_state = {"app": 1}
  async def one(rid):
    parts = rng.choice(all_parts) if all_parts else ["/a"]
    path = fill(rng, parts, clean=rng.random() < 0.4)[0]
    if rng.random() < 0.3: path = mutate(rng, path)
    if rng.random() < 0.1: path = rng.choice(("/", "", "/a", "/a/q/b", "/q/w", "//", "/a/"))
    typ = rng.choice(("http", "http", "http", "websocket"))
    chunks = [str(rng.randrange(10**rng.choice((1, 6)))).encode() for _ in range(rng.randint(1, 4))]
    req = dict(type=typ, path=path, method=rng.choice(("GET", "POST", "PUT", "DELETE", "PATCH")), trace=[])
    scope = {"type": typ, "path": path, "raw_path": path.encode(), "query_string": b"", "headers": [], "x-rid": rid, "root_path": ""}
    if typ == "http": scope["method"] = req["method"]
    st = rng.choice((None, shared_state, {}))
    if st is not None: scope["state"] = st
    calls[rid] = []
    sent, i = [], 0
    async def receive():
      nonlocal i
      if rng.random() < 0.3: await asyncio.sleep(0.001)
      if typ == "websocket":
        i += 1
        return {"type": "websocket.connect"} if i == 1 else {"type": "websocket.disconnect", "code": 1000}
      i += 1
      if i > len(chunks): return {"type": "http.disconnect"}
      return {"type": "http.request", "body": chunks[i - 1], "more_body": i < len(chunks)}
    async def send(e): sent.append(e)
    err = None
    try: await asyncio.wait_for(server(scope, receive, send), 100)
    except asyncio.TimeoutError: ctx.fail("request-not-answered", (path, typ))
    except BaseException as e: err = e
    try:
      try: want = expect(desc, req)
      except Passed: want = ("http", 404, None) if typ == "http" else ("ws", 1000, None)
      except Failed as f:
        want = req["partial"] if f.started else ("http", 500, None) if typ == "http" else ("ws", 1011, None)
    except Unclear: return
    info = lambda: dict(path=path, type=typ, method=req["method"], want=want, sent=sent, calls=calls[rid], trace=req["trace"], err=repr(err), desc=desc)
    # the handlers called, in order, with their parameters
    got = calls[rid]
    ctx.check(len(got) == len(req["trace"]) and all(g[0] == w[0] for g, w in zip(got, req["trace"])), "wrong-handlers", info)
    for g, w in zip(got, req["trace"]):
      ctx.check(g[1] in w[1] if isinstance(w[1], list) else g[1] == w[1], "wrong-parameters", info)
      ctx.check(g[2] in w[2][1] if isinstance(w[2], tuple) else g[2] == w[2], "wrong-path", info)
    ctx.count("type:" + typ)
    if req.get("nested"): ctx.count("nested_routes")
    if typ == "http":
      starts = [e for e in sent if e["type"] == "http.response.start"]
      ctx.check(len(starts) == 1, "not-one-response-start", info)
      ctx.check(sent[0] is starts[0] and starts[0]["status"] == want[1], "wrong-status", info)
      bodies = [e for e in sent if e["type"] == "http.response.body"]
      body = b"".join(e["body"] for e in bodies)
      if want[1] in (200, 203, 299):
        ctx.check(sum(1 for e in bodies if not e.get("more_body")) == 1 and not bodies[-1].get("more_body"), "response-not-ended-once", info)
        exp = b"".join(chunks).decode() + f"|{want[2]}" if want[1] == 200 else str(want[2])
        ctx.check(body.decode() == exp, "wrong-body", info)
        ctx.check(dict(starts[0]["headers"]).get(b"content-length") == str(len(body)).encode(), "wrong-content-length", info)
        ctx.check(err is None, "raised", info)
      elif want[1] != 207:
        ctx.check(sum(1 for e in bodies if not e.get("more_body")) == 1, "response-not-ended-once", info)
        ctx.check(err is None, "raised", info)
      ctx.count(f"status:{want[1]}")
    else:
      closes = [e for e in sent if e["type"] == "websocket.close"]
      ctx.check(len(closes) == 1 and closes[0]["code"] == want[1], "wrong-close", info)
      accepts = [e for e in sent if e["type"] == "websocket.accept"]
      ctx.check(len(accepts) == (1 if want[1] in (1001, 1003) else 0), "wrong-accept", info)
      if want[1] == 1001: ctx.check([e["text"] for e in sent if e["type"] == "websocket.send"] == [str(want[2])], "wrong-message", info)
      ctx.count(f"close:{want[1]}")
    ctx.check(shared_state == {"app": 1} and (st is None or st is shared_state or st == {}), "state-leaked", lambda: (shared_state, st))
    ctx.sigadd(typ, want[1], len(got))
  for _ in range(rng.randint(1, 3)):
    base = len(calls)
    res = await asyncio.gather(*(one(base + j) for j in range(rng.choice((1, 3, 8)))))
  ctx.nontrivial = True
  ctx.summary = dict(handlers=[d[:2] + tuple(text_of(d[3]) for _ in (1,) if d[0] == "route") for d in desc][:6], requests=len(calls))

class Adder:
  """The route adding interface of a router for the top level server"""
  def __init__(self, server): self.s = server
  def add_handler(self, h): self.s.add_handler(h)
  def add_http_route(self, h, p, m):
    r = ASGIRouter(); r.add_http_route(h, p, m); self.s.add_handler(r._handlers[0])
  def add_websocket_route(self, h, p):
    r = ASGIRouter(); r.add_websocket_route(h, p); self.s.add_handler(r._handlers[0])
  def add_transport_route(self, h, p):
    r = ASGIRouter(); r.add_transport_route(h, p); self.s.add_handler(r._handlers[0])
