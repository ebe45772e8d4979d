"""C28: calculator formulas mean what standard arithmetic and logic say."""
import asyncio, math
from pydantic import ValidationError
from streamtasks.system.tasks.calculator import CalculatorConfig, CalculatorTask
from vlib.core import family
from vlib.rig import Rig

# ---- formulas: (kind, ...) trees, rendered with the fewest parentheses standard precedence allows
BIN = {"+": 6, "-": 6, "*": 7, "/": 7, "%": 7, "**": 8, "<": 5, ">": 5, "<=": 5, ">=": 5, "==": 4, "!=": 4, "&": 3, "^": 2, "|": 1}
FUN1 = ("sin", "cos", "tan", "asin", "acos", "atan", "sinh", "cosh", "tanh", "asinh", "acosh", "atanh", "log", "log2", "log10", "exp", "sqrt", "floor", "ceil", "round", "abs")
NUMS = ("0", "1", "2", "3", "0.5", "10", "1e2", "2.25", "1e-3", "7", "100.", ".5", "1e308")

def num(rng, d, vs, bs):
  k = rng.random()
  if d <= 0 or k < 0.18: return ("n", rng.choice(NUMS)) if not vs or rng.random() < 0.4 else ("v", rng.choice(vs))
  if k < 0.22: return ("c", rng.choice(("pi", "e")))
  if k < 0.62: return ("b", rng.choice(("+", "-", "*", "/", "%", "+", "-", "*", "**")), num(rng, d - 1, vs, bs), num(rng, d - 1, vs, bs))
  if k < 0.70: return ("u", rng.choice("-+-"), num(rng, d - 1, vs, bs))
  if k < 0.80: return ("f", rng.choice(FUN1), [num(rng, d - 1, vs, bs)])
  if k < 0.85: return ("f", rng.choice(("min", "max")), [num(rng, d - 1, vs, bs) for _ in range(rng.randint(2, 4))])
  if k < 0.93: return ("?", boolean(rng, d - 1, vs, bs), num(rng, d - 1, vs, bs), num(rng, d - 1, vs, bs))
  return boolean(rng, d - 1, vs, bs)

def boolean(rng, d, vs, bs):
  k = rng.random()
  if d <= 0 or k < 0.15: return ("n", rng.choice("01")) if not bs or rng.random() < 0.4 else ("v", rng.choice(bs))
  if k < 0.55: return ("b", rng.choice(("<", ">", "<=", ">=", "==", "!=")), num(rng, d - 1, vs, bs), num(rng, d - 1, vs, bs))
  if k < 0.85: return ("b", rng.choice("&|^"), boolean(rng, d - 1, vs, bs), boolean(rng, d - 1, vs, bs))
  if k < 0.93: return ("u", "!", boolean(rng, d - 1, vs, bs))
  return ("?", boolean(rng, d - 1, vs, bs), boolean(rng, d - 1, vs, bs), boolean(rng, d - 1, vs, bs))

def level(t):
  if t[0] == "b": return BIN[t[1]]
  if t[0] == "?": return 0
  return 9

def render(rng, t):
  sp = lambda: rng.choice(("", "", " ", "  ", "\t")) if rng.random() < 0.5 else " "
  def go(t): 
    k = t[0]
    if k in "nvc": return t[1]
    if k == "u": return t[1] + rng.choice(("", " ")) + par(t[2], 9)
    if k == "f": return t[1] + sp() + "(" + (sp() + "," + sp()).join(go(x) for x in t[2]) + sp() + ")"
    if k == "?": return par(t[1], 1) + sp() + "?" + sp() + go(t[2]) + sp() + ":" + sp() + go(t[3])
    op, p = t[1], BIN[t[1]]
    logic = p <= 3
    def operand(x, right):
      if x[0] == "b":
        q = BIN[x[1]]
        # conventions differ: chains of comparisons, of different logical operators, of powers; always in parentheses
        if p in (4, 5) and q in (4, 5): return "(" + go(x) + ")"
        if logic and q <= 3 and x[1] != op: return "(" + go(x) + ")"
      if p == 8: return par(x, 10 if x[0] == "u" else 9)
      return par(x, p + 1 if right else p)
    l, r = operand(t[2], False), operand(t[3], True)
    return l + sp() + op + sp() + r
  def par(t, least):
    s = go(t)
    return "(" + sp() + s + sp() + ")" if level(t) < least or rng.random() < 0.04 else s
  return sp().strip("\n") + go(t)

class Undefined(Exception): pass
class Complex(Undefined):
  """The formula leaves the real numbers half way (a negative number to a fractional power): not judged."""

def calc(t, env):
  """The value of a formula; Undefined where arithmetic gives none. Every part is computed, whichever branch is taken."""
  k = t[0]
  if k == "n": return float(t[1])
  if k == "v": return env[t[1]]
  if k == "c": return {"pi": math.pi, "e": math.e}[t[1]]
  if k == "u":
    v = calc(t[2], env)
    return -v if t[1] == "-" else v if t[1] == "+" else (0.0 if v > 0.5 else 1.0)
  try:
    if k == "f":
      a = [calc(x, env) for x in t[2]]
      f = {"round": round, "abs": abs, "min": min, "max": max}.get(t[1]) or getattr(math, t[1])
      return f(*a)
    if k == "?":
      a = [calc(x, env) for x in t[1:]]
      return a[1] if a[0] > 0.5 else a[2]
    a, b = calc(t[2], env), calc(t[3], env)
    op = t[1]
    if op == "+": v = a + b
    elif op == "-": v = a - b
    elif op == "*": v = a * b
    elif op == "/": v = a / b
    elif op == "%": v = a % b
    elif op == "**": v = a ** b
    elif op == "&": v = 1.0 if a > 0.5 and b > 0.5 else 0.0
    elif op == "|": v = 1.0 if a > 0.5 or b > 0.5 else 0.0
    elif op == "^": v = 1.0 if (a > 0.5) + (b > 0.5) == 1 else 0.0
    else: v = 1.0 if {"<": a < b, ">": a > b, "<=": a <= b, ">=": a >= b, "==": a == b, "!=": a != b}[op] else 0.0
  except Undefined: raise
  except (ArithmeticError, ValueError, TypeError) as e: raise Undefined(repr(e))
  if isinstance(v, complex): raise Complex()
  return v

def has_branch(t):
  return t[0] == "?" or any(has_branch(x) for x in t[1:] if isinstance(x, tuple)) or (t[0] == "f" and any(map(has_branch, t[2])))

def possible(t, env):
  """The acceptable results. Of a conditional, an implementation may or may not compute the branch that is not taken."""
  res = []
  try: res.append(float(calc(t, env)))
  except Complex: return [ANY]
  except (Undefined, OverflowError, TypeError): res.append(None)
  if has_branch(t):
    try: res.append(float(lazy(t, env)))
    except Complex: return [ANY]
    except (Undefined, OverflowError, TypeError, RecursionError): res.append(None)
  return res

def lazy(t, env):
  if t[0] == "?": return lazy(t[2], env) if lazy(t[1], env) > 0.5 else lazy(t[3], env)
  if t[0] in ("b", "u"): return calc((t[0], t[1]) + tuple(("n", 0) if False else ("v", i) for i in range(len(t) - 2)), {i: lazy(x, env) for i, x in enumerate(t[2:])})
  if t[0] == "f": return calc(("f", t[1], [("v", i) for i in range(len(t[2]))]), {i: lazy(x, env) for i, x in enumerate(t[2])})
  return calc(t, env)

ANY = "any"

def close(a, b):
  if b is ANY: return True
  if a is None or b is None: return a is b
  return a == b or (math.isnan(a) and math.isnan(b)) or math.isclose(a, b, rel_tol=1e-9, abs_tol=1e-300)

MALFORMED = (5, "x", [1], {}, {"value": 1.0}, {"timestamp": "now", "value": 1.0}, {"timestamp": 5}, {"timestamp": 5, "value": "high"}, {"timestamp": 5, "value": None}, {"timestamp": 5, "value": [1]}, {"timestamp": None, "value": 1}, {"timestamp": math.nan, "value": 1})

async def run(ctx, depth, nvars, msgs):
  rng = ctx.rng
  names = rng.sample(("a", "b", "x1", "_y", "If", "E", "sinus", "x_y_z"), nvars)
  nb = rng.randint(0, nvars)
  bs, vs = names[:nb], names[nb:]
  tree = num(rng, depth, vs, bs) if rng.random() < 0.7 else boolean(rng, depth, vs, bs)
  formula = render(rng, tree)
  ctx.op(formula)
  good = lambda n: float(rng.choice((0, 1))) if n in bs else rng.choice((0.0, 1.0, -1.0, 2.0, 0.5, -2.5, 1e3, 1e-9, rng.uniform(-10, 10), 3, -4, 1e200))
  defaults = {n: good(n) for n in names}
  topics = {n: 40 + i for i, n in enumerate(names)}
  sync = rng.random() < 0.5
  try: cfg = CalculatorConfig.model_validate({"formula": formula, "synchronized": sync, "out_topic": 90, "variable_tracks": [{"name": n, "default_value": defaults[n], "in_topic": topics[n]} for n in names]})
  except ValidationError as e: ctx.fail("formula-refused", f"{formula!r}: {str(e)[:300]}")
  ctx.count("formulas")
  rig = Rig(ctx)
  await rig.start(lambda c: CalculatorTask(c, cfg), topics.values(), [90])
  env = dict(defaults)
  ts = 0
  for _ in range(msgs if names else 0):
    n = rng.choice(names)
    k = rng.random()
    before = len(rig.log)
    if k < 0.1 and not sync:
      await rig.pause(topics[n], rng.random() < 0.5)
      env[n] = defaults[n]
      want = None
    elif k < 0.25 and not sync:
      await rig.data(topics[n], rng.choice(MALFORMED))
      want = None
      ctx.count("malformed")
    else:
      ts += rng.choice((0, 1, 50))
      v = good(n)
      if sync:
        # every input gets a message of this time, one of them a new value
        for m in names:
          env[m] = v if m == n else env[m]
        ts += 1
        for m in names: await rig.data(topics[m], {"timestamp": ts, "value": env[m]})
        want = ("all", ts)
      else:
        env[n] = float(v)
        await rig.data(topics[n], {"timestamp": ts, "value": v})
        want = ("one", ts)
    await rig.settle()
    got = [m for _, _, kind, m in rig.log[before:] if kind == "data"]
    rig.alive()
    if want is None: ctx.check(not got, "output-without-input", lambda: (formula, got)); continue
    res = possible(tree, env)
    ctx.check(all(isinstance(m, dict) and m.get("timestamp") == ts for m in got), "timestamp", lambda: (formula, ts, got))
    if want[0] == "one":
      ctx.check(len(got) <= 1, "more-than-one-output", lambda: (formula, got))
      v = got[0]["value"] if got else None
      ctx.check(any(close(v, r) for r in res), "value", lambda: f"{formula!r} with {env}: got {v!r} want {res}")
    else:
      # intermediate values while the inputs of this moment are taken in; the last has all of them
      ctx.check(len(got) <= len(names), "more-than-one-output", lambda: (formula, got))
      if all(r is not None and r is not ANY for r in res):
        ctx.check(bool(got) and any(close(got[-1]["value"], r) for r in res), "value", lambda: f"{formula!r} with {env}: got {got} want {res}")
    ctx.count("values" if res[0] not in (None, ANY) else "undefined")
  await rig.finish()
  ctx.sigadd(formula)
  ctx.nontrivial = ctx.counters.get("values", 0) > 0
  ctx.summary = dict(formula=formula, inputs=names, counters=dict(ctx.counters))

@family("small", quick=1200, thorough=40000)
async def small(ctx): await run(ctx, 2, ctx.rng.randint(1, 2), 5)

@family("deep", quick=400, thorough=15000)
async def deep(ctx): await run(ctx, ctx.rng.choice((3, 4)), ctx.rng.randint(1, 3), 8)

@family("text", quick=150, thorough=2500, loop="sync")
def invalid(ctx):
  """Formulas that are no formulas, and unknown names, are refused when the task is configured."""
  rng = ctx.rng
  for f in rng.sample(("1 +", "* 2", "(1", "1)", "1 2", "a b", "sin", "foo(1)", "b + 1", "1 ? 2", "1 : 2", "a = 1", "a & ", "", "a $ 1", "a ** ** 2", "1 < > 2"), 6):
    try:
      CalculatorConfig.model_validate({"formula": f, "out_topic": 1, "variable_tracks": [{"name": "a", "default_value": 1, "in_topic": 2}]})
      ok = True
    except Exception: ok = False
    ctx.count("refused")
    ctx.check(not ok, "invalid-formula-accepted", f)
    ctx.sigadd(f)
  ctx.nontrivial = True
