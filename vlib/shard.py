"""Shard process: python -m vlib.shard PROP I N OUT   (env: VERIF_SEED, VERIF_TIER, VT_WORK, VT_BUDGET)"""
import importlib, json, os, sys, time, glob, logging, warnings

def load(prop):
  from vlib import core
  here = os.path.join(core.VERIF, "checks")
  mods = glob.glob(os.path.join(here, prop.lower() + "_*.py"))
  if len(mods) != 1: raise SystemExit(f"no check module for {prop}")
  sys.path.insert(0, here)
  return importlib.import_module(os.path.basename(mods[0])[:-3])

def setup_env():
  logging.disable(logging.CRITICAL)
  warnings.simplefilter("ignore")
  from vlib import core
  sys.path.insert(0, core.REPO)

def main():
  prop, i, n, out = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), sys.argv[4]
  seed, tier = int(os.environ.get("VERIF_SEED", "1")), os.environ.get("VERIF_TIER", "quick")
  setup_env()
  from vlib import core
  mod = load(prop)
  budget = float(os.environ.get("VT_BUDGET", "240"))
  scale = float(os.environ.get("VT_SCALE", "1"))
  t0 = time.monotonic()
  res = dict(counters={}, sigs=[], evals=0, nontrivial=0, violations=[], errors=[], samples=[], per_family={}, truncated=False, sites={})
  sigs = set()
  stop = False
  # interleave the families so that a budget stop does not starve one of them
  plan = []
  for f in core.FAMILIES.values():
    k = int(f.quick * scale) if tier == "quick" else f.thorough
    for idx in range(i, k, n): plan.append((idx / max(1, k), f.name, idx))
  plan.sort()
  max_viol = int(os.environ.get("VT_MAX_VIOL", "12"))
  for _, fname, idx in plan:
    if time.monotonic() - t0 > budget: res["truncated"] = True; break
    f = core.FAMILIES[fname]
    with open(out + ".cur", "w") as fd: json.dump([fname, idx, time.time()], fd)
    ctx, outcome, mech, detail = core.run_case(prop, f, idx, seed, tier)
    res["evals"] += 1
    pf = res["per_family"].setdefault(fname, [0, 0])
    pf[0] += 1
    for k, v in ctx.counters.items(): res["counters"][k] = res["counters"].get(k, 0) + v
    if ctx.nontrivial:
      s = ctx.signature()
      pf[1] += 1
      sigs.add(s)
      if sum(1 for x in res["samples"] if x["family"] == fname) < 1:
        case = ctx.summary if ctx.summary is not None else dict(operations=[repr(x)[:200] for x in ctx.log[:12]], counters=dict(ctx.counters))
        res["samples"].append(dict(family=fname, index=idx, case=case))
    if outcome == "violation":
      res["violations"].append(dict(family=fname, index=idx, mech=mech, detail=detail, log=[repr(x)[:300] for x in ctx.log[-400:]],
                                    loop_errors=ctx.loop_errors[-4:]))
      if len(res["violations"]) >= max_viol: break
    elif outcome == "error":
      res["errors"].append(dict(family=fname, index=idx, detail=detail[-4000:]))
      if len(res["errors"]) >= 3: break
  res["sigs"] = sorted(sigs)
  with open(out + ".tmp", "w") as fd: json.dump(res, fd, default=repr)
  os.replace(out + ".tmp", out)
  sys.stdout.flush()
  os._exit(0)

if __name__ == "__main__": main()
