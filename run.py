#!/usr/bin/env python3
"""run.py Cxx                 run the check of a property (VERIF_SEED, VERIF_TIER)
   run.py Cxx --replay FILE   re-run one recorded case verbosely
   run.py Cxx --case FAMILY INDEX"""
import json, os, re, shutil, signal, subprocess, sys, tempfile, time
VERIF = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/venv/bin/python"
REPO = os.environ.get("STREAMTASKS_REPO", "/repo")

def base_env(work, seed, tier, ser):
  e = dict(os.environ)
  for k in ("PYTHONPATH", "PYTHONHOME"): e.pop(k, None)
  e.update(HOME=work, LANG="C.UTF-8", PATH="/opt/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
           PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", DEBUG_SER=ser, DATA_DIR=os.path.join(work, "data"), NODE_NAME="vnode",
           VT_WORK=work, TMPDIR=os.path.join(work, "tmp"), VERIF_SEED=str(seed), VERIF_TIER=tier, PYTHONPATH=VERIF + os.pathsep + REPO, STREAMTASKS_REPO=REPO,
           OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1")
  for d in ("data", "tmp"): os.makedirs(os.path.join(work, d), exist_ok=True)
  return e

def load_findings(prop):
  out = []
  try:
    for line in open(os.path.join(VERIF, "known_findings.txt")):
      m = re.match(r"finding: property=(\S+) mech=(\S+) (.*)", line.strip())
      if m and m.group(1) == prop: out.append((m.group(2), m.group(3)))
  except FileNotFoundError: pass
  return out

def main():
  prop = sys.argv[1]
  seed, tier = int(os.environ.get("VERIF_SEED", "1")), os.environ.get("VERIF_TIER", "quick")
  if tier not in ("quick", "thorough"): tier = "quick"
  work = tempfile.mkdtemp(prefix=f"vt-{prop}-")
  try: rc = run(prop, seed, tier, work)
  finally: shutil.rmtree(work, ignore_errors=True)
  sys.stdout.flush()
  sys.exit(rc)

def run(prop, seed, tier, work):
  meta = json.load(open(os.path.join(VERIF, "checks", "meta.json")))[prop]
  if "--replay" in sys.argv or "--case" in sys.argv: return replay(prop, seed, tier, work)
  t0 = time.monotonic()
  if meta.get("prepare"):
    p = subprocess.run([PY, os.path.join(VERIF, meta["prepare"]), work], env=base_env(work, seed, tier, "0"), capture_output=True, text=True)
    if p.returncode != 0:
      print(p.stdout[-3000:], p.stderr[-3000:]); print("INCONCLUSIVE: preparation failed"); return 3
  n = int(os.environ.get("VT_SHARDS", meta.get("shards", 8)))
  budget = float(os.environ.get("VT_BUDGET", meta.get("budget_quick", 240) if tier == "quick" else meta.get("budget_thorough", 780)))
  procs = []
  for i in range(n):
    w = os.path.join(work, f"s{i}"); os.makedirs(w)
    env = base_env(w, seed, tier, "1" if i % 2 else "0")
    env["VT_BUDGET"] = str(budget)
    env["VT_SHARED"] = work
    env.setdefault("VT_SCALE", str(meta.get("scale", 1)))
    env.update(meta.get("env", {}))
    if meta.get("preload_asan"): env.update(LD_PRELOAD=open(os.path.join(work, "asan_path")).read().strip(), ASAN_OPTIONS="detect_leaks=0:halt_on_error=1:abort_on_error=1:exitcode=99", UBSAN_OPTIONS="halt_on_error=1:print_stacktrace=1")
    out = os.path.join(work, f"out{i}.json")
    err = open(os.path.join(work, f"err{i}"), "wb")
    procs.append((i, subprocess.Popen([PY, "-m", "vlib.shard", prop, str(i), str(n), out], env=env, cwd=w, stdout=err, stderr=err, start_new_session=True), out))
  deadline = time.monotonic() + budget + 150
  violations, errors, results, status = [], [], [], {}
  pending = list(procs)
  hang_limit = 200
  while pending:
    time.sleep(0.02)
    for item in list(pending):
      i, p, out = item
      if p.poll() is not None:
        pending.remove(item); status[i] = "done"; continue
      try:
        cur = json.load(open(out + ".cur")) if os.path.getmtime(out + ".cur") < time.time() - hang_limit else None
      except (OSError, ValueError): cur = None
      if cur is not None or time.monotonic() > deadline:
        try: os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError: pass
        p.wait(); pending.remove(item); status[i] = "hung"
  for i, p, out in procs:
    try: os.killpg(p.pid, signal.SIGKILL)
    except (ProcessLookupError, PermissionError): pass
    cur = None
    try: cur = json.load(open(out + ".cur"))
    except (OSError, ValueError): pass
    if os.path.exists(out): results.append((i, json.load(open(out))))
    else:
      tail = open(os.path.join(work, f"err{i}"), errors="replace").read()[-6000:]
      if cur is not None and status[i] == "hung":
        violations.append(dict(family=cur[0], index=cur[1], mech="does-not-terminate", detail=f"case did not end within {hang_limit}s of wall time", shard=i, log=[]))
      elif cur is not None and (p.returncode < 0 or p.returncode == 99 or "Sanitizer" in tail or "runtime error" in tail):
        violations.append(dict(family=cur[0], index=cur[1], mech="process-died", detail=f"exit {p.returncode}\n" + tail, shard=i, log=[]))
      else: errors.append(dict(family=cur and cur[0], index=cur and cur[1], detail=f"shard {i} ended with {p.returncode}\n{tail}"))
  cov = dict(evaluations=0, distinct_nontrivial=0, rule=meta["rule"], samples=[], events={}, per_family={}, truncated=False)
  sigs = set()
  for i, r in results:
    cov["evaluations"] += r["evals"]
    sigs.update(r["sigs"])
    for k, v in r["counters"].items(): cov["events"][k] = cov["events"].get(k, 0) + v
    for k, (a, b) in r["per_family"].items():
      x = cov["per_family"].setdefault(k, {"cases": 0, "nontrivial": 0}); x["cases"] += a; x["nontrivial"] += b
    for s in r["samples"]:
      if sum(1 for x in cov["samples"] if x["family"] == s["family"]) < 1: cov["samples"].append(s)
    cov["truncated"] = cov["truncated"] or r["truncated"]
    for v in r["violations"]: violations.append(dict(v, shard=i))
    errors += r["errors"]
  cov["distinct_nontrivial"] = len(sigs)
  cov["shards"] = n
  cov["samples"] = cov["samples"][:8]
  known = load_findings(prop)
  hit, new = {}, []
  for v in violations:
    k = next((k for k in known if k[0] == v["mech"]), None)
    if k: hit[k] = hit.get(k, 0) + 1
    else: new.append(v)
  if meta.get("confirm") and 0 < len(new) < 3: # real processes on a machine under load: one odd case is no answer
    kept = []
    for v in new:
      c = [subprocess.run([PY, os.path.join(VERIF, "run.py"), prop, "--case", v["family"], str(v["index"])], capture_output=True, timeout=300, env={**os.environ, "DEBUG_SER": str(v["shard"] % 2)}).returncode for _ in range(2)]
      if any(c): kept.append(v)
      else: cov["unconfirmed"] = cov.get("unconfirmed", []) + [dict(family=v["family"], index=v["index"], mech=v["mech"], detail=str(v["detail"])[:3000])]; print("  not confirmed:", v["mech"], v["family"], v["index"])
    new = kept
  cov["known_findings_hit"] = {k[0]: c for k, c in hit.items()}
  rc = 0
  if new:
    rdir = os.path.join(VERIF, "replays"); os.makedirs(rdir, exist_ok=True)
    seen = set()
    for v in sorted(new, key=lambda v: (v["mech"], v["family"], v["index"])):
      if v["mech"] in seen: continue
      seen.add(v["mech"])
      path = os.path.join(rdir, f"{prop}-{v['family']}-{v['index']}-s{seed}.json")
      json.dump(dict(property=prop, seed=seed, tier=tier, ser=v["shard"] % 2, **v), open(path, "w"), indent=1, default=repr)
      print(f"  {v['mech']}  family={v['family']} index={v['index']}")
      print("    " + str(v["detail"])[-1500:].replace("\n", "\n    "))
      print(f"VIOLATION property={prop} replay={path}")
    rc = 1
  for k, desc in known: print(f"KNOWN-FINDING: property={prop} {desc} [mech={k} observed={hit.get((k, desc), 0)}]")
  mins = meta.get("min", {})
  low = {k: (cov["events"].get(k, 0), m) for k, m in mins.items() if cov["events"].get(k, 0) < m}
  if rc == 0 and errors:
    print("HARNESS ERROR:", errors[0]["family"], errors[0]["index"]); print(errors[0]["detail"]); rc = 3
  if rc == 0 and (low or cov["evaluations"] == 0 or cov["distinct_nontrivial"] < meta.get("min_distinct", 2)):
    print(f"INCONCLUSIVE: monitors observed too little: {low} distinct={cov['distinct_nontrivial']}"); rc = 4
  ev = dict(property=prop, tier=tier, seed=seed, level=meta["level"], coverage=cov, wall_s=round(time.monotonic() - t0, 2))
  os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
  p = os.path.join(VERIF, "evidence", f"{prop}.json")
  json.dump(ev, open(p + ".tmp", "w"), indent=1, default=repr); os.replace(p + ".tmp", p)
  print(f"{prop} {tier} seed={seed}: {'held' if rc == 0 else 'rc=%d' % rc} on {cov['evaluations']} executions, {cov['distinct_nontrivial']} distinct, {sum(cov['events'].values())} observations, {ev['wall_s']}s")
  return rc

def replay(prop, seed, tier, work):
  if "--replay" in sys.argv:
    r = json.load(open(sys.argv[sys.argv.index("--replay") + 1]))
    fam, idx, seed, tier, ser = r["family"], r["index"], r["seed"], r["tier"], str(r["ser"])
  else:
    k = sys.argv.index("--case"); fam, idx = sys.argv[k + 1], int(sys.argv[k + 2]); ser = os.environ.get("DEBUG_SER", str(idx % 8 % 2))
  meta = json.load(open(os.path.join(VERIF, "checks", "meta.json")))[prop]
  env = base_env(work, seed, tier, ser); env.update(meta.get("env", {})); env["VT_SHARED"] = work
  if meta.get("prepare"):
    subprocess.run([PY, os.path.join(VERIF, meta["prepare"]), work], env=env, check=True)
  if meta.get("preload_asan"): env.update(LD_PRELOAD=open(os.path.join(work, "asan_path")).read().strip(), ASAN_OPTIONS="detect_leaks=0:halt_on_error=1:abort_on_error=1:exitcode=99", UBSAN_OPTIONS="halt_on_error=1:print_stacktrace=1")
  code = f"""
import os, sys
from vlib import shard, core
shard.setup_env(); shard.load({prop!r})
ctx, o, m, d = core.run_case({prop!r}, core.FAMILIES[{fam!r}], {idx}, {seed}, {tier!r})
for x in ctx.log[-300:]: print('  ', repr(x)[:400])
print('loop errors:', *[a + chr(10) + b for a, b in ctx.loop_errors[-5:]], sep=chr(10))
print('counters', ctx.counters, 'sig', ctx.signature(), 'nontrivial', ctx.nontrivial)
print('OUTCOME', o, m); print(d)
sys.stdout.flush()
os._exit(0 if o == 'ok' else 1)
"""
  return subprocess.run([PY, "-c", code], env=env, cwd=work).returncode

main()
