#!/usr/bin/env python3
"""seed.py ID            confirm /verif/seeded/ID (patch.diff, demo.sh, meta.json): applies, tests pass, demo 0 / nonzero, and say whether the quick check of its property sees it.
seed.py --edit ID FILE   (old and new text on stdin, separated by a line of =====) turn an edit of /repo's HEAD into patch.diff (adds to an existing one)"""
import json, os, re, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

def sh(cmd, cwd=None, env=None, timeout=900):
  return subprocess.run(cmd, shell=True, cwd=cwd, env=env, capture_output=True, text=True, timeout=timeout)

def copy():
  d = tempfile.mkdtemp(prefix="seed-", dir="/tmp")
  sh(f"cp -a /repo {d}/repo")
  sh("git checkout -q -- .", cwd=f"{d}/repo")
  return d, f"{d}/repo"

def tests(repo):
  base = json.load(open("/opt/vp/BASELINE.json"))
  want = set(base.get("stable") or base.get("passed") or base.get("tests") or base)
  with tempfile.TemporaryDirectory() as t:
    env = {**os.environ, "HOME": "/root", "PATH": "/opt/venv/bin:" + os.environ["PATH"], "FULL": "1", "DEBUG_SER": "1", "PYTHONPATH": repo, "TMPDIR": t, "PYTHONDONTWRITEBYTECODE": "1"}
    r = sh(f"/opt/venv/bin/python -m pytest -q -p no:cacheprovider --timeout=300 --continue-on-collection-errors --ignore=tests/media/test_containers.py -x tests 2>&1 | tail -3", cwd=repo, env=env)
  return r.stdout.strip().splitlines()[-1] if r.stdout.strip() else "?"

def demo(d, repo):
  with tempfile.TemporaryDirectory() as t:
    for f in os.listdir(d):
      if not f.endswith((".diff", ".patch")) and f != "meta.json": shutil.copy(os.path.join(d, f), t)
    try: r = sh(f"bash {t}/demo.sh", cwd=repo, timeout=300)
    except subprocess.TimeoutExpired: return 124, "timeout"
    return r.returncode, (r.stdout + r.stderr)[-300:]

def main():
  if sys.argv[1] == "--edit":
    id, file = sys.argv[2:4]
    old, new = sys.stdin.read().split("\n=====\n")
    new = new.rstrip("\n")
    d, repo = copy()
    pd = os.path.join(V, "seeded", id)
    os.makedirs(pd, exist_ok=True)
    if os.path.exists(pd + "/patch.diff"): print(sh(f"git apply {pd}/patch.diff", cwd=repo).stderr)
    p = os.path.join(repo, file)
    s = open(p).read()
    if s.count(old) != 1: print("old text found", s.count(old), "times"); sys.exit(1)
    open(p, "w").write(s.replace(old, new))
    open(pd + "/patch.diff", "w").write(sh("git diff", cwd=repo).stdout)
    shutil.rmtree(d)
    return
  for id in sys.argv[1:]:
    pd = os.path.join(V, "seeded", id)
    prop = json.load(open(pd + "/meta.json"))["property"]
    d, repo = copy()
    try:
      c, out = demo(pd, repo)
      print(id, "demo clean:", c, out if c else "")
      r = sh(f"git apply {pd}/patch.diff", cwd=repo)
      if r.returncode: print(id, "DOES NOT APPLY", r.stderr); continue
      c, out = demo(pd, repo)
      print(id, "demo patched:", c, "" if c else "!!!! " + out)
      print(id, "tests:", tests(repo))
      for seed in os.environ.get("SEEDS", "1").split():
        r = sh(f"python3 {V}/run.py {prop}", env={**os.environ, "STREAMTASKS_REPO": repo, "VERIF_SEED": seed, "VT_NO_EVIDENCE": "1"})
        print(id, prop, "check rc", r.returncode, r.stdout.strip().splitlines()[-1][:200])
        for l in [l for l in r.stdout.splitlines() if re.match(r"  \S+  family=", l)][:4]: print("    ", l[:160])
    finally: shutil.rmtree(d)

main()
