"""Regenerates /verif/MANIFEST.json from checks/meta.json and properties.jsonl."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
meta = json.load(open(os.path.join(V, "checks", "meta.json")))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
TECH = "runtime monitoring: the real code under generated workloads in virtual time, event log judged by a reference-model oracle"
NOTE = "Holds on every execution explored (seeded, see the evidence file for what the monitors observed); no claim beyond them. Trusts CPython, asyncio and the reference model in checks/."
checks = []
for p in props:
  m = meta.get(p["id"])
  if m is None: continue
  checks.append(dict(property=p["id"], quick_cmd=f"python3 run.py {p['id']}", thorough_cmd=f"VERIF_TIER=thorough python3 run.py {p['id']}",
                     evidence_file=f"evidence/{p['id']}.json", technique=m.get("technique", TECH), level=m["level"], level_note=m.get("level_note", NOTE)))
na = [dict(property=p["id"], reason="Not claimed yet: its check is still being built.") for p in props if p["id"] not in meta]
json.dump(dict(version=1, setup_cmd="python3 tools/setup.py", checks=checks, not_applicable=na,
               notes="No hooks in /repo: every monitor attaches from outside (harness-side links, receivers, stand-ins). Interpreter: /opt/venv/bin/python. See DESIGN.md."),
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
