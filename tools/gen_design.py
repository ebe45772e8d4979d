#!/usr/bin/env python3
"""Writes DESIGN.md from properties.jsonl, checks/meta.json, known_findings.txt, the seeded bugs and the notes below."""
import json, os, re, glob, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

INTRO = """# Verification of leopf/streamtasks by runtime monitoring

*Written by `tools/gen_design.py` (edit the notes there).*

## Technique

The real code in `/repo/streamtasks` is executed under generated, hostile and stress workloads while independent
monitors record observable events and decide the property; nothing is decided by reading source text. Every check
uses only public behaviour (messages received, fetch and HTTP answers, files on disk, process exits, sanitizer
reports), so edits that keep the behaviour stay quiet. There are no hooks in `/repo`: Python lets the monitors sit
on the real objects' public edges (links, clients, sockets, files), and the one C++ extension is recompiled with
ASAN and UBSAN from the current tree by `tools/build_ext.py`.

What gives reach beyond the tests:

* **Virtual time** (`vlib/vtime.py`). Most families run on an event loop whose clock only advances when nothing is
  runnable, so time-outs of minutes cost nothing, and "quiescent" is a fact rather than a sleep. Delays of links,
  sends, handlers and operators are random, which gives a different interleaving per case. A case that deadlocks
  ends at once ("nothing scheduled") and is a violation.
* **Real networks of switches and clients** (`vlib/net.py`, `vlib/world.py`) with random trees and link kinds
  (queues, serialized queues, delayed FIFO links with different distributions, stream sockets), fault injection (close on
  either side, failing sends, garbage, EOF, abort, network split and rejoin) and wire taps that see every message.
* **Histories** of operations from a seeded generator, with a plain-Python reference model per property: shortest
  paths, windows of must/may messages, linearizability search over recorded concurrent histories
  (`vlib/linear.py`), crash points by forked processes that die at a chosen file operation, traced line or byte
  offset, exact sample and pixel arithmetic, numpy/PyAV as independent readers.
* **Real processes, threads and sockets** where these are the subject (`loop="real"` families; C40 starts the program).

Each case is determined by (property, family, index, seed). `run.py Cxx` runs the families over 8 processes (odd
shards with `DEBUG_SER=1`, so that all in-process messages pass the serializer), merges the recorded observations,
checks the minimum numbers of observations per counter (`checks/meta.json`, *a run whose monitors saw too little is
reported as inconclusive, never as held*), writes `evidence/Cxx.json`, the log of each violating case under `replays/`, and prints `VIOLATION property=… replay=…`. `run.py Cxx --replay FILE` and `run.py Cxx --case FAMILY INDEX`
repeat one case. C40, which judges real processes in real time, repeats a single violating case twice before it is believed
(three or more violations need no repetition). `VERIF_TIER=thorough` runs the same families with 20-50 times as many cases, as many as fit the time budget.

Strength: exploration. A pass says that the property held on every execution observed (what that was is in the
evidence file), not that it always holds. Trusted: CPython, asyncio, PyAV/OpenCV/numpy, the kernel, the reference models.

## Out of scope

TypeScript sources under `web-packages` (no property claimed; the editor's semantics that matter to the backend are
modelled in C39), tasks that need devices or models that are not here (camera, screen, audio devices, inference tasks;
C39 only checks their announced metadata), and the packaging scripts.
"""

NOTES = {
"C01": "Subscriptions are judged by windows: a message must arrive if the subscription was settled before it was published and may arrive in between.",
"C02": "Compared at quiescence; demand in transit is unjudged.",
"C03": "Costs are compared per link after convergence. Only trees: the code does not promise convergence in cyclic graphs.",
"C04": "Messages to an address while its owner moves are unjudged, all others are exact.",
"C05": "'The link reports closed' means that recv raises ConnectionClosedError; messages in flight on a failing link are lost by design.",
"C06": "Messages in flight on an old path during a topology change and races of a client's own resubscription are excluded.",
"C07": "Compares the effective pause state: how often it is repeated is free.",
"C08": "Decoding errors of foreign bytes belong to C09 and C12.",
"C09": "Closed means recv raises; a bare client on a link does not close it, a switch does.",
"C10": "A client that sends any auth value to a server without one is refused, as the code does today.",
"C11": "Retry progress is judged with generous bounds (4 delays + 2 s); the failing of a connect function that never returns is not generated.",
"C12": "Requests for unknown descriptors get no answer by design. ExtType bodies and the text of StopIteration are not compared.",
"C13": "must / may windows around starts and stops.",
"C14": "Astronomic id counts are excluded.",
"C15": "Sending by name uses a per-client cache by design.",
"C16": "A topic takes part from its first message or resume on.",
"C17": "Cancelling a task that is only scheduled is refused by design; tasks that swallow cancellation are not generated; tasks of a host that vanished without a word stay listed as running (there is no keep-alive), only requests about them are judged.",
"C18": "Cancelling before the init answer, scope values the protocol does not know (memoryview, > 64 bit) are excluded.",
"C19": "Passing on without answer is 404; trailing-slash patterns are not judged; any valid reading of an ambiguous pattern is accepted.",
"C20": "Symbolic links that lead out of the root count as outside.",
"C21": "Process death only (no power loss: no write-back reordering); mutation of returned entries by the caller is judged only through documented calls.",
"C22": "After a failed start the status must only not be offline; dashboards are unrestricted by design.",
"C23": "Resolving creates an empty entry by design; deleting an unknown name may be 200 or 404.",
"C24": "Concurrent gets of one consumer are judged as a set; messages emitted after an explicit close may be missing.",
"C25": "Payloads are never empty (the callers never store empty ones), slices are not supported.",
"C26": "Cancellation of the same task again by cancel_all is tolerated.",
"C27": "ExtType may become a list.",
"C28": "Where conventions differ (unary minus and powers, chained comparison), the generator writes parentheses. Logical operands are 0/1-like; results that pass through complex numbers are unjudged.",
"C29": "Ties of synchronized inputs are judged only with priorities; regular expressions by re.match; after removal of the selected control the pause state of the output is unjudged until the next event.",
"C30": "strftime is judged on ordinary years; number texts by their float round trip.",
"C31": "Flush on pause with several held messages and release earlier than necessary after a pause are unjudged.",
"C32": "Overflow of mixed sums, u8 in mixer/scaler/meter and layouts PyAV cannot build are excluded; stretching is judged for order and within 60 ms.",
"C33": "Frames of a wrong size in the mixer are unjudged; the blend output may keep fewer than 4 trailing bytes.",
"C34": "Counts within one frame of duration x rate; the resampler may keep about 40 samples; lossy codecs by correlation and length; container tables restricted to combinations whose bytes pass through.",
"C35": "Simultaneous timestamps on several synchronized inputs, functions that raise and postponed annotations are unjudged.",
"C36": "cost=0, percent-encoded credentials and repeated query keys are unjudged. Error answers to the requester's own bad request may quote it.",
"C37": "One publisher per topic; messages in flight when a tab opens may appear as a suffix; requests to vanished hosts are judged after their return.",
"C38": "Concurrent posts may be merged but the last value is sent; repetition within 0.15 s.",
"C39": "InputContainer is announced only, not started (it needs a file; C34 runs its task). Devices and model libraries are stand-ins.",
"C40": "SIGTERM and SIGKILL are crashes: hosts of a killed node stay listed until it returns. The core node is restarted only together with all others (hosts register once). Set-ups that exceed the product's own one/two second limits on a loaded machine are retried; requests on the way while links are being made again are lost by design and repeated.",
"C41": "The devices and the libraries of the models are stand-ins (`vlib/devices.py`): what a real device, driver or model does is not judged. A device delivers sound at a random pace, not in real time; latency is not judged.",
}

def main():
  props = [json.loads(l) for l in open(f"{V}/properties.jsonl")]
  meta = json.load(open(f"{V}/checks/meta.json"))
  out = [INTRO, "\n## Properties\n"]
  for p in props:
    m, k = meta[p["id"]], p["id"]
    mod = glob.glob(f"{V}/checks/{k.lower()}_*.py")[0]
    out.append(f"### {k} {p['title']}\n")
    out.append(f"*Over:* {p['quantifier']['text']}. *Check:* `{os.path.relpath(mod, V)}`.\n")
    out.append(f"*Monitored:* {m['rule']}\n")
    out.append("*Floor of observations (quick):* " + ", ".join(f"{a} {b}" for a, b in m["min"].items()) + ".\n")
    out.append(f"*Why the tests cannot:* {p['why_tests_cant']}\n")
    if k in NOTES: out.append(f"*Not judged:* {NOTES[k]}\n")
  out.append(open(f"{V}/tools/design_tail.md").read())
  out.append("\n## Planted bugs\n\nEach is confirmed by `tools/seed.py ID` (applies, stable tests pass, demonstration 0 / nonzero) and was written from the property's text and the code alone.\n\n| bug | property | needs | breaks | detected by |\n|---|---|---|---|---|")
  caught = json.load(open(f"{V}/tools/seeded_results.json")) if os.path.exists(f"{V}/tools/seeded_results.json") else {}
  for d in sorted(glob.glob(f"{V}/seeded/*/meta.json")):
    e = json.load(open(d)); i = os.path.basename(os.path.dirname(d))
    out.append(f"| {i} | {e['property']} | {e['needs']} | {e['what_it_breaks']} | {caught.get(i, e['property'] + ' quick')} |")
  out.append("\n## Defects found and repaired\n\nEach is a `fix:` commit in `/repo`, listed in `known_findings.txt`; with a fix undone, the check of its property reports it again.\n")
  for l in open(f"{V}/known_findings.txt"):
    x = re.match(r"fixed: property=(\S+) (\S+) (.*)", l)
    if x: out.append(f"* {x[1]} `{x[2]}` {x[3]}")
  open(f"{V}/DESIGN.md", "w").write("\n".join(out) + "\n")

main()
