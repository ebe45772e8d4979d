"""Drivers that play histories on a task in a Rig and compare its outputs with a step-wise model.
A model has step(topic, "data"/"pause", value) -> outputs, and out_paused (None: not judged; model.sure False: not now)."""
from vlib.values import canon

OUT = 90

async def spaced(ctx, rig, model, ins, make, n, burst=False):
  """One event at a time (or bursts on one topic), each followed by time to take effect: any history, pauses and invalid messages included."""
  rng = ctx.rng
  ts = rng.choice((0, 1, 1000, 10**12))
  want = []
  if model.out_paused is not None: ctx.eq(rig.out_paused(OUT), model.out_paused, "output-pause", "at start")
  for _ in range(n):
    topic = rng.choice(ins)
    for _ in range(rng.choice((1, 1, 1, 2, 6)) if burst else 1):
      ts += rng.choice((0, 1, 7, -3, 1000))
      kind, v = make(topic, ts)
      if kind == "pause": await rig.pause(topic, v)
      else: await rig.data(topic, v)
      want += model.step(topic, kind, v)
      ctx.op((topic, kind, v))
    await rig.settle(0.3)
    rig.alive()
    got = [v for _, v in rig.out(OUT)]
    ctx.check(same(got, want), "outputs", lambda: (topic, kind, v, got[-4:], want[-4:]))
    ctx.count("steps")
    if model.out_paused is not None and getattr(model, "sure", True): ctx.eq(rig.out_paused(OUT), model.out_paused, "output-pause", (topic, kind, v))

def same(a, b): return [canon(x) for x in a] == [canon(x) for x in b]

async def merged(ctx, rig, model, ins, make, n, sentinel, control=None, ties=False):
  """Rounds of messages on all topics, in any arrival order: the outputs are those of the messages taken in timestamp order."""
  rng = ctx.rng
  ts, want, paused = rng.choice((1, 1000, 10**12)), [], set()
  prio = lambda t: 0 if t == control else 1
  async def steps(items):
    nonlocal want
    for t, k, v in sorted(items, key=lambda x: (x[2]["timestamp"], prio(x[0]))): want += model.step(t, k, v)
  # every topic becomes active
  first = [(t, "data", sentinel(t, ts)) for t in sorted(ins, key=prio)]
  for t, k, v in first: await rig.data(t, v); await rig.settle(0.2)
  await steps(first)
  for _ in range(n):
    active = [t for t in ins if t not in paused]
    items = {t: [] for t in active}
    cur = ts
    for _ in range(rng.randint(2, 14)):
      t = rng.choice(active)
      tie = ties and t != control and rng.random() < 0.4
      if not tie: cur += rng.choice((1, 1, 5, 100))
      items[t].append((t, "data", make(t, cur)[1]))
    ts = cur + 1
    for t in active: items[t].append((t, "data", sentinel(t, ts)))
    await steps([x for l in items.values() for x in l])
    mode = rng.choice(("random", "sequential", "spaced"))
    left = {t: list(l) for t, l in items.items()}
    order = rng.sample(active, len(active))
    while any(left.values()):
      t = rng.choice([t for t in active if left[t]]) if mode != "sequential" else next(t for t in order if left[t])
      for _ in range(rng.choice((1, 1, 3))):
        if left[t]:
          await rig.data(t, left[t].pop(0)[2])
          ctx.op((t, "data"))
      if mode == "spaced" or rng.random() < 0.1: await rig.settle(rng.choice((0, 0.01, 0.2)))
    await rig.settle(1)
    rig.alive()
    got = [v for _, v in rig.out(OUT)]
    ctx.check(same(got, want), "merged-outputs", lambda: next(((i, got[i:i + 3], want[i:i + 3]) for i in range(max(len(got), len(want))) if i >= min(len(got), len(want)) or canon(got[i]) != canon(want[i]))))
    ctx.count("steps"); ctx.count("rounds")
    if model.out_paused is not None and getattr(model, "sure", True): ctx.eq(rig.out_paused(OUT), model.out_paused, "output-pause", "after a round")
    if rng.random() < 0.4:
      t = rng.choice(ins)
      if t in paused or len(paused) + 1 < len(ins):
        v = t not in paused
        (paused.add if v else paused.discard)(t)
        await rig.pause(t, v)
        await rig.settle(0.3)
        want += model.step(t, "pause", v)
        if not v:
          # a resumed topic catches up before anything else
          ts += 1
          items = [(t, "data", sentinel(t, ts)) for t in sorted([t for t in ins if t not in paused], key=prio)]
          for tt, k, m in items: await rig.data(tt, m)
          await rig.settle(0.3)
          await steps(items)

async def finish(ctx, rig, *sig):
  await rig.finish()
  ctx.sigadd(*sig, len(rig.log), str([canon(v) for _, v in rig.out()[-6:]]))
  ctx.nontrivial = len(rig.out()) > 0
  ctx.summary = dict(task=type(rig.task).__name__, outputs=len(rig.out()), counters=dict(ctx.counters))

