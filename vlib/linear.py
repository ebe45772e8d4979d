"""Linearizability of small concurrent batches against a sequential model (Wing & Gong search)."""

def linearizable(states, ops, apply):
  """states: list of possible (hashable) states before the batch; ops: list of (start, end, op, result).
  apply(state, op) -> (new_state, result). Returns the set of possible states afterwards (empty: not linearizable)."""
  n = len(ops)
  full = (1 << n) - 1
  seen, out = set(), set()
  todo = [(s, 0) for s in states]
  while todo:
    s, done = todo.pop()
    if (s, done) in seen: continue
    seen.add((s, done))
    if done == full: out.add(s); continue
    first_end = min(ops[i][1] for i in range(n) if not done >> i & 1)
    for i in range(n):
      if done >> i & 1 or ops[i][0] > first_end: continue
      s2, r = apply(s, ops[i][2])
      if r == ops[i][3]: todo.append((s2, done | 1 << i))
  return out
