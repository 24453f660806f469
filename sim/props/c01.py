"""C01: reads do not depend on history or schedule."""
from gen import *

PARAMS = dict(quick=1500, thorough=12000)

from ops import *
from world import names_in

def make(seed, tier):
    w = W("C01", seed, tier)
    gs = w.grids(w.pick([1, 1, 2, 3]))
    states = []
    for g in gs:
        for _ in range(w.pick([1, 1, 2])):
            states.append(w.new_state(g))
    if w.ch(0.4):
        states.append(w.derived_state(w.pick(states)))
    if w.ch(0.25):      # an equal but distinct state
        s = w.pick(states)
        n = w.d("s", w.defs[s])
        w.state_grid[n], w.state_time[n] = w.state_grid[s], w.state_time[s]
        states.append(n)
    ops = []
    hot = w.pick(states)
    for _ in range(w.rng.randrange(4, 13)):
        s = hot if w.ch(0.6) else w.pick(states)
        name, e, kw = read(w, s)
        ops.append(w.op(name, e, **kw))
        if w.ch(0.12):      # the same on a state that exists for this read only
            ops.append(w.op("temporary." + name, inline(w, e, keep=()) if w.ch(0.4) else inline(w, e, keep=list(w.grid)), **kw))
            if not names_in(ops[-1]["e"]):      # (grids that were the same are now just equal)
                ops[-1]["oracle"] = ["pristine"]
    n = w.pick([1, 2, 2, 3, 4])
    th = w.deal(ops, n, copies=0.3)
    return w.spec(th, meta=w.meta())
