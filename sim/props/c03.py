"""C03: what exists is never changed by later work."""
from ops import *
import figures_ops
from props.c02 import ioop

PARAMS = dict(quick=950, thorough=16000)

def make(seed, tier):
    w = W("C03", seed, tier)
    gs = w.grids(w.pick([1, 1, 2]))
    states, lists, models = [], [], {}
    for g in gs:
        t = w.time()
        mine = [w.new_state(g, time=t if w.ch(0.6) else None, buffer=w.ch(0.35)) for _ in range(w.pick([1, 2, 3]))]
        states += mine
        models[g] = w.model(g, t)
        if w.ch(0.6):
            L = w.d("L", F("bt.StateList", [R(s) for s in mine]) if w.ch(0.7) else F("%list_from_buffer", *[R(s) for s in mine]))
            lists.append((L, mine))
    ops = []
    for _ in range(w.rng.randrange(4, 12)):
        s = w.pick(states)
        g = w.state_grid[s]
        kind = w.pick(["read", "read", "step", "step", "list", "grid", "grid", "diag", "rhs", "io", "derive", "fig", "inplace"])
        if kind == "inplace" and not lists:
            kind = "rhs"
        if kind == "list" and not lists:
            kind = "read"
        if kind == "read":
            o = read(w, s, dear=0.25)
        elif kind == "step":
            o = stepper(w, g, s, models[g])
        elif kind == "list":
            o = listop(w, *w.pick(lists))
        elif kind == "grid":
            o = gridop(w, g)
        elif kind == "diag":
            o = diagop(w, g)
        elif kind == "rhs":
            f = w.rhs(g, w.state_time[s])
            o = ("rhs", F("%callrhs", f, R(s)), {})
            if w.ch(0.3):
                o = ("rhs.inplace", F("%callrhs", {"i": [F("%inplace", f, w.pick(["add", "mul"]), w.rhs(g, w.state_time[s])), w.pick([0, 1])]}, R(s)), {})
        elif kind == "inplace":
            o = inplace(w, *w.pick(lists))
        elif kind == "derive":
            n = w.derived_state(s)
            o = ("derive", w.defs[n], dict(let=n))
            states.append(n)
        elif kind == "fig":
            o = figures_ops.figure(w, s) if w.ch(0.2) else read(w, s, dear=0.5)
        else:
            o = ioop(w, states, lists)
        ops.append(w.op(o[0], o[1], **o[2]))
    n = w.pick([1, 2, 2, 3])
    th = w.deal(ops, n, copies=0.2)
    return w.spec(th, fingerprint=w.pick([True, "switch"]), fault_rate=w.pick([0., 0., 0.4]), meta=w.meta())
