"""C11: a state collection behaves exactly like its elements in order."""
from ops import *

PARAMS = dict(quick=1200, thorough=15000)

def make(seed, tier):
    w = W("C11", seed, tier)
    g = w.new_grid(**w.planet())
    eq = w.sibling(g, same_eq=True)
    other = w.sibling(g) if w.ch(0.5) else w.new_grid()
    t = w.time()
    states = []
    for k in range(w.rng.randrange(1, 6)):
        states.append(w.new_state(g if w.ch(0.8) else eq, time=w.after(t, 600 * k) if w.ch(0.8) else t))
    foreign = w.new_state(other, time=t)
    lists = []
    for _ in range(w.pick([1, 2])):
        mine = [w.pick(states) for _ in range(w.rng.randrange(1, 6))] if w.ch(0.6) else list(states)
        how = w.rng.random()
        arg = [R(s) for s in mine]
        if how < 0.5:
            e = F("bt.StateList", arg)
        elif how < 0.7:
            e = F("bt.StateList", {"tp": arg})
        elif how < 0.85:
            e = F("bt.StateList", F("%generator", *arg)) if w.ch(0.6) else F("%list_from_buffer", *arg)
        else:
            k = w.rng.randrange(len(mine) + 1)
            e = F("%add", F("bt.StateList", arg[:k]), w.pick([F("bt.StateList", arg[k:]), arg[k:]]))
        lists.append((w.d("L", e), mine))
    m = w.model(g, t)
    ops = []
    for _ in range(w.rng.randrange(3, 10)):
        L, mine = w.pick(lists)
        r = w.rng.random()
        if r < 0.7:
            o = listop(w, L, mine) if w.ch(0.94) else hovmoeller(w, L, mine)
        elif r < 0.82:
            dt = 600.
            if isinstance(t, dict):
                dt = {"td": 600}
            s0 = mine[0]
            tend = w.after(t, w.pick([0, 600, 1200, 1500]))
            o = ("list.run", F(".run", R(L), R(m), dt, tend), dict(oracle=["pristine", "list_run"], each=[F(".run", R(m), R(s), dt, tend) for s in mine], sim=1800. * len(mine)))
        elif r < 0.88:
            o = ("list.calls", F("%counted_map", R(L), w.pick(["ke", "u2", "self", "label"])), dict(oracle=["pristine", "once"], each=len(mine)))
        elif r < 0.91:
            mix = [R(s) for s in mine]
            mix.insert(w.rng.randrange(len(mix) + 1), R(foreign))
            k = w.rng.randrange(len(mix) + 1)
            e = w.pick([F("bt.StateList", mix), F("bt.StateList", F("%generator", *mix)), F("%add", R(L), w.pick([mix, {"tp": mix}])),
                        F("%add", R(L), F("%generator", *mix)), F("%add", R(L), F("bt.StateList", [R(foreign)])), F("%inplace", R(L), "add", mix)])
            o = ("reject.mixed", e, dict(oracle=["pristine", "rejects" if w.defs[other] != w.defs[g] else "none"]))
            if not grids_differ(w, other, w.state_grid[mine[0]]):
                o[2]["oracle"] = ["pristine"]
        elif r < 0.96:
            o = inplace(w, L, mine)
        elif r < 0.98:
            mix = [R(s) for s in mine]
            mix.insert(w.rng.randrange(len(mix) + 1), w.pick([1.0, "x", R(g), None, R(L)]))
            o = ("reject.nonstate", w.pick([F("bt.StateList", mix), F("bt.StateList", F("%generator", *mix)), F("%add", R(L), mix), F("%inplace", R(L), "add", mix)]), dict(oracle=["pristine", "rejects"]))
        else:
            o = ("list.count", F("%contains", R(L), R(w.pick(states))), {})
        ops.append(w.op(o[0], o[1], **o[2]))
        if w.ch(0.2):
            q = read(w, w.pick(mine))
            ops.append(w.op(q[0], q[1], **q[2]))
    n = w.pick([1, 1, 2, 3])
    th = w.deal(ops, n, copies=0.25)
    return w.spec(th, fault_rate=w.pick([0., 0.4, 0.8]), fingerprint=w.pick([None, True]), meta=w.meta())

def hovmoeller(w, L, mine):
    """The states of a collection, side by side."""
    gt = R(w.d("c", F("%getter", w.pick(["mean_u", "mean_v_m"]))))
    return ("list.hovmoeller", F("bt.plot.hovmoellerify", w.pick([R(L), [R(s) for s in mine]]), gt),
            dict(oracle=["pristine", "side_by_side"], each=[F("%callrhs", gt, R(s)) for s in mine], times=[AT(R(s), "time") for s in mine]))

def grids_differ(w, a, b):
    x, y = w.grid[a], w.grid[b]
    nt = lambda i: i["ntrunc"] or i["nlat"] - 1
    return (x["res"], x["rsphere"], x["omega"], nt(x)) != (y["res"], y["rsphere"], y["omega"], nt(y))
