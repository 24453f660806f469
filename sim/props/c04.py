"""C04: integrations sharing a model, forcing and grid are isolated."""
from ops import *

PARAMS = dict(quick=1500, thorough=15000)

def make(seed, tier):
    w = W("C04", seed, tier)
    gs = w.grids(w.pick([1, 2, 2, 3]))
    g0 = gs[0]
    t0 = w.time()
    rhs_shared = w.rhs(g0, t0) if w.ch(0.7) else None
    models = [w.model(g0, t0, bg=w.ch(0.3))]
    def with_rhs(m):
        if rhs_shared is not None and w.ch(0.8):
            w.defs[m].setdefault("k", {})["rhs"] = rhs_shared
        return m
    with_rhs(models[0])
    if w.ch(0.5):
        models.append(with_rhs(w.model(g0, t0)))
    shape = lambda g: SHAPE[w.grid[g]["res"]]
    usable = [g for g in gs if shape(g) == shape(g0)]
    states = []
    for _ in range(w.rng.randrange(1, 5)):
        g = g0 if w.ch(0.5) else w.pick(usable)
        t = t0 if w.ch(0.7) or isinstance(t0, dict) else t0 + w.pick([0, 600, -1200, 86400])
        states.append(w.new_state(g, time=t, kind=w.pick(["mixed", "eddy", "rough", "zonal"])))
    ops = []
    for _ in range(w.rng.randrange(3, 9)):
        m = w.pick(models)
        s = w.pick(states)
        o = integration(w, w.state_grid[s], s, m, models, states)
        ops.append(w.op(o[0], o[1], **o[2]))
        if w.ch(0.12):      # with a model, forcing and states that exist for this integration only
            ops.append(w.op("temporary." + o[0], inline(w, o[1], keep=list(w.grid) if w.ch(0.5) else ()), **o[2]))
    n = w.pick([1, 2, 2, 3, 4])
    th = w.deal(ops, n, copies=0.3)
    return w.spec(th, fault_rate=w.pick([0., 0.3, 0.6]), fingerprint=w.pick([None, True]), rtol=1e-5, meta=w.meta())

def integration(w, g, s, m, models, states):
    r = w.rng.random()
    dt = w.dt(s, g)
    sec = dt["td"] if isinstance(dt, dict) else dt
    if r < 0.15:
        # step by step, reading fields of intermediate states in between
        return "probed", F("%probed_steps", R(m), R(s), dt, w.rng.randrange(1, 5), w.pick(FIELDS_CHEAP)), dict(sim=3 * sec)
    if r < 0.27:
        # one integration in the middle of another one
        m2, s2 = w.pick(models), w.pick([x for x in states if isinstance(w.state_time[x], dict) == isinstance(w.state_time[s], dict)])
        return "nested", F("%nested", R(m), R(s), R(m2), R(s2), dt, w.rng.randrange(1, 4)), dict(sim=6 * sec)
    if r < 0.35:
        # abandoned half-way, then run in full
        return "abandoned", F("%abandoned", R(m), R(s), dt, w.rng.randrange(1, 4)), dict(sim=6 * sec)
    if r < 0.42:
        return "varied_dt", F("%two_dts", R(m), R(s), dt), dict(sim=6 * sec)
    return stepper(w, g, s, m)
