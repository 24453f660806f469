"""C05: every integration step follows the documented scheme."""
from ops import *

PARAMS = dict(quick=1500, thorough=15000)

def model_e(w, g, t):
    """Models with a wide range of configurations."""
    m = w.model(g, t, rhs=w.ch(0.85))
    k = w.defs[m].setdefault("k", {})
    if w.ch(0.1):
        k.pop("diffusion_coeff", None)
        k.pop("diffusion_order", None)
    return m

def step_dt(w, t):
    sec = w.pick([300, 450, 600, 900, 450.5, 1200, 3600, 90000, -600])
    if isinstance(t, dict):
        return {"td": sec}
    return float(sec) if isinstance(t, float) or sec != int(sec) else sec

def make(seed, tier):
    w = W("C05", seed, tier)
    gs = w.grids(w.pick([1, 1, 2]))
    threads = []
    nt = w.pick([1, 1, 2, 3])
    t0 = w.time()
    shared = {}
    for _ in range(nt):
        ops = []
        for _ in range(w.pick([1, 1, 2])):
            g = w.pick(gs)
            s = w.new_state(g, time=t0, kind=w.pick(["mixed", "mixed", "eddy", "rough", "zonal"]))
            if g not in shared or w.ch(0.4):
                shared[g] = model_e(w, g, t0)
            m = shared[g]
            if w.ch(0.3):
                ops.append(whole_run(w, g, m, s, t0))
            else:
                ops += trajectory(w, g, m, s, t0)
        threads.append(ops)
    return w.spec(threads, fault_rate=w.pick([0., 0.3, 0.6]), fingerprint=w.pick([None, None, True]), rtol=1e-5, meta=w.meta())

def trajectory(w, g, m, s, t0):
    dt = step_dt(w, t0)
    sec = abs(dt["td"] if isinstance(dt, dict) else dt)
    r = {"model": {"r": m}, "grid": g}
    out = []
    p = w.d("p", F("%eulerstep", R(m), R(s), dt))
    out.append(w.op("euler", w.defs[p], let=p, oracle=["pristine", "ref_euler"], ref=dict(r, dt=dt), sim=sec))
    old, now = {"i": [R(p), 0]}, {"i": [R(p), 1]}
    n = w.rng.randrange(1, 7) if sec < 5000 else 1
    for _ in range(n):
        filt = w.pick([None, None, None, 0.2, 0.05, 0., 0.5])
        e = F("%leapstep", R(m), old, now) if filt is None else F("%leapstep", R(m), old, now, filt)
        q = w.d("p", e)
        out.append(w.op("leapfrog", e, let=q, oracle=["pristine", "ref_leap"], ref=dict(r, filt=filt), sim=sec))
        old, now = {"i": [R(q), 2]}, {"i": [R(q), 3]}
        if w.ch(0.15):
            f = w.pick(FIELDS_CHEAP)
            out.append(w.op("read." + f, AT(now, f)))
        if w.ch(0.1):       # the same step with another model or filter, from the same states
            e2 = F("%leapstep", R(m), old, now, 0.1)
            out.append(w.op("leapfrog2", e2, oracle=["pristine", "ref_leap"], ref=dict(r, filt=0.1), sim=sec))
    return out

def whole_run(w, g, m, s, t0):
    sec = w.pick([300, 450, 600, 450.5])
    dt = {"td": sec} if isinstance(t0, dict) else (float(sec) if isinstance(t0, float) or sec != int(sec) else sec)
    n = w.rng.randrange(0, 9)
    tend = w.after(t0, sec * n - (w.pick([0, 0, 100]) if n else 0))
    save = 0 if isinstance(t0, dict) else w.pick([0, 0, 1, 2, 3]) * dt
    r = dict(model={"r": m}, grid=g, dt=dt, tend=tend, save=save)
    e = F("%runall", R(m), R(s), dt, tend, save, w.pick([None, "state"]))
    return w.op("run", e, oracle=["pristine", "ref_run"], ref=r, sim=sec * (n + 1))
