"""C06: runs stop and save exactly on schedule."""
from ops import *

PARAMS = dict(quick=1400, thorough=15000)

def make(seed, tier):
    w = W("C06", seed, tier)
    gs = [w.new_grid(res=w.pick(RES[:4])[0], **w.planet()) for _ in range(w.pick([1, 1, 2]))]
    models = {g: w.model(g, 0.0, rhs=w.ch(0.4), timed=False) for g in gs}
    threads = []
    for _ in range(w.pick([1, 1, 2, 3])):
        ops = []
        for _ in range(w.pick([1, 2, 3])):
            ops.append(one(w, w.pick(gs), models))
        threads.append(ops)
    return w.spec(threads, fault_rate=w.pick([0., 0.2, 0.5]), rtol=1e-5, meta=w.meta())

def one(w, g, models):
    kind = w.rng.random()
    if kind < 0.2:
        start = {"dt": w.pick(["2000-01-01T00:00:00", "1999-12-31T23:50:00", "2016-02-28T12:34:56.500000", "2021-10-31T00:30:00+01:00"])}
    elif kind < 0.5:
        start = w.pick([0, 3600, -3600, 7, -100000, 10**7, 123457])
    else:
        start = w.pick([0., 3600., -3600., 0.25, -86400.5, 1e7, 1.5e9, 300.])
    s = w.new_state(g, time=start, kind=w.pick(["mixed", "zonal", "eddy"]), ctor=w.pick(["pv", "wind", "vorticity"]))
    legs, t, total = [], start, 0
    for _ in range(w.pick([1, 1, 2, 3])):
        sec = w.pick([300, 600, 450, 900, 600, 3600, 0.5, 450.25, 1])
        d = {"td": sec} if isinstance(start, dict) else (sec if isinstance(start, int) and sec == int(sec) else float(sec))
        n = w.rng.randrange(0, 12) if w.ch(0.9) else w.rng.randrange(12, 40)
        off = w.pick([0, 0, 0, 0.25, -0.25, 0.5, 0.75]) * sec
        end = n * sec + off
        if w.ch(0.08):
            end = -w.pick([0.25, 600, 86400])
        save = 0
        if not isinstance(start, dict):
            q = w.pick([0, 0, 1, 1, 2, 3, 5, 0.5, 1.5, 2.5, 0.75, 20])
            save = sec * q
            save = int(save) if save == int(save) and w.ch(0.5) else save
        tend = w.elsewhere(w.after(t, end))
        legs.append((d, tend, save))
        k = max(0, math.ceil(end / sec - 1e-12)) if end >= 0 else 0
        t = w.after(t, k * sec)
        total += (k + 1) * sec
    m = models[g]
    e = F("%chain", R(m), R(s), [{"tp": [d, tend, save]} for d, tend, save in legs])
    return w.op("chain", e, oracle=["schedule"], start=start, state=s, model=m, legs=[list(x) for x in legs], sim=total)
