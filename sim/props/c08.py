"""C08: an integration resumes exactly after a crash from its last states."""
from ops import *
from oracles_model import FORMS

PARAMS = dict(quick=900, thorough=13000)

def make(seed, tier):
    w = W("C08", seed, tier)
    gs = w.grids(w.pick([1, 1, 2]))
    t0 = w.time()
    models = {g: w.model(g, t0) for g in gs}
    threads = []
    for _ in range(w.pick([1, 1, 2, 3])):
        ops = []
        for _ in range(w.pick([1, 1, 2])):
            g = w.pick(gs)
            s = w.new_state(g, time=t0, kind=w.pick(["mixed", "eddy", "rough"]))
            dt = w.dt(s, g)
            sec = dt["td"] if isinstance(dt, dict) else dt
            m = models[g]
            r = w.rng.random()
            plain = w.grid[g]["ntrunc"] is None
            if r < 0.1:
                # each run starts anew (with an Euler step) where the one before stopped
                ends = [w.after(t0, sec * k) for k in sorted(w.rng.sample(range(1, 9), w.pick([2, 2, 3])))]
                form = w.pick([f for f in FORMS if f != "rebuild" or plain])
                ops.append(w.op("restart", F("%restarted", R(m), R(s), dt, ends, form, w.pick([None, "v", "falwa"])), oracle=["same"],
                                same=F("%restarted", R(m), R(s), dt, ends, None), versus="restarts from PV and time", sim=9. * sec))
            elif r < 0.65:
                n = w.rng.randrange(2, 12)
                every = w.pick([1, 1, 2, 3])
                form = w.pick([f for f in FORMS if f != "rebuild" or plain])
                e = F("%resumable", R(m), R(s), dt, n, form, every, w.pick([None, None, "v", "pv", "streamfunction", "falwa"]),
                      every * w.rng.randrange(1, max(2, n // every + 1)) if w.ch(0.7) else None)
                ops.append(w.op("integration", e, sim=sec * (n + 1), crashes=True))
            elif r < 0.85:
                k, n = w.rng.randrange(0, 5), w.rng.randrange(1, 5)
                what = w.pick(["two", "two", "one"])
                res = dict(model=R(m), state=R(s), dt=dt, k=k, what=what, n=n, interpreter=w.ch(0.06))
                ops.append(w.op("checkpoint", F("%checkpoint", R(m), R(s), dt, k, what, w.pick([None, "list"])),
                                oracle=["elsewhere"], resume=res, sim=sec * (k + 1)))
            else:
                others = [w.new_state(g, time=w.after(t0, w.pick([0, 0, -1, 1, 2, 5]) * sec)) for _ in range(w.pick([1, 2]))]
                others.insert(w.rng.randrange(len(others) + 1), s)
                L = F("bt.StateList", [R(x) for x in others])
                tend = w.after(t0, sec * w.rng.randrange(0, 4))
                how = w.pick(["%pickled", "%deepcopied", "%copied", "%relisted"])
                if w.ch(0.5):
                    ops.append(w.op("list.resumed", F(".run", F(how, R(w.d("L", L))), R(m), dt, tend), oracle=["same"],
                                    same=F(".run", L, R(m), dt, tend), versus="the collection itself", sim=3. * sec))
                else:
                    f = w.pick(FIELDS_CHEAP + ["falwa", "pv_zonalized"])
                    ops.append(w.op("list.field", AT(F(how, R(w.d("L", L))), f), oracle=["same"], same=AT(L, f), versus="the collection itself"))
        threads.append(ops)
    return w.spec(threads, fault_rate=w.pick([0.7, 1.0]), fault_versions=2, max_faults=4, rtol=1e-5, meta=w.meta())
