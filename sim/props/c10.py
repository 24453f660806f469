"""C10: export keeps every record, importing it back restores the states."""
from ops import *

PARAMS = dict(quick=1000, thorough=9000)
STUBS = ["thread scheduler (simulator decides every switch)", "files: netCDF bytes kept in memory, writes and reads are yield and fault points",
         "user-supplied field functions (harness code with fault points)"]

GRIDDED = ["u", "v", "pv", "avo", "vorticity", "vo", "streamfunction", "energy", "enstrophy", "eddy_enstrophy"]

def fields(w, getters):
    """(argument, {name: getter expression or attribute})"""
    pool = w.__dict__.setdefault("_fields", [])
    if pool and w.ch(0.4):
        return w.pick(pool)
    arg, m = new_fields(w, getters)
    if not isinstance(arg, str) and "tp" not in arg and w.ch(0.5):
        arg = R(w.d("o", arg))
        pool.append((arg, m))
    return arg, m

def new_fields(w, getters):
    r = w.rng.random()
    if r < 0.2:
        f = w.pick(GRIDDED + ["fawa", "pv_zonalized"])
        return f, {f: f}
    if r < 0.5:
        fs = w.rng.sample(GRIDDED, w.rng.randrange(1, 4))
        if w.ch(0.15):
            fs.append(w.pick(["falwa", "stationary_wavenumber", "v_envelope_hilbert"]))
        return (fs if w.ch(0.6) else {"tp": fs}), {f: f for f in fs}
    m = {}
    for k in range(w.rng.randrange(1, 4)):
        r = w.rng.random()
        if r < 0.4:
            m[w.pick(["a", "b", "field", "u", "v", "avo"]) + str(k)] = w.pick(GRIDDED)
        else:
            m["f" + str(k)] = R(w.pick(getters))
    return {"d": m}, m

def make(seed, tier):
    w = W("C10", seed, tier)
    gs = [w.new_grid(**w.planet())]
    if w.ch(0.3):
        gs.append(w.new_grid(**w.planet()))
    getters = [w.d("c", F("%getter", k)) for k in ("mean_u", "mean_v_m", "ke", "u2", "wide", "scalar", "count", "field64", "flag", "complex")]
    lists = []
    for g in gs:
        for _ in range(w.pick([1, 1, 2])):
            t = w.time()
            n = w.rng.randrange(1, 6)
            step = w.pick([600, 3600, 86400, -1800, 1])
            secs = [step * k for k in range(n)]
            if w.ch(0.3):
                w.rng.shuffle(secs)
            if w.ch(0.25):      # states of several experiments, at equal times
                secs = [w.pick(secs) for _ in secs]
            states = []
            if w.ch(0.2):
                # states of an integration
                s = w.new_state(g, time=t)
                m = w.model(g, t)
                L = w.d("L", F("bt.StateList", F("%steps", R(m), R(s), w.dt(s, g), n)))
                # (not judged against single states: those would be computed anew)
                lists.append((g, L, None, t, m, s))
                continue
            for k in secs:
                states.append(w.new_state(g, time=w.after(t, k), kind=w.pick(["mixed", "eddy", "rough", "mixed"])))
            lists.append((g, None, states, t, None, None))
    ops = []
    for _ in range(w.rng.randrange(2, 6)):
        g, L, states, t, m, s0 = w.pick(lists)
        if L is not None:
            arg, _ = fields(w, getters)
            ops.append(w.op("export.run", F("bt.io.as_dataset", R(L), arg)))
            continue
        refs = [R(s) for s in states]
        r = w.rng.random()
        if r < 0.12:
            arg, _ = fields(w, getters)
            ops.append(w.op("export.exact", F("%exact", w.pick([refs, F("bt.StateList", refs)]), arg, {"d": w.pick([{}, {}, {"concat_dim": "number"}])}), oracle=["exactly"]))
        elif r < 0.2:
            g_, i = g, w.grid[g]
            ks = w.rng.sample(range(10, 99), w.pick([1, 2, 3]))
            ms = [w.d("s", F("%member", R(g), w.after(t, 60 * q), R(w.d("a", F("%pvfield", i["nlat"], i["nlon"], i["omega"], w.num()))), k)) for q, k in enumerate(ks)]
            for n in ms:
                w.state_grid[n], w.state_time[n] = g, t
            arg, m = fields(w, getters)
            ops.append(w.op("export.member", F("bt.io.as_dataset", [R(n) for n in ms], arg, concat_dim="member"), oracle=["exported"],
                            export=dict(states=ms, grid=g, fields=m, dim="member", dimvalues="member")))
        elif r < 0.5:
            arg, m = fields(w, getters)
            x = dict(states=states, grid=g, fields=m)
            k = {}
            q = w.rng.random()
            if q < 0.2:
                k["concat_dim"] = x["dim"] = w.pick(["number", "record", "step"])
            elif q < 0.25:
                k["concat_dim"] = x["dim"] = "energy_total"
            form = w.rng.randrange(6)
            if form == 0:
                e = F("bt.io.as_dataset", refs, arg, **k)
            elif form == 1:
                e = F("bt.io.as_dataset", F("%generator", *refs), arg, **k)
            elif form == 2:
                e = F(".as_dataset", F("bt.StateList", refs), arg, **k)
            elif form == 3 and len(states) == 1:
                e = F("bt.io.as_dataset", refs[0], arg, **k)
            elif form == 4:
                seen = [f for f in (list(x["fields"].values())) if isinstance(f, str)]
                e = F("bt.io.as_dataset", F("%touched", refs, seen), arg, **k)
            else:
                e = F("bt.io.as_dataset", F("bt.StateList", refs), arg, **k)
            ops.append(w.op("export", e, oracle=["exported"], export=x))
        elif r < 0.55:
            # default fields, and no states at all
            if w.ch(0.5):
                ops.append(w.op("export.default", F("bt.io.as_dataset", F("bt.StateList", refs)), oracle=["exported"],
                                export=dict(states=states, grid=g, fields={"u": "u", "v": "v"})))
            else:
                ops.append(w.op("export.none", F("bt.io.as_dataset", []), oracle=["exported"], export=dict(states=[], grid=g, fields={})))
        else:
            via = w.pick(["wind", "vo", "avo"])
            fs = {"wind": ["u", "v"], "vo": ["vo"], "avo": ["avo"]}[via]
            if w.ch(0.3):
                fs = fs + w.rng.sample({"wind": ["vo", "avo", "energy"], "vo": ["avo", "u", "enstrophy"], "avo": ["v", "energy", "streamfunction"]}[via], 1)
            names = None
            arg = fs
            if w.ch(0.25):
                new = {"u": "uwnd", "v": "vwnd", "vo": "rv", "avo": "q"}
                arg = {"d": {new.get(f, f): f for f in fs}}
                names = {f: new[f] for f in fs if f in new}
            arg = w.shared(arg)
            ds = F("bt.io.as_dataset", F("bt.StateList", refs) if w.ch(0.7) else refs, arg)
            k = {}
            i = w.grid[g]
            gk = {}
            if i["rsphere"] != EARTH_R:
                gk["rsphere"] = i["rsphere"]
            if i["omega"] != EARTH_OM:
                gk["omega"] = i["omega"]
            if gk:
                k["grid_kwargs"] = w.shared({"d": gk})
            if names:
                k["names"] = w.shared({"d": names})
            if w.ch(0.35):
                ds = F("%stored", ds)
            elif w.ch(0.3):
                ds = R(w.d("x", ds))
            ops.append(w.op("restore", F("bt.io.from_dataset", ds, **k), oracle=["restored"], export=dict(states=states, grid=g, via=via)))
        if w.ch(0.2):
            q = read(w, w.pick(states))
            ops.append(w.op(q[0], q[1], **q[2]))
    th = w.deal(ops, w.pick([1, 2, 2, 3]), copies=0.2)
    return w.spec(th, fault_rate=w.pick([0., 0.5, 0.9]), fingerprint=w.pick([None, True]), meta=w.meta())
