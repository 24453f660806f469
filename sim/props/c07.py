"""C07: outcomes depend on elapsed time, not on the clock used."""
from ops import *

PARAMS = dict(quick=1500, thorough=15000)

ORIGINS = [0, 3600, -3600, -450, 86400, 10**7, 0.0, 600.0, -86400.0, 1.5e9, 0.5, -0.25, {"dt": "2000-01-01T00:00:00"},
           {"dt": "2021-03-14T01:30:00"}, {"dt": "2021-11-07T00:30:00"}, {"dt": "2021-03-28T00:45:00"}, {"dt": "2021-10-31T01:30:00"}, {"dt": "2021-10-03T01:00:00"},
           {"dt": "1970-01-01T00:00:00"}, {"dt": "2019-12-31T23:55:00"}, {"dt": "1850-03-01T06:00:00"}, {"dt": "2020-02-28T23:59:59.500000"},
           {"dt": "2020-02-28T23:00:00+00:00"}, {"dt": "2021-03-28T01:30:00+05:30"}, {"dt": "2021-11-07T00:30:00-08:00"}]
NUMBERS = [z for z in ORIGINS if not isinstance(z, dict)]

def make(seed, tier):
    w = W("C07", seed, tier)
    g = w.new_grid(**w.planet())
    # terms without a clock are shared by all variants of an experiment
    shared = [w.d("f", w.rhs_term(g)) for _ in range(w.pick([1, 2]))]
    i = w.grid[g]
    exps = [experiment(w, g, shared) for _ in range(w.pick([1, 1, 2]))]
    ops = []
    for x in exps:
        base = None
        for z in [0.0] + [w.pick(ORIGINS if x["nosave"] else NUMBERS) for _ in range(w.pick([1, 2, 3]))]:
            e, sim = instance(w, g, x, z)
            if base is None:
                base = e
            ops.append(w.op("experiment", e, oracle=["shifted"], base=base, origin=z, sim=sim))
    w.rng.shuffle(ops)
    th = w.deal(ops, w.pick([1, 2, 2, 3]), copies=0.2)
    return w.spec(th, fault_rate=w.pick([0., 0.3, 0.6]), rtol=1e-5, meta=w.meta())

def experiment(w, g, shared):
    i = w.grid[g]
    x = dict(ctor=w.pick(["pv", "wind", "vorticity"]), seed=w.num(), kind=w.pick(["mixed", "eddy"]),
             sec=w.pick([300, 450, 600, 900, 0.5, 86400]), n=w.rng.randrange(0, 8), how=w.pick(["run", "run", "steps", "chain", "list"]),
             diffusion=w.pick([{}, {"diffusion_coeff": 0.}, {"diffusion_order": 1, "diffusion_coeff": 1e5}]))
    if x["sec"] == 86400:
        x["n"] = min(x["n"], 1)
    x["off"] = w.pick([0, 0, 0.5, -0.25])
    x["save"] = w.pick([0, 1, 2, 1.5, 0.5])
    terms = []
    for _ in range(w.pick([1, 2, 3])):
        terms.append((R(w.pick(shared)) if w.ch(0.7) else F("%user_rhs", "stir", 2e-11, w.num()),
                      w.pick([None, -1, 0, 0.5, 1, 2, 2.5, 4]), w.ch(0.5)))
    x["terms"] = terms
    # runs on datetime clocks cannot keep intermediate states
    x["nosave"] = x["how"] != "run" or w.ch(0.5)
    return x

def instance(w, g, x, z):
    """The experiment on the clock with origin z."""
    i = w.grid[g]
    isdt = isinstance(z, dict)
    sec = x["sec"]
    d = {"td": sec} if isdt else (sec if isinstance(z, int) and w.ch(0.7) else float(sec))
    # (numbers of numpy would make the integration round differently)
    lib = w.pick([None, None, "pandas"]) if isdt else None
    tick = lambda x: x if lib is None else F("%clock", lib, x)
    d = tick(d)
    at = lambda s: tick(w.elsewhere(w.after(z, s)))
    fld = F("%pvfield", i["nlat"], i["nlon"], i["omega"], x["seed"], x["kind"]) if x["ctor"] == "pv" else \
        F("%field", i["nlat"], i["nlon"], x["seed"], x["kind"], 2e-5 if x["ctor"] == "vorticity" else 20.)
    if x["ctor"] == "pv":
        st = F("bt.State", R(g), tick(z), pv=fld)
    elif x["ctor"] == "vorticity":
        st = F("bt.State.from_vorticity", R(g), tick(z), fld)
    else:
        st = F("bt.State.from_wind", R(g), tick(z), fld, F("%field", i["nlat"], i["nlon"], x["seed"] + 1, x["kind"], 5.))
    s = w.d("s", st)
    w.state_grid[s], w.state_time[s] = g, z
    rhs = None
    for term, switch, first in x["terms"]:
        t = term
        if switch is not None:
            sw = F("bt.rhs.TimedOffSwitch", at(switch * sec))
            t = F("%mul", *([sw, term] if first else [term, sw]))
        rhs = t if rhs is None else F("%add", rhs, t)
    m = w.d("m", F("bt.BarotropicModel", rhs=R(w.d("f", rhs)), **x["diffusion"]))
    n, how = x["n"], x["how"]
    end = at(max(0, n + x["off"]) * sec)
    sim = sec * (n + 2)
    if how == "run":
        return F("%runall", R(m), R(s), d, end, 0 if x["nosave"] else x["save"] * sec), sim
    if how == "steps":
        return F("%stepwise", R(m), R(s), d, n), sim
    if how == "chain":
        return F("%chain", R(m), R(s), [{"tp": [d, end, 0]}, {"tp": [d, at((n + 3) * sec), 0]}]), sim * 2
    return F(".run", F("bt.StateList", [R(s), R(s)]), R(m), d, end), sim * 2
