"""C13: invariants of the flow survive any integration history."""
from ops import *

PARAMS = dict(quick=2000, thorough=15000)

def make(seed, tier):
    w = W("C13", seed, tier)
    threads = []
    gs = w.grids(w.pick([1, 1, 2]))
    for _ in range(w.pick([1, 1, 2, 3])):
        ops = []
        for _ in range(w.pick([1, 2])):
            ops += experiment(w, w.pick(gs))
        threads.append(ops)
    return w.spec(threads, fault_rate=w.pick([0., 0.4, 0.8]), fingerprint=w.pick([None, True]), rtol=1e-5, meta=w.meta())

def history(w, m, s, dt, n):
    """An integration in one of several forms; the result holds its states."""
    r = w.rng.random()
    if r < 0.4:
        return F("%stepwise", R(m), R(s), dt, n)
    if r < 0.7:
        return F("%resumable", R(m), R(s), dt, n, w.pick(["kept", "deepcopy", "pickle", "list-pickle"]), w.pick([1, 2]), None, w.rng.randrange(1, n + 1))
    t0 = w.state_time[s]
    sec = dt["td"] if isinstance(dt, dict) else dt
    k = w.rng.randrange(0, n)
    if r < 0.85:
        return F("%chain", R(m), R(s), [{"tp": [dt, w.after(t0, k * sec), 0]}, {"tp": [dt, w.after(t0, n * sec), 0]}])
    return F(".run", R(s), R(m), dt, w.after(t0, n * sec))

def diffusion(w, g, none=0.4):
    i = w.grid[g]
    r = w.rng.random()
    if r < none:
        return {"diffusion_coeff": 0.}
    if r < none + 0.15:
        return {}
    o = w.pick([1, 2, 3])
    n = i["nlat"] - 1
    return {"diffusion_order": o, "diffusion_coeff": w.pick([0.1, 1.]) / (600. * (n * (n + 1) / i["rsphere"] ** 2) ** o)}

def experiment(w, g):
    i = w.grid[g]
    t0 = w.time()
    kind = w.pick(["mean", "zonal", "zonal", "still", "diffuse", "rossby", "roll", "roll", "mirror", "mirror"])
    n = w.rng.randrange(1, 9)
    inv = dict(grid=g)
    dif = diffusion(w, g)
    if kind == "mean":
        s = w.new_state(g, time=t0, kind=w.pick(["mixed", "eddy", "rough", "mixed+", "eddy+"]), **({"ctor": w.pick(["pv", "vorticity"])} if w.ch(0.5) else {}))
        # forcing by winds over mountains adds to the mean, so none here
        m = w.model(g, t0, rhs=False, diffusion=dif, bg=False)
        inv.update(what=["mean"], rough=True)
    elif kind == "zonal":
        s = w.new_state(g, time=t0, zonal=True, ctor=w.pick(["pv", "vorticity", "wind", "init"]), kind=w.pick(["zonal", "zonal", "zonal+"]))
        m = w.model(g, t0, rhs=False, diffusion=dif, bg=w.ch(0.3) and dif.get("diffusion_coeff") != 0.)
        inv.update(what=["mean", "zonal"] if not w.defs[m].get("k", {}).get("diffusion_bg") else ["zonal"])
        if w.defs[m].get("k", {}).get("diffusion_bg"):
            inv["bg"] = w.defs[m]["k"]["diffusion_bg"]
        if dif.get("diffusion_coeff") == 0. :
            inv["what"] = ["mean", "zonal", "steady"]
    elif kind == "still":
        s = w.d("s", F("bt.init.motionless", R(g), t0))
        w.state_grid[s], w.state_time[s] = g, t0
        # a planet at rest under diffusion of the anomaly only
        dif = {"diffusion_coeff": 0.} if w.ch(0.5) else dif
        m = w.model(g, t0, rhs=False, diffusion=dif, bg=False)
        if dif.get("diffusion_coeff") != 0.:
            w.defs[m]["k"] = dict(w.defs[m].get("k", {}), diffusion_bg=AT(R(g), "fcor2"))
        inv.update(what=["mean", "still"])
    elif kind == "diffuse":
        s = w.new_state(g, time=t0, zonal=True, ctor="pv", kind="zonal")
        dif = diffusion(w, g, none=0.)
        bg = w.ch(0.5)
        m = w.model(g, t0, rhs=False, diffusion=dif, bg=bg)
        inv.update(what=["zonal", "diffuse"])
        if bg:
            inv["bg"] = w.defs[m]["k"]["diffusion_bg"]
    elif kind == "rossby":
        return rossby(w)
    else:
        return symmetric(w, g, kind, t0, n, dif)
    dt = w.dt(s, g)
    sec = dt["td"] if isinstance(dt, dict) else dt
    inv.update(state=s, dt=sec)
    return [w.op("inv." + kind, history(w, m, s, dt, n), oracle=["pristine", "invariant"], inv=inv, sim=sec * (n + 1))]

def rossby(w):
    g = w.new_grid(res=w.pick([15., 12., 10.]), **({} if w.ch(0.5) else {"omega": w.pick([3.6e-5, 1.5e-4, -7.292e-5]), "rsphere": w.pick([EARTH_R, 3e6])}))
    i = w.grid[g]
    nn = w.rng.randrange(1, 5)
    mm = w.rng.randrange(1, nn + 1)
    t0 = w.time()
    s = w.d("s", F("bt.State", R(g), t0, pv=F("%harmonic", i["nlat"], i["nlon"], i["omega"], nn, mm, w.pick([1e-6, 1e-5]))))
    w.state_grid[s], w.state_time[s] = g, t0
    m = w.model(g, t0, rhs=False, diffusion={"diffusion_coeff": 0.}, bg=False)
    dt = w.dt(s, g)
    sec = dt["td"] if isinstance(dt, dict) else dt
    n = w.rng.randrange(2, 25)
    inv = dict(grid=g, state=s, what=["mean", "rossby"], nm=[nn, mm], dt=sec, inviscid=True)
    return [w.op("inv.rossby", history(w, m, s, dt, n), oracle=["pristine", "invariant"], inv=inv, sim=sec * (n + 1))]

def symmetric(w, g, how, t0, n, dif):
    """The same experiment in two geometries that a symmetry maps on each other."""
    i = w.grid[g]
    k = w.rng.randrange(1, i["nlon"]) if how == "roll" else 0
    ctor = w.pick(["pv", "vorticity", "wind"])
    kind = w.pick(["mixed", "eddy", "rough"])
    sd = w.num()
    relax = w.ch(0.4)
    stir = w.ch(0.3)
    bgs = w.ch(0.3)
    sds = [w.num() for _ in range(3)]
    mountain = w.ch(0.4) and dict(h=w.pick([500., 1500.]), at=w.pick([30., -20., 45.]), where=w.pick([0., 120., 350.]), width=w.pick([20., 40.]),
                                  wind={"tp": w.pick([["act", 0.5], ["zon", 1.], ["sbr", 15.]])}, which=w.rng.randrange(3),
                                  off=w.after(t0, w.pick([0, 900, 1500])) if w.ch(0.4) else None)
    T = lambda e, sign: F("%turned", e, how, k, sign)
    def geometry(turned):
        f = (lambda e, sign: T(e, sign)) if turned else (lambda e, sign: e)
        if ctor == "pv":
            st = F("bt.State", R(g), t0, pv=f(F("%pvfield", i["nlat"], i["nlon"], i["omega"], sd, kind), -1))
        elif ctor == "vorticity":
            st = F("bt.State.from_vorticity", R(g), t0, f(F("%field", i["nlat"], i["nlon"], sd, kind, 2e-5), -1))
        else:
            st = F("bt.State.from_wind", R(g), t0, f(F("%field", i["nlat"], i["nlon"], sd, kind, 20.), 1), f(F("%field", i["nlat"], i["nlon"], sd + 1, kind, 5.), -1))
        s = w.d("s", st)
        w.state_grid[s], w.state_time[s] = g, t0
        rhs = None
        if relax:
            rhs = F("bt.rhs.LinearRelaxation", 1e-5, f(F("%pvfield", i["nlat"], i["nlon"], i["omega"], sds[0], "mixed"), -1))
        if stir:
            a = F("%user_rhs", "damp", 1e-6)
            rhs = a if rhs is None else F("%add", rhs, a)
        if mountain:
            q = mountain
            sg = -1. if turned and how == "mirror" else 1.
            if how == "roll" or q["which"] == 0:
                a = F("%user_orography", q["h"], (q["where"] + (k * 360. / i["nlon"] if turned else 0.)) % 360., q["width"], wind=q["wind"])
            elif q["which"] == 1:
                a = F("bt.rhs.ZonalSineMountains", q["h"], sg * q["at"], q["width"] / 2., 2, wind=q["wind"])
            else:
                a = F("bt.rhs.GaussianMountain", q["h"], {"tp": [q["where"], sg * q["at"]]}, {"tp": [q["width"] / 2., 20.]}, wind=q["wind"])
            if q["off"] is not None:
                a = F("%mul", a, F("bt.rhs.TimedOffSwitch", q["off"]))
            rhs = a if rhs is None else F("%add", rhs, a)
        mk = dict(dif)
        if rhs is not None:
            mk["rhs"] = rhs
        if bgs:
            mk["diffusion_bg"] = f(F("%pvfield", i["nlat"], i["nlon"], i["omega"], sds[1], "mixed"), -1)
        return s, w.d("m", F("bt.BarotropicModel", **mk))
    s0, m0 = geometry(False)
    s1, m1 = geometry(True)
    dt = w.dt(s0, g)
    sec = dt["td"] if isinstance(dt, dict) else dt
    base = F("%stepwise", R(m0), R(s0), dt, n)
    e = F("%stepwise", R(m1), R(s1), dt, n)
    inv = dict(grid=g, dt=sec)
    out = [w.op("sym." + how, e, oracle=["symmetric"], base=base, inv=inv, sym=[how, k], sim=sec * (n + 1))]
    if w.ch(0.6):
        out.insert(w.rng.randrange(2), w.op("sym.base", base, sim=sec * (n + 1)))
    return out
