"""C18: nothing piles up: memory is bounded by what the caller holds."""
from ops import *
from props.c02 import ioop
import json

PARAMS = dict(quick=500, thorough=5000)
STUBS = ["thread scheduler (simulator decides every switch)", "user-supplied callbacks (harness code with fault points)",
         "storage: arrays behind an xarray backend whose reads are yield and fault points"]

def planet(e, x):
    """Grids of another planet, but all of the same one."""
    if isinstance(e, dict):
        e = {k: planet(v, x) for k, v in e.items()}
        if e.get("f") == "bt.Grid":
            e["k"] = dict(e.get("k", {}), omega=e.get("k", {}).get("omega", EARTH_OM) * x)
        return e
    return [planet(v, x) for v in e] if isinstance(e, list) else e

def make(seed, tier):
    w = W("C18", seed, tier)
    own = w.ch(0.25)                     # every round has its own grids, models and terms
    g = w.grids(1)[0]
    t = w.time()
    states = [w.new_state(g, time=t, buffer=False) for _ in range(w.pick([1, 2]))]
    L = (w.d("L", F("bt.StateList", [R(s) for s in states])), states)
    m = w.model(g, t)
    m2 = w.model(g, t)
    if w.ch(0.4):
        w.defs[m2].setdefault("k", {})["rhs"] = F("%user_rhs", "broken", 1e-11)
    n = w.pick([1, 1, 1, 2, 3])
    block = []
    for _ in range(w.pick([1, 2]) if own else w.rng.randrange(2, 6)):
        s = w.pick(states)
        kind = w.pick(["read", "read", "derived", "step", "step", "run", "list", "list", "grid", "grid", "fawa", "diag", "rhs", "io", "import", "broken", "copy"])
        if kind == "read":
            o = read(w, s, dear=0.2)
        elif kind == "derived":
            o = "derived", w.pick([F(".add_wind", R(s), R(w.pick(states))), F(".add_vorticity", R(s), R(w.pick(states))), AT(F(".euler", R(m), R(s), w.dt(s, g)), "u")]), {}
        elif kind in ("step", "run"):
            o = stepper(w, g, s, m)
        elif kind == "list":
            o = listop(w, *L)
        elif kind == "grid":
            o = gridop(w, g, dear=0.05)
        elif kind == "fawa":
            o = gridop(w, g, dear=1.)
        elif kind == "diag":
            o = diagop(w, g, wavelet=0.)
        elif kind == "rhs":
            o = "rhs", F("%callrhs", R(w.d("h", w.rhs(g, t))), R(s)), {}
        elif kind == "io":
            o = ioop(w, states, [L])
        elif kind == "import":
            o = "import", F("bt.io.from_dataset", F("bt.io.as_dataset", R(L[0]), w.pick([["u", "v"], "vo"]))), {}
        elif kind == "copy":
            o = "copy", F(w.pick(["%copied", "%deepcopied", "%pickled"]), R(w.pick([s, L[0]]))), {}
        else:
            o = stepper(w, g, s, m2)
        block.append(o)
    # (forcing terms stay in most runs: their caches belong to them)
    keep = [] if own and w.ch(0.4) else [x for x in w.defs if x[0] not in ("gsLzap" if own else "sLap")]
    ops = []
    rounds = 26 if own else 9
    for k in range(rounds):
        for o in block:
            e = inline(w, o[1], keep=keep)
            if own:
                e = planet(e, 1. + 1e-6 * k)
            ops.append(w.op("round." + o[0], reseed(w, e), oracle=["none"], **{x: y for x, y in o[2].items() if x == "sim"}))
        if n == 1 and k in (1, rounds // 2, rounds - 1):
            ops.append(w.op("mark", F("%mark"), oracle=["none"], nofault=True, retry=False))
    th = [[] for _ in range(n)]
    for k, o in enumerate(ops):
        th[k % n].append(o)
    if n == 1 and w.ch(0.4) and not isinstance(t, dict):
        s = w.new_state(g, time=t, buffer=False)
        th[0].append(w.op("peak", F("%peak", R(m), R(s), w.dt(s, g), w.pick([24, 36]), w.pick([0, 0, 6, 12])), oracle=["few"], nofault=True, retry=False))
    i = w.grid[g]
    return w.spec(th, fault_rate=w.pick([0., 0.4, 0.8]), opcode=False, post=["bounded"],
                  memory=dict(trace=n == 1 and not own and w.ch(0.5), rounds=rounds - 2, bytes=0 if own else max(800, 4 * i["nlat"] * i["nlon"]),
                              final=dict(State=8, StateList=8, Grid=20, GridRegion=20, BarotropicModel=8)))
