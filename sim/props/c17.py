"""C17: process-wide settings are neither used nor changed."""
from ops import *
import figures_ops
from props.c02 import ioop

PARAMS = dict(quick=900, thorough=12000)
STUBS = ["thread scheduler (simulator decides every switch)", "clocks, time zone and random numbers of the machine (drawn per run)",
         "user-supplied callbacks (harness code with fault points)"]

def user_settings(w):
    return {"print": dict(precision=w.pick([1, 2, 3, 8, 17]), suppress=w.ch(0.5), threshold=w.pick([3, 10, 1000]), linewidth=w.pick([20, 75, 200]), edgeitems=w.pick([1, 3])),
            "err": dict(divide=w.pick(["ignore", "warn"]), over=w.pick(["ignore", "warn"]), under=w.pick(["ignore", "warn"]), invalid=w.pick(["ignore", "warn"])),
            "warn": w.pick(["ignore", "default", "always"]),
            "xarray": dict(keep_attrs=w.pick([True, False, "default"]), arithmetic_join=w.pick(["inner", "exact", "outer"]), display_width=w.pick([40, 80])),
            "prec": w.pick([3, 28, 50])}

def alike(w, g):
    """A request with several arguments that print alike."""
    f = w.pick([".filter_meridional", ".filter_zonal", ".zonalize", ".quad_meridional", ".equivalent_latitude", "falwa"])
    a = array(w, g)
    r = 4 * math.pi * w.grid[g]["rsphere"] ** 2
    base = w.d("p", {"arr": w.pick([[0.25, 0.5, 0.25], [0.125, 0.25, 0.25, 0.25, 0.125], [1. / 3] * 3])} if "filter" in f else
               {"arr": [0.1 * r, 0.4 * r, 0.9 * r]} if "equ" in f else {"arr": [0.5, 0.2, -0.1, -0.4]})
    out = []
    for k in range(w.pick([2, 3, 4])):
        p = R(w.d("p", F("%twin", R(base), w.num(), w.pick([1e-4, 1e-3, 3e-3, 0.02])))) if k else R(base)
        if "filter" in f:
            e = F(f, R(g), a, p)
        elif f == ".equivalent_latitude":
            e = F(f, R(g), p)
        elif f == ".quad_meridional":
            e = F(f, R(g), R(w.d("p", F("%twin", a, w.num(), 1e-3)))if k else a)
        elif f == ".zonalize":
            e = F(f, R(g), a, levels=p)
        else:
            e = F("bt.diagnostics.falwa", a, R(g), levels=p)
        out.append(w.op("alike." + f.strip("."), e))
    w.rng.shuffle(out)
    return out

def make(seed, tier):
    w = W("C17", seed, tier)
    gs = w.grids(w.pick([1, 1, 2]))
    states, lists, models = [], [], {}
    for g in gs:
        t = w.time()
        mine = [w.new_state(g, time=t if w.ch(0.6) else None) for _ in range(w.pick([1, 2, 3]))]
        states += mine
        models[g] = w.model(g, t)
        if w.ch(0.6):
            lists.append((w.d("L", F("bt.StateList", [R(s) for s in mine])), mine))
    ops = []
    for _ in range(w.rng.randrange(3, 10)):
        s = w.pick(states)
        g = w.state_grid[s]
        kind = among(w, "kinds", ["read", "read", "read", "step", "list", "grid", "diag", "diag", "rhs", "io", "io", "io", "fig"])
        g = w.pick(gs) if kind in ("grid", "diag") else g
        if kind == "list" and not lists:
            kind = "read"
        if kind == "read":
            o = read(w, s, dear=0.3)
        elif kind == "step":
            o = stepper(w, g, s, models[g])
        elif kind == "list":
            o = listop(w, *w.pick(lists))
        elif kind == "grid":
            o = gridop(w, g)
        elif kind == "diag":
            o = diagop(w, g, wavelet=0.1)
        elif kind == "rhs":
            o = ("rhs", F("%callrhs", w.rhs(g, w.state_time[s]), R(s)), {})
        elif kind == "fig":
            o = figures_ops.figure(w, s) if w.ch(0.5) else read(w, s, dear=0.3)
        else:
            o = ioop(w, states, lists)
            if lists and w.ch(0.4):
                L, mine = w.pick(lists)
                o = ("restore", F("bt.io.from_dataset", F("%stored", F("bt.io.as_dataset", R(L), w.pick([["u", "v"], ["vo"], "avo"])))), {})
        k = dict(o[2])
        if w.ch(0.006):
            k["oracle"] = k.get("oracle", ["pristine"]) + ["elsewhere_same"]
        ops.append(w.op(o[0], o[1], **k))
    if w.ch(0.2):
        ops += alike(w, w.pick(gs))
    th = w.deal(ops, w.pick([1, 1, 1, 2, 3]), copies=0.15)
    spec = w.spec(th, fault_rate=w.pick([0., 0.5, 0.9]), meta=w.meta())
    spec["machine"]["settings"] = user_settings(w)
    return spec
