"""C15: a shared grid answers every request independently."""
from ops import *
from props.c12 import closure

PARAMS = dict(quick=900, thorough=16000)

def make(seed, tier):
    w = W("C15", seed, tier)
    gs = w.grids(w.pick([1, 2, 3, 4]))
    ops = []
    for _ in range(w.rng.randrange(5, 16)):
        g = w.pick(gs)
        o = gridop(w, g) if w.ch(0.75) else diagop(w, g)
        if w.ch(0.12):
            o = reuse(w, g)
        elif w.ch(0.12):
            o = fresh(w, g)
        ops.append(w.op(o[0], o[1], **o[2]))
        if w.ch(0.12):          # with arguments (and a grid) that exist for this request only
            ops.append(w.op("temporary." + o[0], inline(w, o[1], keep=list(w.grid) if w.ch(0.7) else ()), **o[2]))
        if "each" in o[2]:
            continue
        if w.ch(0.35):          # the same request to a sibling grid
            i = w.grid[g]
            sib = [x for x in gs if x != g and w.grid[x]["res"] == i["res"]]
            if sib:
                h = w.pick(sib)
                ops.append(w.op(o[0], rename(w, o[1], g, h), **o[2]))
        if w.ch(0.2):           # with one parameter changed
            ops.append(w.op(o[0], tweak(w, o[1]), **o[2]))
    n = w.pick([1, 2, 2, 3, 4])
    th = w.deal(ops, n, copies=0.25)
    if w.ch(0.25):
        t = w.pick(th)
        for _ in range(w.pick([2, 5])):
            g = w.new_grid(res=w.pick(RES[:3])[0], **w.planet())
            o = gridop(w, g, dear=0.4)
            pos = w.rng.randrange(len(t) + 1)
            t[pos:pos] = [w.op(o[0], o[1], **o[2]), w.drop(closure(w, g))]
    return w.spec(th, fault_rate=w.pick([0., 0.3, 0.6]), fingerprint=w.pick([None, True, "switch"]))

def rename(w, e, g, h):
    """The same request with grid h in place of g (regions are made anew)."""
    if isinstance(e, dict):
        if "r" in e:
            if e["r"] == g:
                return R(h)
            d = w.defs[e["r"]]
            if isinstance(d, dict) and "i" in d:
                return rename(w, d, g, h)
            return e
        return {k: rename(w, v, g, h) for k, v in e.items()}
    if isinstance(e, list):
        return [rename(w, v, g, h) for v in e]
    return e

ALT = {"sptrapz": "boxcount", "boxcount": "sptrapz", "hann": "boxcar", "boxcar": "hann", "zonal": "meridional",
       "meridional": "zonal", "real": "squared", "squared": "complex", "complex": "real", "lon2": "lat2", "lat2": "lon2",
       ".vorticity": ".divergence", ".divergence": ".vorticity"}

def tweak(w, e):
    if isinstance(e, dict):
        if "r" in e:
            if e["r"][0] in "ap" and isinstance(w.defs[e["r"]], dict) and w.ch(0.3):
                return R(w.d(e["r"][0], twin(w, e["r"])))
            return e
        return {k: tweak(w, v) for k, v in e.items()}
    if isinstance(e, list):
        return [tweak(w, v) for v in e]
    if isinstance(e, str):
        return ALT.get(e, e)
    if e is False or e is True:
        return not e
    return e
