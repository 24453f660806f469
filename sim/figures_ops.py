"""Operations that draw."""
from gen import *

def options(w, kind):
    k = {}
    if w.ch(0.4):
        k["hemisphere"] = w.pick(["N", "S", "both"])
    if kind == "waveguides":
        if w.ch(0.6):
            k["k_waveguides"] = w.pick([2, {"tp": [2, 4]}, [1, 3, 5]])
        if w.ch(0.4):
            k["legend_loc"] = w.pick(["lower right", "upper left"])
        if w.ch(0.3):
            k["klim_bounds"] = {"tp": w.pick([[-3, 8], [0, 6], [-10, 25]])}
        return k
    if w.ch(0.4):
        k["center_lon"] = w.pick([0, 90, 180, 270, -30])
    if w.ch(0.3):
        k["figsize"] = {"tp": w.pick([[5, 4], [9, 6]])}
    if kind == "summary":
        if w.ch(0.3):
            k["pv_max"] = w.pick([1e-4, 3e-4])
        if w.ch(0.3):
            k["v_max"] = w.pick([10, 30])
        if w.ch(0.3):
            k["pv_cmap"] = w.pick(["magma", "RdBu"])
    elif kind == "wave_activity":
        if w.ch(0.3):
            k["falwa_cmap"] = w.pick(["magma", "Blues"])
    else:
        if w.ch(0.3):
            k["v_max"] = w.pick([10, 30])
        if w.ch(0.5):
            k["rwp_max"] = w.pick([10., 40.])
    return k

KINDS = ["summary", "wave_activity", "rwp_diagnostics", "waveguides", "waveguides"]

def figure(w, s, kind=None):
    kind = kind or w.pick(KINDS)
    k = options(w, kind)
    if w.ch(0.3):
        return "plot." + kind, F("%shortcut", R(s), kind, {"d": k}), dict(oracle=["pristine", "content"], content={"state": s, "kind": kind, "opts": k})
    return "fig." + kind, F("bt.plot." + kind, R(s), **k), dict(oracle=["pristine", "content"], content={"state": s, "kind": kind, "opts": k})

def noise(w):
    """Something another user of pyplot does."""
    names = ["A", "B", "C"]
    r = w.rng.random()
    if r < 0.35:
        return "pyplot.new", F("%newfig", w.pick(names), w.num()), {}
    if r < 0.6:
        return "pyplot.current", F("%curfig", w.pick(names)), {}
    if r < 0.75:
        return "pyplot.draw", F("%drawfig", w.pick(names), w.num()), {}
    if r < 0.9:
        return "pyplot.close", F("%closefig", w.pick(names)), {}
    return "pyplot.check", F("%checkfigs"), {}
