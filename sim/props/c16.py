"""C16: missing optional packages only affect what needs them."""
from ops import *
import figures_ops, optional

PARAMS = dict(quick=650, thorough=10000)
STUBS = ["thread scheduler (simulator decides every switch)", "import system: packages are taken away and given back, imports by the package are fault points",
         "user-supplied callbacks (harness code with fault points)"]

def needs(name, e):
    """Packages that a request cannot do without (from the documentation)."""
    n = name.split(".")[-1]
    if n == "rwp_diagnostics":
        return ["matplotlib", "pywt"]
    if name.startswith(("fig.", "plot.")):
        return ["matplotlib"]
    return {"wavelet": ["pywt"], "hn2016": ["falwa"], "hn2016back": ["falwa"], "export": ["xarray"], "roundtrip": ["xarray"]}.get(n, [])

def request(w, g, s, states, L, m):
    r = w.rng.random()
    if r < 0.3:
        return read(w, s, dear=0.2)
    if r < 0.45:
        return gridop(w, g)
    if r < 0.52:
        return diagop(w, g, wavelet=0.)
    if r < 0.6:
        return stepper(w, g, s, m)
    if r < 0.68 and L is not None:
        return listop(w, *L)
    if r < 0.74:
        return "diag.wavelet", F("bt.diagnostics.dominant_wavenumber_wavelet", AT(R(s), "v"), R(g)), {}
    if r < 0.8:
        if w.ch(0.5):
            return "hn2016", F(".as_hn2016", R(s)), {}
        return "hn2016back", F("bt.State.from_hn2016", w.pick([None, R(g)]), 0., F(".as_hn2016", R(s))), {}
    if r < 0.92:
        mine = [R(x) for x in same_grid(w, s)]
        ds = F("bt.io.as_dataset", w.pick([mine, F("bt.StateList", mine), [R(s)]]), w.pick([["u", "v"], ["vo"], "avo", {"d": {"q": "pv"}}]))
        if w.ch(0.2):
            ds = F(".as_dataset", F("bt.StateList", mine))
        if w.ch(0.4) and w.state_time[s] is not None:
            return "roundtrip", F("bt.io.from_dataset", F("bt.io.as_dataset", [R(s)], w.pick([["u", "v"], ["vo"], "avo"]))), {}
        return "export", ds, {}
    if w.ch(0.5):
        return figures_ops.figure(w, s)
    return "fig.waveguides", F("bt.plot.waveguides", R(s)), {}

def make(seed, tier):
    w = W("C16", seed, tier)
    blocked = [p for p in optional.PACKAGES if w.ch(0.5)]
    gs = w.grids(w.pick([1, 1, 2]))
    states = []
    for _ in range(w.pick([1, 2, 3])):
        s = w.new_state(w.pick(gs))
        states.append(s)
    model = {g: w.model(g, w.time(), rhs=False) for g in gs}
    lists = {}
    for s in states:
        g = w.state_grid[s]
        if w.ch(0.5):
            mine = same_grid(w, s)
            lists[g] = (w.d("L", F("bt.StateList", [R(x) for x in mine])), mine)
    now = set(blocked)
    nthreads = w.pick([1, 1, 1, 2, 3])
    toggles = nthreads == 1 and w.ch(0.7)
    ops = []
    for _ in range(w.rng.randrange(3, 9)):
        if toggles and w.ch(0.35):
            p = w.pick(["xarray", "pywt", "falwa"])
            back = p in now
            (now.discard if back else now.add)(p)
            ops.append(w.op("available" if back else "missing", F("%available" if back else "%missing", p), oracle=["none"], nofault=True, retry=False))
        s = w.pick(states)
        g = w.state_grid[s]
        name, e, k = request(w, g, s, states, lists.get(g), model[g])
        lost = [p for p in needs(name, e) if p in now]
        k = dict(k)
        if lost:
            k = dict(oracle=["optional"], missing=", ".join(lost))
        for _ in range(w.pick([1, 1, 2])):
            ops.append(w.op(name, e, **k))
    th = w.deal(ops, nthreads, copies=0.2)
    return w.spec(th, fault_rate=w.pick([0., 0.5, 0.9]), fingerprint=True, setup={"blocked": blocked}, cap=4_000_000, meta=w.meta())
