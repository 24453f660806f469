"""Operations on the public API, as (name, expression, extra fields of the op)."""
import json
from gen import *

def same_grid(w, s):
    g = w.state_grid[s]
    return [x for x in w.state_grid if w.state_grid[x] == g]

def array(w, g, kind=None, scale=None):
    """A named input array (shared by every operation that refers to it)."""
    pool = w.__dict__.setdefault("_arrays", {}).setdefault(g, [])
    if pool and w.ch(0.5):
        return R(w.pick(pool))
    if pool and kind is None and scale is None and w.ch(0.25):
        n = w.d("a", twin(w, w.pick(pool)))
        pool.append(n)
        return R(n)
    n = w.d("a", w.field_e(g, kind, scale or w.pick([1., 1e-5, 10.])))
    pool.append(n)
    return R(n)

def twin(w, n):
    """An array that is hard to tell from the one named n: only some values differ."""
    return F("%twin", R(n), w.num(), w.pick([1e-3, 3e-3, 0.03, 0.5]))

def profile(w, g, scale=1.):
    pool = w.__dict__.setdefault("_profiles", {}).setdefault((g, scale), [])
    if pool and w.ch(0.3):
        n = w.pick(pool)
        if w.ch(0.3):
            return R(n)
        n = w.d("p", twin(w, n))
    else:
        n = w.d("p", F("%profile", w.grid[g]["nlat"], w.num(), scale))
    pool.append(n)
    return R(n)

def window(w):
    """A window of a user for the filters, as an array."""
    pool = w.__dict__.setdefault("_windows", [])
    if not pool or w.ch(0.4):
        v = w.pick([[1., 2., 1.], [1., 1., 1.], [1., 2., 3., 2., 1.], [0.5, 2., 3., 2., 0.5], [0., 1., 3., 5., 3., 1., 0.], [1.]])
        pool.append(w.d("p", {"arr": [x / sum(v) for x in v]}))
    elif w.ch(0.4):
        pool.append(w.d("p", twin(w, w.pick(pool))))
    return R(w.pick(pool))

def levels(w, scale=1.):
    """Contour levels, in any order, as a named array that is used again."""
    pool = w.__dict__.setdefault("_levels", {}).setdefault(scale, [])
    if not pool or w.ch(0.5):
        v = [x * scale for x in w.rng.sample([-0.9, -0.6, -0.45, -0.3, -0.1, 0., 0.2, 0.35, 0.5, 0.8], w.pick([3, 4, 6]))]
        if w.ch(0.5):
            v.sort(reverse=w.ch(0.5))
        pool.append(w.d("p", {"arr": v}))
    elif w.ch(0.3):
        pool.append(w.d("p", twin(w, w.pick(pool))))
    return R(w.pick(pool))

def region(w, g):
    pool = w.__dict__.setdefault("_regions", {}).setdefault(g, [])
    if pool and w.ch(0.6):
        return R(w.pick(pool))
    if w.ch(0.35):
        # regions of one shape in different places
        i, sh = w.grid[g], w.__dict__.setdefault("_shapes", {}).setdefault(g, [])
        if not sh or w.ch(0.3):
            sh.append((w.rng.randrange(0, i["nlat"] // 2), w.rng.randrange(0, i["nlon"] // 2), w.ch(0.3)))
        h, b, every = w.pick(sh)
        j, k = w.rng.randrange(i["nlat"] - h), w.rng.randrange(i["nlon"] - b)
        r = 180. / (i["nlat"] - 1)
        lat = {"sl": [90. - (j + h + 0.3) * r, 90. - (j - 0.3) * r]}
        lon = {"sl": [None, None]} if every else {"sl": [(k - 0.3) * r, (k + b + 0.3) * r]}
        pool.append(w.d("z", {"i": [AT(R(g), "region"), {"tp": [lon, lat]}]}))
        return R(pool[-1])
    lon = w.pick([{"sl": [None, None]}, {"sl": [30, 200]}, {"sl": [300, 60]}, {"sl": [None, 120]}, {"sl": [180, None]}, {"sl": [0, 0]}, 0])
    lat = w.pick([{"sl": [None, None]}, {"sl": [0, 90]}, {"sl": [-50, 30]}, "N", "S", {"sl": [None, 20]}, {"sl": [60, 0]}, {"sl": [-20, None]}, 90])
    e = {"i": [AT(R(g), "region"), {"tp": [lon, lat]}]} if w.ch(0.85) else {"i": [AT(R(g), "region"), lon]}
    n = w.d("z", e)
    pool.append(n)
    return R(n)

def read(w, s, dear=0.12):
    """One read of state s."""
    g = w.state_grid[s]
    r = w.rng.random()
    if r < 0.62 - dear:
        f = w.pick(FIELDS_CHEAP)
        return f, AT(R(s), f), dict(oracle=["pristine", "ref_field"], ref={"state": s, "field": f})
    if r < 0.62:
        f = w.pick(FIELDS_DEAR)
        return f, AT(R(s), f), {}
    if r < 0.72:
        f = w.pick(FIELDS_DIAG)
        if f == "v_envelope_hilbert":
            return f, AT(R(s), f), dict(oracle=["pristine", "ref_field"], ref={"state": s, "field": f})
        return f, AT(R(s), f), {}
    if r < 0.76:
        return "waveguides", F(".extract_ks_waveguides", R(s), w.pick([2, 3, 4, 5.5])), {}
    if r < 0.79:
        return "hn2016", F(".as_hn2016", R(s)), {}
    if r < 0.81:
        return "repr", F("%repr", R(s)), text(w, s, "repr")
    if r < 0.87:
        o = w.pick(same_grid(w, s))
        q = w.pick([".add_wind", ".add_vorticity"])
        x, v = R(o), o
        if w.ch(0.4):
            x = v = {"tp": [array(w, g), array(w, g)]} if q == ".add_wind" else array(w, g)
        return q[1:], F(q, R(s), x), dict(oracle=["pristine", "ref_derived"], ref={"state": s, "how": q, "with": v})
    if r < 0.91:
        k = {}
        if w.ch(0.5):
            k["interpolate"] = False
        if w.ch(0.3):
            k["quad"] = "boxcount"
        if w.ch(0.3):
            k["levels"] = w.pick([5, 8, levels(w, 1.5e-4)])
        return "diag.falwa", F(w.pick(["bt.diagnostics.falwa", "bt.diagnostics.fawa"]), R(s), **k), {}
    if r < 0.94:
        return "diag.ks", F("bt.diagnostics.stationary_wavenumber", R(s), kind=w.pick(["real", "squared", "complex"]), order=w.pick([2, 4])), {}
    if r < 0.97:
        return "diag.dwn", F("bt.diagnostics.dominant_wavenumber_fourier", AT(R(s), "v"), R(g)), {}
    if r < 0.98:
        return "time", AT(R(s), "time"), text(w, s, "time")
    return "grid.mean", F(".mean", R(g), AT(R(s), w.pick(["u", "pv", "energy"])), axis=w.pick([None, "zonal", "meridional"])), {}

def text(w, s, what):
    if s not in w.state_time:
        return {}
    return dict(oracle=["pristine", "ref_text"], ref={"state": s, "field": what})

def among(w, what, options):
    """One of the options; some runs stay with a few of them most of the time."""
    f = w.__dict__.setdefault("_focus", {})
    if what not in f:
        f[what] = [w.pick(options) for _ in range(w.pick([1, 2, 3]))] if w.ch(0.3) else None
    return w.pick(f[what] if f[what] and w.ch(0.75) else options)

def gridop(w, g, dear=0.15):
    """One request to a grid or region."""
    i = w.grid[g]
    G = R(g)
    A = lambda *a: array(w, g, *a)
    n = among(w, "grid", range(34))
    if w.ch(dear):
        n = 100 + w.rng.randrange(5)
    if n == 0:
        return "to_spectral", F(".to_spectral", G, A()), {}
    if n == 1:
        return "to_grid", F(".to_grid", G, F(".to_spectral", G, A())), {}
    if n == 2:
        return "wind", F(".wind", G, A(), A()), {}
    if n == 3:
        sp = lambda: F(".to_spectral", G, A())
        return "wind_spectral", F(".wind", G, sp(), w.pick([sp(), A()])), {}
    if n == 4:
        return "vorticity", F(w.pick([".vorticity", ".divergence"]), G, A(), A()), {}
    if n == 5:
        return "vorticity_divergence", F(".vorticity_divergence", G, A(), A()), {}
    if n == 6:
        return "vortdiv_spectral", F(w.pick([".vorticity_spectral", ".divergence_spectral", ".vorticity_divergence_spectral"]), G, A(), A()), {}
    if n == 7:
        return "gradient", F(".gradient", G, A()), {}
    if n in (8, 9):
        return "derivative", F(".derivative_meridional", G, w.pick([A(), profile(w, g)]), order=w.pick([2, 4])), {}
    if n == 10:
        return "laplace", F(".laplace", G, A()), {}
    if n == 11:
        return "laplace_spectral", F(".laplace_spectral", G, F(".to_spectral", G, A())), {}
    if n in (12, 13):
        return "poisson", F(".solve_poisson", G, A(), w.pick([0., 1e-13, 5e-12])), {}
    if n == 14:
        return "poisson_spectral", F(".solve_poisson_spectral", G, F(".to_spectral", G, A())), {}
    if n in (15, 16):
        o = w.pick([1, 2, 3])
        lap = (i["nlat"] * (i["nlat"] - 1) / i["rsphere"] ** 2) ** o
        return "diffusion", F(".solve_diffusion", G, A(), w.pick([0.3, 2.]) / lap, w.pick([1., 600., 0.5]), order=o), {}
    if n == 17:
        return "diffusion_spectral", F(".solve_diffusion_spectral", G, F(".to_spectral", G, A()), 1e15, 600., w.pick([1, 2])), {}
    if n == 18:
        return "gridpoint_area", AT(G, "gridpoint_area"), {}
    if n in (19, 20):
        return "mean", F(".mean", G, A(), axis=w.pick([None, 0, 1, "zonal", "meridional"])), {}
    if n in (21, 22):
        return "mean_region", F(".mean", G, A(), axis=w.pick([None, 0, 1, "zonal", "meridional"]), region=region(w, g)), {}
    if n in (23, 24):
        return "quad", F(".quad", G, A(), w.pick([None, A()]), method=w.pick(["sptrapz", "boxcount"])), {}
    if n == 25:
        return "quad_meridional", F(".quad_meridional", G, A(), w.pick([None, A()]), method=w.pick(["sptrapz", "boxcount"])), {}
    if n == 26:
        a = 4 * math.pi * i["rsphere"] ** 2
        return "equivalent_latitude", F(".equivalent_latitude", G, w.pick([0.3 * a, {"arr": [0., 0.2 * a, a, 1.1 * a]}, 0.])), {}
    if n == 27:
        if w.ch(0.4):
            y = R(w.d("p", F("%latitudes", i["nlat"], w.num())))
            return "interp1d", F("%apply", F(".interp1d_meridional", G, w.pick([profile(w, g), A()]), AT(G, "lat"), {"tp": [w.pick([0., 2.]), 1.]}), y), {}
        return "interpolate", F(".interpolate_meridional", G, profile(w, g), AT(G, "lat"), {"tp": [0., 1.]}), {}
    if n == 28:
        return "window", F(".get_filter_window", G, w.pick(["hann", "boxcar", "triang"]), w.pick([3 * i["res"], 90., 5 * i["res"]])), {}
    if n in (29, 30):
        f = w.pick([".filter_meridional", ".filter_zonal"])
        if w.ch(0.3):
            nn = i["nlat"] if f == ".filter_meridional" else i["nlon"]
            return f[1:], F(f, G, R(w.d("p", F("%profile", nn, w.num()))), "hann", 3 * i["res"]), {}
        if w.ch(0.4):
            return f[1:], F(f, G, A(), window(w)), {}
        return f[1:], F(f, G, A(), w.pick(["hann", "boxcar"]), w.pick([3 * i["res"], 5 * i["res"]])), {}
    if n == 31:
        return "coriolis", F(w.pick([".coriolis", ".circumference"]), G, w.pick([45., AT(G, "lat")])), {}
    if n == 32:
        return "attribute", AT(G, w.pick(["lon", "lat", "lon2", "lat2", "fcor", "fcor2", "lam2", "phi2", "shape", "dlon", "dlat", "dlam", "dphi", "fcor2_spectral", "rsphere", "omega"])), {}
    if n == 33:
        z = region(w, g)
        q = w.rng.randrange(6)
        if q == 0:
            return "region.extract", F(".extract", z, A()), {}
        if q == 1:
            return "region.extract2", F(".extract", z, A(), profile(w, g), AT(G, "lon")), {}
        if q == 2:
            return "region.attr", AT(z, w.pick(["mask", "shape", "lat", "lon", "lon_mono", "gridpoint_area"])), {}
        if q == 3:
            return "region.mean", F(".mean", z, A()), {}
        if q == 4:
            return "region.repr", F("%repr", z), {}
        return "grid.repr", F("%repr", G), {}
    k = {}
    if w.ch(0.4):
        k["quad"] = "boxcount"
    if w.ch(0.4):
        k["interpolate"] = False
    if n in (100, 101):
        q = dict(k)
        if w.ch(0.3):
            q["levels"] = w.pick([4, 9, levels(w)])
        if w.ch(0.25):
            return "zonalize_levels", F(".zonalize", G, array(w, g, "mixed", 1.), {"arr": [0.4, 0.1, -0.1, -0.3]}, **{x: y for x, y in k.items() if x == "quad"}), {}
        return "zonalize", F(".zonalize", G, A(), **q), {}
    if n in (102, 103):
        return "zonalize", F(".zonalize", G, A(), **k), {}
    return "falwa", F("bt.diagnostics." + w.pick(["falwa", "fawa"]), A(), G, **k), {}

def diagop(w, g, wavelet=0.04):
    """One request to the diagnostic functions with plain arrays."""
    i = w.grid[g]
    G = R(g)
    A = lambda *a: array(w, g, *a)
    if w.ch(wavelet):
        return "wavelet", F("bt.diagnostics.dominant_wavenumber_wavelet", A(), G, smooth=w.pick([None, {"tp": ["hann", 3 * i["res"], 3 * i["res"]]}])), {}
    n = among(w, "diag", range(9))
    if n in (0, 1):
        return "dwn", F("bt.diagnostics.dominant_wavenumber_fourier", A(), G, wavenumber_range={"tp": w.pick([[1, 20], [2, 5], [3, 8]])},
                        smooth=w.pick([None, {"tp": ["boxcar", 3 * i["res"]]}])), {}
    if n == 2:
        return "filter_k", F("bt.diagnostics.filter_by_wavenumber", A(), w.pick([
            R(w.d("p", F("%positive", i["nlat"], w.num()))), R(w.d("p", F("%positive2", i["nlat"], i["nlon"], w.num())))])), {}
    if n in (3, 4):
        return "envelope", F("bt.diagnostics.envelope_hilbert", A(), {"tp": w.pick([[2, 10], [1, 3], [0, 5]])}), {}
    if n == 5:
        return "ks", F("bt.diagnostics.stationary_wavenumber", w.pick([profile(w, g, 20.), A("mixed", 10.)]), G, kind=w.pick(["real", "squared", "complex"]), order=w.pick([2, 4])), {}
    if n == 6:
        return "waveguides", F("bt.diagnostics.extract_ks_waveguides", profile(w, g, 6.), w.pick([1, 2, 3.5]), grid=G), {}
    if n == 7:
        return "reduce_vectors", F("bt.plot.reduce_vectors", AT(G, "lon2"), AT(G, "lat2"), A(), A(), w.pick([3, 5])), {}
    return "levels", F("bt.plot.symmetric_levels", A(), w.pick([5, 10])), {}

def stepper(w, g, s, m=None, rhs_user=True):
    """One integration of a few steps, in one of several forms."""
    m = m or w.model(g, w.state_time[s], user=rhs_user)
    dt = w.dt(s, g)
    sec = dt["td"] if isinstance(dt, dict) else dt
    n = w.rng.random()
    if n < 0.2:
        return "euler", F(".euler", R(m), R(s), dt), dict(sim=sec)
    if n < 0.45:
        k = w.rng.randrange(1, 6)
        return "steps", F("%steps", R(m), R(s), dt, k), dict(sim=sec * (k + 1))
    if n < 0.6:
        return "leapfrog", F("%leap", R(m), R(s), dt, w.pick([0.2, 0.2, 0.05, 0.])), dict(sim=2 * sec)
    k = w.rng.randrange(0, 7)
    tend = w.after(w.state_time[s], int(sec * k))
    kw = {}
    if not isinstance(dt, dict) and w.ch(0.6):
        kw["save_every"] = w.pick([1, 2, 3]) * dt
    if w.ch(0.3):
        return "state.run", F(".run", R(s), R(m), dt, tend, **kw), dict(sim=sec * (k + 1))
    return "run", F(".run", R(m), R(s), dt, tend, **kw), dict(sim=sec * (k + 1))

def listop(w, L, states):
    """One operation on collection L holding the named states."""
    g = w.state_grid[states[0]]
    G = R(L)
    n = w.rng.randrange(20)
    each = lambda f: dict(oracle=["pristine", "elementwise"], each=[f(R(s)) for s in states])
    if n < 6:
        f = w.pick(FIELDS_CHEAP) if w.ch(0.85) else w.pick(FIELDS_DIAG + ["pv_zonalized", "fawa"])
        return "list." + f, AT(G, f), each(lambda s: AT(s, f))
    if n == 6:
        return "list.time", AT(G, "time"), {}
    if n == 7:
        a = array(w, g)
        return "list.add_vorticity", F(".add_vorticity", G, a), each(lambda s: F(".add_vorticity", s, a))
    if n == 8:
        k = w.pick([2, 3.5])
        return "list.waveguides", F(".extract_ks_waveguides", G, k), each(lambda s: F(".extract_ks_waveguides", s, k))
    if n in (9, 10, 11, 12):
        kind = w.pick(["mean_u", "mean_v_m", "ke", "self", "label", "u2", "shift", "pair",
                       "mixed", "intfloat", "arrnum", "statenum", "numcomplex", "kinds"])
        gt = R(w.d("c", F("%getter", kind)))
        if w.ch(0.25):
            return "list.map_args", F(".map", G, gt, 1, x=2), each(lambda s: F("%callrhs2", gt, s, 1, x=2))
        return "list.map", F(".map", G, gt), each(lambda s: F("%callrhs", gt, s))
    if n == 13:
        i = w.rng.randrange(-len(states), len(states))
        return "list.item", {"i": [G, i]}, {}
    if n == 14:
        return "list.slice", {"i": [G, {"sl": [w.pick([None, 0, 1]), w.pick([None, 2, -1]), w.pick([None, 1, 2, -1])]}]}, {}
    if n == 15:
        return "list.len", F("%length", G), {}
    if n == 16:
        return "list.add", F("%add", G, R(L)), {}
    if n == 17:
        return "list.iter", F("%listof", G), {}
    if n == 18:
        return "list.copy", F(w.pick(["%copied", "%deepcopied", "%pickled"]), G), {}
    return "list.repr", F("%repr", G), {}

def inplace(w, L, states):
    """In-place operators and attempts to change a collection."""
    more = [R(w.pick(states)) for _ in range(w.pick([1, 2]))]
    other = w.pick([R(L), more, F("bt.StateList", more), {"tp": more}])
    if w.ch(0.6):
        return "list.iadd", F("%inplace", R(L), "add", other), dict(oracle=["pristine", "same"], same=F("%listed", F("%add", R(L), other), R(L)),
                                                                     versus="concatenation and the collection as it was")
    return "list.tamper", F("%tamper", R(L), w.pick(["set", "del", "append", "slice", "extend"]), more[0]), \
        dict(oracle=["pristine", "same"], same=F("%listed", "rejected", [R(s) for s in states], len(states)), versus="the collection as it was")

def reuse(w, g):
    """Requests for which the caller fills the same buffer again and again."""
    from world import names_in
    for _ in range(20):
        o = gridop(w, g, dear=0.3) if w.ch(0.8) else diagop(w, g, wavelet=0.)
        e = o[1]
        if "f" not in e or not e["f"].startswith((".", "bt.")):
            continue
        pos = [k for k, x in enumerate(e["a"]) if isinstance(x, dict) and "r" in x and x["r"][0] in "ap"]
        if not pos:
            continue
        pos = w.pick(pos)
        calls = []
        for _ in range(w.pick([2, 2, 3])):
            a = list(e["a"])
            a[pos] = array(w, g) if a[pos]["r"][0] == "a" or w.grid[g]["nlat"] != nprofile(w, a[pos]) else profile(w, g, 10.)
            if names_in(e["a"][pos])  and e["a"][pos]["r"][0] == "p" and a[pos]["r"][0] != "p":
                break
            calls.append((e["f"], pos, a, e.get("k", {})))
        else:
            return o[0] + ".reused", F("%reused", [{"tp": [f, p, a, {"d": k}]} for f, p, a, k in calls]), \
                dict(oracle=["each"], each=[dict({"f": f, "a": a}, **({"k": k} if k else {})) for f, p, a, k in calls])
    return "attribute", AT(R(g), "lat"), {}

def fresh(w, g, make=None):
    """The same request for several fields, none of which lives longer than it."""
    make = make or (lambda: gridop(w, g, dear=0.1) if w.ch(0.7) else diagop(w, g, wavelet=0.))
    o = make()
    calls = []
    for k in range(w.pick([2, 3, 5])):
        e = inline(w, o[1], keep=list(w.grid))
        calls.append(reseed(w, e) if k else e)
    return o[0] + ".fresh", F("%fresh", [json.dumps(e) for e in calls]), dict(oracle=["each"], each=calls)

def reseed(w, e):
    """Other values of the same kind."""
    if isinstance(e, dict):
        e = {k: reseed(w, v) for k, v in e.items()}
        at = {"%field": 2, "%pvfield": 3, "%profile": 1, "%positive": 1, "%positive2": 2}.get(e.get("f"))
        if "seed" in e.get("k", {}):
            e["k"]["seed"] = w.num()
        elif at is not None:
            e["a"][at] = w.num()
        return e
    if isinstance(e, list):
        return [reseed(w, v) for v in e]
    return e

def nprofile(w, r):
    e = w.defs[r["r"]]
    while e.get("f") == "%twin":
        e = w.defs[e["a"][0]["r"]]
    return e["a"][0] if e.get("f") == "%profile" else -1
