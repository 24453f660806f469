"""Oracles: what an operation of a simulated run must have returned.

``judge_op`` maps an oracle name to a function (spec, op, value, ctx) -> message
or None.  ``value`` is canonical data from the simulated process.  All oracles
run outside the simulated process."""
import numpy as np
import ref, world
from world import compare, expect

ORACLES = {}
POST = {}

def oracle(f):
    ORACLES[f.__name__] = f
    return f

def post(f):
    POST[f.__name__] = f
    return f

class Ctx:
    def __init__(self, spec, res):
        self.spec, self.res, self.defs = spec, res, spec["defs"]
        self.rtol = spec.get("rtol", 1e-6)

@oracle
def pristine(spec, op, c, ctx):
    exp = expect(ctx.defs, op["e"])
    m = compare(c, exp, ctx.rtol)
    if m:
        return m + " [simulated vs fresh evaluation]"

@oracle
def none(spec, op, c, ctx):
    return None

SCALE = {"pv": 1e-4, "avo": 1e-4, "pv_spectral": 1e-4, "vorticity": 1e-5, "vo": 1e-5, "vorticity_spectral": 1e-5,
         "u": 1., "v": 1., "streamfunction": 1e7, "energy": 10., "enstrophy": 1e-8, "eddy_enstrophy": 1e-10,
         "pv_flux_spectral": 1e-10}

def rstate_of(ctx, name):
    c = expect(ctx.defs, {"r": name})
    if c[0] != "State":
        return None
    return ref.RState(ref_grid(ctx, name), None, c[2][3])

def ref_grid(ctx, name):
    return ref.grid_of(ctx.defs, {"r": ctx.spec["meta"]["state_grid"][name]})

def arr(c):
    """Array of a canonical value."""
    if isinstance(c, tuple) and c and c[0] == "a":
        return c[3]
    if isinstance(c, tuple) and c and c[0] in ("n", "b"):
        return np.asarray(c[1])
    return None

def close(a, b, rtol, floor, what):
    if a is None:
        return f"{what}: not an array"
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return f"{what}: shape {a.shape} instead of {b.shape}"
    if not np.isfinite(b).all():
        return None                     # the reference itself left the representable range
    if not np.isfinite(a).all():
        return f"{what}: not finite"
    s = max(float(np.max(np.abs(b))), floor) if b.size else floor
    d = np.abs(a - b)
    if d.size and float(d.max()) > rtol * s:
        i = np.unravel_index(np.argmax(d), d.shape)
        return f"{what}: {a[i]:.7g} instead of {b[i]:.7g} at {tuple(map(int, i))} ({int((d > rtol * s).sum())} of {d.size} values differ)"
    return None

@oracle
def ref_field(spec, op, c, ctx):
    s = rstate_of(ctx, op["ref"]["state"])
    if s is None:
        return None
    name = op["ref"]["field"]
    exp = ref.field(s, name)
    if exp is None:
        return None
    m = close(arr(c), exp, 1e-4, SCALE.get(name, 0.) , name)
    return m and m + " [simulated vs reference model]"

@oracle
def ref_derived(spec, op, c, ctx):
    """Sum of a state and winds, vorticity or another state."""
    a = rstate_of(ctx, op["ref"]["state"])
    if a is None or c[0] != "State":
        return None
    x, wind = op["ref"]["with"], op["ref"]["how"] == ".add_wind"
    if isinstance(x, str):
        b = rstate_of(ctx, x)
        if b is None:
            return None
        x = (b.u, b.v) if wind else b.vorticity
    else:
        x = ref.value(ctx.defs, x)
    if wind:
        exp = ref.state_from(a.g, None, "wind", [a.u + x[0], a.v + x[1]]).spec
    else:
        exp = a.spec + a.g.spec(x)
    m = close(c[2][3], exp, 1e-4, 1e-6, op["ref"]["how"][1:])
    return m and m + " [simulated vs reference model]"

@oracle
def ref_text(spec, op, c, ctx):
    """Time and text representation of a state."""
    t = ref.value(ctx.defs, ctx.spec["meta"]["state_time"][op["ref"]["state"]])
    exp = world.canon(t if op["ref"]["field"] == "time" else f"<barotropic.State {time_text(t)}>")
    m = compare(c, exp, 1e-12)
    return m and m + " [simulated vs reference model]"

@oracle
def elementwise(spec, op, c, ctx):
    """A collection behaves like its elements: op["each"] lists the expressions
    for the elements, evaluated one by one on fresh objects."""
    parts = []
    for e in op["each"]:
        parts.append(expect(ctx.defs, e))
    exp = combine(parts)
    if exp[0] == "a" and c[0] == "a" and all(p[0] in ("n", "b") for p in parts):
        exp = ("a", c[1]) + exp[2:]         # (int, float and bool are all numbers)
    m = compare(c, exp, ctx.rtol)
    if m:
        return m + " [collection vs its elements]"

def combine(parts):
    """Documented container for a sequence of canonical element results."""
    for p in parts:
        if p[0] == "E":
            return p                     # the whole operation fails
    if all(p[0] == "a" for p in parts) and parts:
        if len({p[2] for p in parts}) == 1:
            a = np.stack([p[3] for p in parts])
            return ("a", a.dtype.kind, a.shape, a)
        return ("E", "ValueError")
    if all(p[0] in ("n", "b") for p in parts) and parts:
        a = np.asarray([p[1] for p in parts])
        return ("a", a.dtype.kind, a.shape, a)
    if all(p[0] == "State" for p in parts) and parts:
        return ("StateList", list(parts))
    return ("list", list(parts))

@oracle
def side_by_side(spec, op, c, ctx):
    """Profiles of the states over their times: (x, y, field)."""
    parts = [expect(ctx.defs, e) for e in op["each"]]
    times = [expect(ctx.defs, e) for e in op["times"]]
    if c[0] != "tuple" or len(c[1]) != 3 or any(p[0] != "a" for p in parts):
        return f"{world.short(c)} as the profiles of {len(parts)} states"
    x, y, z = c[1]
    rows = np.stack([p[3] for p in parts])
    got = arr(z)
    if got is not None and got.shape == rows.shape[::-1]:
        got, x, y = got.T, y, x             # latitudes go up, times to the right
    if got is None or got.shape != rows.shape:
        return f"field is {world.short(z)}"
    m = cmp_close(got, rows)
    if m:
        return "profiles are not those of the states: " + m
    t = [(q[0], q[1]) for q in y[2]] if y[0] == "oa" else [("n", float(q)) for q in np.ravel(arr(y))]
    if t != [(q[0], q[1]) for q in times]:
        return f"times {t} instead of {times}"

def cmp_close(a, b):
    d = np.max(np.abs(a - b))
    return None if d <= 1e-5 * max(np.max(np.abs(b)), 1e-9) else f"off by {d}"

@oracle
def each(spec, op, c, ctx):
    """Every element of the result is that of a request on its own."""
    if c[0] != "list" or len(c[1]) != len(op["each"]):
        parts = [expect(ctx.defs, e) for e in op["each"]]
        if c[0] == "E" and any(p == c for p in parts):
            return None
        return f"{world.short(c)} for {len(op['each'])} requests"
    for i, e in enumerate(op["each"]):
        m = compare(c[1][i], expect(ctx.defs, e), ctx.rtol)
        if m:
            return f"request {i}: " + m + " [one of several requests vs on its own]"

@oracle
def list_run(spec, op, c, ctx):
    """run() of a collection = run() of its elements."""
    parts = [expect(ctx.defs, e) for e in op["each"]]
    for p in parts:
        if p[0] == "E":
            return compare(c, p, ctx.rtol)
    exp = ("tuple", [("StateList", [p[1][0] for p in parts]), ("list", [p[1][1] for p in parts])])
    m = compare(c, exp, ctx.rtol)
    return m and m + " [collection vs its elements]"

@oracle
def once(spec, op, c, ctx):
    if c[0] != "list":
        return f"mapping failed: {world.short(c)}"
    if c[1][1] != ("b", True):
        return f"elements were not evaluated once each and in order ({int(c[1][2][1])} calls for {op['each']} elements)"

@oracle
def rejects(spec, op, c, ctx):
    if c[0] != "E":
        return f"accepted, result {c[0]}"

@oracle
def ref_rhs(spec, op, c, ctx):
    """A forcing term is the documented function of the state."""
    s = rstate_of(ctx, op["ref"]["state"])
    if s is None or c[0] == "E":
        return None
    s.time = ref.value(ctx.defs, ref.deref(ctx.defs, {"r": op["ref"]["state"]}) and ctx.spec["meta"]["state_time"][op["ref"]["state"]])
    exp = np.asarray(ref.forcing(ctx.defs, {"r": op["ref"]["rhs"]}, s), dtype=float)
    a = arr(c)
    if a is None:
        return f"not a field: {c[0]}"
    shape = s.g.shape
    m = close(np.broadcast_to(a, np.broadcast_shapes(a.shape, exp.shape)), np.broadcast_to(exp, np.broadcast_shapes(a.shape, exp.shape)), 2e-4, 1e-16, "forcing")
    return m and m + " [simulated vs reference model]"

# -- figures -----------------------------------------------------------------------

def time_text(t):
    if isinstance(t, (int, float)):
        for unit, size, limit in (("s", 1, 120), ("min", 60, 7200), ("h", 3600, 864000), ("d", 86400, float("inf"))):
            if t <= limit:
                return f"t = {t / size:.1f} {unit}"
    return t.isoformat()

@oracle
def content(spec, op, c, ctx):
    """Curves, vectors, value ranges and titles are those of the state."""
    if c[0] == "list":
        if len(c[1][1][1]) != 1:
            return f"drew into {len(c[1][1][1])} new figures instead of one"
        c = c[1][1][1][0]
    if c[0] == "E":
        return None
    if c[0] != "Figure":
        return f"not a figure: {c[0]}"
    info = op["content"]
    s = rstate_of(ctx, info["state"])
    if s is None:
        return None
    t = time_text(ref.value(ctx.defs, ctx.spec["meta"]["state_time"][info["state"]]))
    opts = info["opts"]
    g = s.g
    axs = [dict(a[1]) for a in dict(c[1][1])["axes"][1]]
    lines = [dict(l[1]) for a in axs for l in a["lines"][1]]
    colls = [dict(l[1]) for a in axs for l in a["collections"][1]]
    def has_curve(x, what, floor):
        x = np.asarray(x)
        for l in lines:
            lx, ly = l["x"][3], l["y"][3]
            if lx.shape == x.shape and ly.shape == g.lat.shape and np.allclose(ly, g.lat) and \
                    np.max(np.abs(lx - x)) <= 1e-4 * max(np.max(np.abs(x)), floor):
                return None
        return f"no curve shows the {what} of the state"
    def has_range(f, what, floor):
        lo, hi = float(np.min(f)), float(np.max(f))
        tol = 1e-4 * max(abs(lo), abs(hi), floor)
        for q in colls:
            if "z" in q and abs(q["z"][1][0][1] - lo) <= tol and abs(q["z"][1][1][1] - hi) <= tol:
                return None
        return f"no contours show the {what} of the state"
    kind = info["kind"]
    want = []
    zm = lambda f: f.mean(axis=1)
    shift = g.nlon // 2 - int(np.argmin(np.abs(g.lon - opts.get("center_lon", 180) % 360)))
    def own(name):
        """A diagnostic of the state, from the state itself."""
        return arr(expect(ctx.defs, {"@": [{"r": info["state"]}, name]}))
    def has_map(f, filled, what, floor, levels=None, cmap=None):
        """Contours of the field, where the map shows its longitudes."""
        if f is None or not np.all(np.isfinite(f)) or np.ptp(f) <= 1e-3 * floor:
            return None
        f = np.roll(f, shift, axis=1)
        lo, hi = float(np.min(f)), float(np.max(f))
        tol = 3e-4 * max(abs(lo), abs(hi), floor)
        why = "missing"
        for q in colls:
            if "z" in q and q["filled"][1] == filled and abs(q["z"][1][0][1] - lo) <= tol and abs(q["z"][1][1][1] - hi) <= tol:
                why = contours(g, f, q, tol)
                if why is None and levels is not None:
                    z = q["levels"][3]
                    why = levels(z, tol)
                if why is None and cmap is not None and q["cmap"][1] != cmap:
                    why = f"in colours {q['cmap'][1]}"
                if why is None:
                    return None
        return f"the map of {what} of the state is " + why
    def upto(x):
        return lambda z, tol: None if abs(z[0] + z[-1]) <= tol and (x is None or abs(z[-1] - x) <= 1e-6 * abs(x)) else f"drawn with levels from {z[0]} to {z[-1]}"
    def from0(x):
        return lambda z, tol: None if abs(z[0]) <= tol and (x is None or abs(z[-1] - x) <= 1e-6 * abs(x)) else f"drawn with levels from {z[0]} to {z[-1]}"
    if kind == "summary":
        want = [has_curve(2e4 * g.omega * np.sin(np.deg2rad(g.lat)), "planetary vorticity", 0.1), has_curve(zm(s.vorticity) * 1e4, "relative vorticity", 0.1),
                has_curve(zm(s.pv) * 1e4, "potential vorticity", 0.1), has_curve(zm(s.u), "zonal wind", 1.),
                has_range(s.pv * 1e4, "potential vorticity", 0.1), has_range(s.v, "meridional wind", 1.)]
        want.append(vectors(s, colls, opts))
        pm = opts.get("pv_max")
        want += [has_map(s.pv * 1e4, True, "PV", 0.1, upto(None if pm is None else pm * 1e4), opts.get("pv_cmap")),
                 has_map(s.v, True, "meridional wind", 1., upto(opts.get("v_max"))), has_map(s.streamfunction, False, "streamfunction", 1e5)]
    elif kind == "wave_activity":
        want = [has_curve(zm(s.pv) * 1e4, "potential vorticity", 0.1), has_range(s.pv * 1e4, "potential vorticity", 0.1)]
        zl, fawa = own("pv_zonalized"), own("fawa")
        want += [has_curve(zl * 1e4, "zonalized PV", 0.1), has_curve(fawa, "FAWA", 1.), has_map(s.pv * 1e4, False, "PV", 0.1),
                 has_map((s.pv - zl[:,None]) * 1e4, True, "PV deviation", 0.1), has_map(own("falwa"), True, "FALWA", 1., None, opts.get("falwa_cmap"))]
    elif kind == "rwp_diagnostics":
        want = [has_range(s.v, "meridional wind", 1.), has_range(s.pv, "potential vorticity", 1e-5)]
        want += [has_map(s.v, True, "meridional wind", 1., upto(opts.get("v_max"))), has_map(s.streamfunction, False, "streamfunction", 1e5),
                 has_map(own("v_envelope_hilbert"), True, "envelope", 1., from0(opts.get("rwp_max")), opts.get("rwp_cmap")),
                 has_map(s.pv, False, "PV", 1e-5)]
        st = {"r": info["state"]}
        dwn = arr(expect(ctx.defs, {"f": "bt.diagnostics.dominant_wavenumber_wavelet", "a": [{"@": [st, "v"]}, {"@": [st, "grid"]}]}))
        # (labels interrupt its contours)
        want += [has_range(dwn, "dominant wavenumber", 1.) if np.ptp(dwn) > 0. else None,
                 has_map(ref.hann_smoothed(own("falwa"), 2. * dwn), True, "filtered FALWA", 1., from0(opts.get("rwp_max")))]
    elif kind == "waveguides":
        want = [has_curve(zm(s.u), "zonal wind", 1.)]
        ks = own("stationary_wavenumber")
        want.append(has_curve(np.real(ks) - np.imag(ks), "stationary wavenumber", 1.))
        kw = opts.get("k_waveguides", [])
        for k in [kw] if isinstance(kw, (int, float)) else kw["tp"] if isinstance(kw, dict) else kw:
            wg = expect(ctx.defs, {"f": ".extract_ks_waveguides", "a": [{"r": info["state"]}, k]})
            want.append(has_guides(lines, k, wg))
        lo, hi = opts["klim_bounds"]["tp"] if "klim_bounds" in opts else (-5, 15)
        for a in axs:
            if "stationary" in a["titles"][1][0][1] and not (a["lim"][1][0][1] >= lo - 1e-9 and a["lim"][1][1][1] <= hi + 1e-9):
                want.append(f"wavenumbers from {a['lim'][1][0][1]} to {a['lim'][1][1][1]} are shown")
    for m in want:
        if m:
            return m
    if "figsize" in opts:
        size = [x[1] for x in dict(c[1][1])["size"][1]]
        if list(opts["figsize"]["tp"]) != size:
            return f"figure of size {size}"
    if kind != "waveguides":
        for a in axs:
            if any("filled" in dict(q[1]) for q in a["collections"][1]) and a["titles"][1][0][1]:
                m = longitudes(a["xticks"], shift * 360. / g.nlon)
                if m:
                    return m
        n = sum(a["titles"][1][2][1] == t for a in axs)
        if n < 2:
            return f"the time of the state ({t}) titles {n} panels"
    h = opts.get("hemisphere", "both")
    lim = (0 if h == "N" else -90, 0 if h == "S" else 90)
    panels = [a for a in axs if a["titles"][1][0][1]]
    if len(panels) != {"summary": 4, "wave_activity": 4, "rwp_diagnostics": 3, "waveguides": 2}[kind]:
        return f"{len(panels)} panels say what they show"
    for a in panels:
        got = (a["lim"][1][2][1], a["lim"][1][3][1])
        if abs(got[0] - lim[0]) > 1e-6 or abs(got[1] - lim[1]) > 1e-6:
            return f"a panel shows latitudes {got} instead of {lim}"

def contours(g, f, q, tol):
    """Do the lines (areas) run along (between) their levels in the field?"""
    z = q["levels"][3]
    paths = [p[3] for p in q["paths"][1]]
    if q["filled"][1]:
        e = len(paths) - (len(z) - 1)
        if e not in (0, 1, 2):
            return "incomplete"
        inf = [np.inf]
        lims = [[z, [np.concatenate([z, inf]), np.concatenate([-np.array(inf), z])], np.concatenate([-np.array(inf), z, inf])][e]]
        lims = lims[0] if e == 1 else lims
        bounds = [(b[:-1], b[1:]) for b in lims]
    else:
        if len(paths) != len(z):
            return "incomplete"
        bounds = [(z, z)]
    if not any(len(p) for p in paths):
        return None
    for lo, hi in bounds:
        bad = 0.
        for p, a, b in zip(paths, lo, hi):
            p = p.reshape(-1, 2) if p.size else np.zeros((0, 2))
            x, y = p[:,0] / 360. * g.nlon, (90. - p[:,1]) / 180. * (g.nlat - 1)
            if len(x) == 0:
                continue
            if min(x.min(), y.min()) < -1e-6 or x.max() > g.nlon - 1 + 1e-6 or y.max() > g.nlat - 1 + 1e-6:
                return "not on the grid"
            i, j = np.clip(np.floor(y).astype(int), 0, g.nlat - 2), np.clip(np.floor(x).astype(int), 0, g.nlon - 2)
            s, t = y - i, x - j
            v = (1 - s) * ((1 - t) * f[i,j] + t * f[i,j+1]) + s * ((1 - t) * f[i+1,j] + t * f[i+1,j+1])
            bad = max(bad, float(np.max(a - v)), float(np.max(v - b)))
        if bad <= tol:
            return None
    return "not where the field has these values"

def longitudes(xticks, rolled):
    """Labels name the longitudes of the field above them."""
    labels = [l[1] for l in xticks[1][1][1]]
    for x, l in zip(xticks[1][0][3], labels):
        d = (float(l.rstrip("°")) - (x - rolled)) % 360.
        if min(d, 360. - d) > 0.51:
            return f"longitude {(x - rolled) % 360.:.1f} is labelled {l}"
    return None if labels else "no longitudes on the axis of a map"

def has_guides(lines, k, wg):
    if wg[0] == "E":
        return None
    want = [y for a in wg[1] for y in (np.nan, a[1][0][1], a[1][1][1])]
    for l in lines:
        x, y = l["x"][3], l["y"][3]
        if y.shape == (len(want),) and np.all(x == k) and np.allclose(y, want, rtol=1e-4, atol=1e-3, equal_nan=True):
            return None
    return f"no line shows the waveguides of wavenumber {k}"

def vectors(s, colls, opts):
    """Wind vectors stand where the map shows their longitude."""
    g = s.g
    if np.max(np.abs(s.u)) < 1e-3 and np.max(np.abs(s.v)) < 1e-3:
        return None
    cen = opts.get("center_lon", 180) % 360
    shift = g.nlon // 2 - int(np.argmin(np.abs(g.lon - cen)))
    u, v = np.roll(s.u, shift, axis=1), np.roll(s.v, shift, axis=1)
    tol = 1e-4 * max(np.max(np.abs(u)), np.max(np.abs(v)), 1.)
    for q in colls:
        if q["type"][1] == "Quiver":
            X, Y, U, V = (np.ravel(x[3]) for x in q["XYUV"][1])
            j = np.rint(X / 360. * g.nlon).astype(int) % g.nlon
            i = np.rint((90. - Y) / 180. * (g.nlat - 1)).astype(int)
            if len(X) < 1 or np.max(np.abs(u[i, j] - U)) > tol or np.max(np.abs(v[i, j] - V)) > tol:
                return "wind vectors are not those of the state at the longitudes shown"
            return None
    return "no wind vectors"
