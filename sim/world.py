"""Expressions over the public API of barotropic, and their evaluation.

A run of the simulator is described by *definitions* (name -> expression) and
*operations* (expressions over those names).  The same expression can be
evaluated in two ways:

- inside the simulation: names are shared objects, used by all threads, with
  all caches they have accumulated, under preemption and faults;
- in a pristine forked process: every name is built afresh, one evaluation,
  no tracing, no threads.

Referential transparency of the library means both agree.
"""
import sys, os, gc, random, re, copy, json, math, zlib, pickle, signal, select, time, datetime as dt
import threading, warnings
import numpy as np

warnings.simplefilter("ignore")
np.seterr(all="ignore")

import engine
from engine import Injected, SimIOError, Abort

bt = None               # the package under test


def load(src="/repo/src"):
    """Import the package under test from the working tree."""
    global bt
    if src not in sys.path:
        sys.path.insert(0, src)
    sys.dont_write_bytecode = True
    engine.patch_locks()
    os.environ["TZ"] = "UTC0"
    time.tzset()
    import barotropic
    f = os.path.realpath(barotropic.__file__)
    if not f.startswith(os.path.realpath(src) + os.sep):
        raise RuntimeError(f"barotropic imported from {f}, not from {src}")
    bt = barotropic
    preload()
    patch_spharm()
    import figures
    figures.patch()
    return barotropic


def preload():
    """What the package and the harness load on demand, once for all runs."""
    import xarray, xarray.backends, pandas, pywt, falwa.barotropic_field, scipy.io, tempfile
    import matplotlib.pyplot, matplotlib.ticker
    ds = xarray.Dataset({"a": (("x",), np.zeros(2))}, {"x": [0, 1]})
    ds.sel(x=1), ds.squeeze(), repr(ds)
    try:
        import io
        xarray.open_dataset(io.BytesIO(bytes(ds.to_netcdf()))).a.values
    except Exception:
        pass

# -- seams ------------------------------------------------------------------

def _sim():
    return engine.CURRENT

def seam(kind, site):
    s = engine.CURRENT
    if s is not None:
        s.seam(kind, site)

def patch_spharm():
    """Calls into spharm are yield points and fault points."""
    import spharm
    def wrap(name):
        f = getattr(spharm.Spharmt, name)
        if getattr(f, "_sim", False):
            return
        def g(self, *a, **k):
            s = engine.CURRENT
            if s is None:
                return f(self, *a, **k)
            s.seam("spharm", name)
            r = f(self, *a, **k)
            s.point("spharm-ret", name)
            return r
        g._sim = True
        g.__name__ = name
        setattr(spharm.Spharmt, name, g)
    for n in ("grdtospec", "spectogrd", "getuv", "getvrtdivspec", "getgrad"):
        wrap(n)


# -- environment --------------------------------------------------------------

class Env:
    def __init__(self, defs, sim=None):
        self.defs = defs
        self.sim = sim
        self.vals = {}
        self.made = None        # arrays created or received, for fingerprints
        self.brief = set()      # threads whose objects must not be kept
        self.extra = {}         # property specific

    def get(self, name):
        v = self.vals.get(name, self)
        if v is not self:
            return v
        v = self.ev(self.defs[name])
        return self.vals.setdefault(name, v)

    def note(self, v):
        """Fingerprint what a caller holds while an operation goes on."""
        if self.sim is not None and self.made is not None and threading.get_ident() not in self.brief:
            with self.sim.muted():
                self.made.append(v)
        return v

    def notes(self, *vs):
        for v in vs:
            self.note(v)
        return vs

    def ev(self, e):
        if e is None or isinstance(e, (int, float, str, bool)):
            return e
        if isinstance(e, list):
            v = [self.ev(x) for x in e]
            if v and all(isinstance(x, (str, int, float)) for x in v):
                self.note(v)
            return v
        if isinstance(e, dict):
            if "r" in e:
                return self.get(e["r"])
            if "f" in e:
                a = [self.ev(x) for x in e.get("a", [])]
                k = {n: self.ev(x) for n, x in e.get("k", {}).items()}
                return self.call(e["f"], a, k)
            if "@" in e:
                return getattr(self.ev(e["@"][0]), e["@"][1])
            if "i" in e:
                return self.ev(e["i"][0])[self.ev(e["i"][1])]
            if "tp" in e:
                return tuple(self.ev(x) for x in e["tp"])
            if "sl" in e:
                return slice(*[self.ev(x) for x in e["sl"]])
            if "dt" in e:
                return dt.datetime.fromisoformat(e["dt"])
            if "td" in e:
                return dt.timedelta(seconds=e["td"])
            if "np" in e:
                return getattr(np, e["np"])(e["v"])
            if "d" in e:
                return self.note({n: self.ev(x) for n, x in e["d"].items()})
            if "arr" in e:
                return self.note(np.array(e["arr"], dtype=e.get("dtype", "float64")))
        raise ValueError(f"bad expression {e!r}")

    def call(self, path, a, k):
        if path.startswith("bt."):
            f = bt
            for part in path.split(".")[1:]:
                f = getattr(f, part)
        elif path.startswith("."):
            f = getattr(a[0], path[1:])
            a = a[1:]
        elif path.startswith("%"):
            return HARNESS[path[1:]](self, *a, **k)
        else:
            raise ValueError(path)
        return f(*a, **k)


HARNESS = {}

def harness(f):
    HARNESS[f.__name__.rstrip("_")] = f
    return f


# -- input fields (independent of the package) ---------------------------------

def coords(nlat, nlon):
    lat = np.linspace(90., -90., nlat)
    lon = np.linspace(0., 360., nlon, endpoint=False)
    lo, la = np.meshgrid(np.deg2rad(lon), np.deg2rad(lat))
    return lo, la

def waves(nlat, nlon, seed, kind="mixed"):
    """A smooth random field of order one."""
    lo, la = coords(nlat, nlon)
    r = np.random.RandomState(seed % (2**31))
    f = np.zeros((nlat, nlon))
    if kind.endswith("+"):      # not zero on average
        f += r.choice([-1., 1.]) * r.uniform(0.3, 1.)
        kind = kind[:-1]
    if kind in ("mixed", "zonal"):
        for n in range(1, 4):
            f += r.uniform(-0.5, 0.5) * np.sin(n * la)
    if kind in ("mixed", "eddy", "rough"):
        mmax = 3 if kind != "rough" else max(4, nlon // 4)
        for _ in range(4):
            m = int(r.randint(1, mmax + 1))
            f += r.uniform(-0.7, 0.7) * np.cos(la) ** m * (
                1. if r.rand() < 0.5 else np.sin(la)) * np.cos(m * lo + r.uniform(0, 6.3))
    if kind == "const":
        f += r.uniform(-1., 1.)
    if kind == "noise":
        f = r.uniform(-1., 1., (nlat, nlon))
    return f

@harness
def field(env, nlat, nlon, seed, kind="mixed", scale=1., dtype="float64"):
    return env.note((scale * waves(nlat, nlon, seed, kind)).astype(dtype))

@harness
def pvfield(env, nlat, nlon, omega, seed, kind="mixed", scale=1.5e-5):
    lo, la = coords(nlat, nlon)
    return env.note(2 * omega * np.sin(la) + scale * waves(nlat, nlon, seed, kind))

@harness
def ndwind(env, nlat, nlon, seed, comp):
    """One component of a wind without divergence, from a few spherical harmonics."""
    lo, la = coords(nlat, nlon)
    r = np.random.RandomState(seed % (2**31))
    A, B, C = r.uniform(3., 12., 3)
    a, b = r.uniform(0., 6.3, 2)
    if comp == "u":
        f = A * np.cos(la) - B * np.sin(la) * np.cos(lo + a) + C * np.cos(2 * la) * np.cos(lo + b)
        f = -f
    else:
        f = -B * np.sin(lo + a) - C * np.sin(la) * np.sin(lo + b)
    return env.note(f)

@harness
def profile(env, n, seed, scale=1.):
    r = np.random.RandomState(seed)
    x = np.linspace(-np.pi / 2, np.pi / 2, n)
    return env.note(scale * (r.uniform(-1, 1) * np.cos(x) + r.uniform(-1, 1) * np.sin(2 * x) + 0.3 * np.cos(3 * x)))

@harness
def state_from_buffer(env, grid, ctor, time, arrays, form="plain"):
    """The caller builds a state from its own buffers and then reuses them."""
    bufs = [np.array(a) for a in arrays]
    given = bufs
    if form == "single":
        given = bufs = [b.astype(np.float32) for b in bufs]
    elif form == "fortran":
        given = bufs = [np.asfortranarray(b) for b in bufs]
    elif form == "locked":              # what the package gets cannot be written to, its base can
        given = [b.view() for b in bufs]
        for v in given:
            v.flags.writeable = False
    s = make_state(grid, ctor, time, given)
    if env.sim is not None:
        for b in bufs:
            b[...] = 1.e3 * (1 + np.arange(b.size).reshape(b.shape) % 7)
    return s

def make_state(grid, ctor, time, arrays):
    if ctor == "pv":
        return bt.State(grid, time, pv=arrays[0])
    if ctor == "pv_spectral":
        return bt.State(grid, time, pv_spectral=arrays[0])
    if ctor == "wind":
        return bt.State.from_wind(grid, time, arrays[0], arrays[1])
    if ctor == "vorticity":
        return bt.State.from_vorticity(grid, time, arrays[0])
    raise ValueError(ctor)

@harness
def repr_(env, x):
    return repr(x)

@harness
def rebuild(env, state):
    """A state rebuilt from nothing but PV and time."""
    return bt.State(state.grid, state.time, pv_spectral=np.array(state.pv_spectral))

@harness
def second(env, pair):
    return pair[1]


# -- user-supplied callbacks ---------------------------------------------------

_USER_RHS = {}

def user_rhs_class():
    c = _USER_RHS.get(bt)
    if c is None:
        class UserRHS(bt.rhs.RHS):
            """A forcing term written by a user; its calls are yield and fault points."""
            def __init__(self, env, kind, amp, seed=0, t0=None):
                self.env, self.kind, self.amp, self.seed, self.t0 = env, kind, amp, seed, t0
                self.kept = {}
            def __repr__(self):
                return f"UserRHS({self.kind})"
            def __bool__(self):
                return self.seed % 3 != 0       # (e.g. an object with a length)
            def __call__(self, state):
                seam("callback", "rhs." + self.kind)
                probe = self.env.extra.get("probe")
                if probe is not None:
                    probe(state)
                g = state.grid
                if self.kind == "damp":
                    out = -self.amp * state.vorticity
                elif self.kind == "stir":
                    out = self.amp * waves(g.nlat, g.nlon, self.seed, "eddy")
                elif self.kind == "windy":
                    out = self.amp * (state.u * 1e-6 + np.mean(state.v) * 1e-6)
                elif self.kind == "zero":
                    out = np.zeros(g.shape)
                elif self.kind == "const":
                    # the same array every time, kept by the user
                    out = self.kept.get(g.shape)
                    if out is None:
                        out = self.env.note(self.amp * waves(g.nlat, g.nlon, self.seed, "eddy"))
                        out = self.kept.setdefault(g.shape, out)
                elif self.kind == "frozen":
                    # a read-only array
                    out = np.broadcast_to(self.amp * waves(g.nlat, g.nlon, self.seed, "zonal")[:, :1], g.shape)
                elif self.kind == "own":
                    # an array that belongs to the state
                    out = state.pv
                elif self.kind == "factor":
                    out = self.amp
                else:
                    raise ValueError(self.kind)
                seam("callback-ret", "rhs." + self.kind)
                return out
        c = _USER_RHS[bt] = UserRHS
    return c

@harness
def user_rhs(env, kind, amp, seed=0):
    return user_rhs_class()(env, kind, amp, seed)

@harness
def plain_rhs(env, kind, amp, seed=0):
    """A forcing term that is just a function."""
    term = user_rhs_class()(env, kind, amp, seed)
    def function(state):
        return term(state)
    return function

_USER_OROG = {}

@harness
def user_orography(env, height, lon0, width, **k):
    """A mountain written by a user: a subclass that implements orography()."""
    c = _USER_OROG.get(bt)
    if c is None:
        class Ridge(bt.rhs.Orography):
            def __init__(self, env, height, lon0, width, **k):
                super().__init__(None, None, None, **k)
                self.env, self.height, self.lon0, self.width = env, height, lon0, width
            def orography(self, grid):
                seam("callback", "rhs.orography")
                h = self.height * np.exp(-((((grid.lon2 - self.lon0 + 180.) % 360.) - 180.) / self.width) ** 2) * np.cos(np.deg2rad(grid.lat2)) ** 2
                seam("callback-ret", "rhs.orography")
                return h
        c = _USER_OROG[bt] = Ridge
    return c(env, height, lon0, width, **k)

_MEMBER = {}

@harness
def member(env, grid, time, arr, k):
    """A state class of a user, with an attribute of its own."""
    c = _MEMBER.get(bt)
    if c is None:
        class Member(bt.State):
            @property
            def member(self):
                seam("callback", "state.member")
                return self._member
        c = _MEMBER[bt] = Member
    s = c(grid, time, pv=arr)
    s._member = k
    return s

@harness
def twin(env, a, seed, eps):
    """A copy of which some values differ slightly."""
    b = np.array(a)
    r = np.random.RandomState(seed % 2**32)
    inner = np.ones(b.shape, dtype=bool)
    if b.size > 6:
        # ends (and what a summary shows) stay the same
        for d in range(b.ndim):
            if b.shape[d] > 6:
                e = np.zeros(b.shape[d], dtype=bool)
                e[3:-3] = True
                inner &= e.reshape([-1 if k == d else 1 for k in range(b.ndim)])
    n = np.flatnonzero(inner)
    n = r.choice(n, min(n.size, 1 + r.randint(4)), replace=False)
    b.flat[n] += eps * max(float(np.max(np.abs(b))), 1e-30) * r.choice([-1., 1.], n.size)
    return env.note(b)

@harness
def latitudes(env, n, seed):
    return env.note(np.random.RandomState(seed % 2**32).uniform(-80., 80., n))

@harness
def apply(env, f, *a):
    return f(*a)

@harness
def linspace(env, a, b, n):
    return env.note(np.linspace(a, b, n))

@harness
def add(env, a, b):
    return a + b

@harness
def mul(env, a, b):
    return a * b

@harness
def callrhs(env, rhs, state):
    return rhs(state)

@harness
def callrhs2(env, f, state, *a, **k):
    return f(state, *a, **k)

@harness
def length(env, x):
    return len(x)

@harness
def clock(env, kind, x):
    """The same time or duration as pandas has it."""
    import pandas as pd
    return pd.Timedelta(x) if isinstance(x, dt.timedelta) else pd.Timestamp(x)

@harness
def listof(env, x):
    return [s for s in x]

@harness
def listed(env, *xs):
    return list(xs)

@harness
def copied(env, x):
    return copy.copy(x)

@harness
def deepcopied(env, x):
    return copy.deepcopy(x)

@harness
def pickled(env, x):
    return pickle.loads(pickle.dumps(x))

@harness
def positive(env, n, seed):
    r = np.random.RandomState(seed)
    return env.note(r.uniform(0.5, 7., n))

@harness
def positive2(env, n, m, seed):
    r = np.random.RandomState(seed)
    return env.note(r.uniform(0.5, 7., (n, m)))

@harness
def steps(env, model, state, dt_, n, filt=None):
    """n leapfrog steps by hand; returns every state the caller ever saw."""
    out = [state]
    now = env.note(model.euler(state, dt_))
    out.append(now)
    old = state
    for _ in range(n):
        old, now = env.notes(*(model.leapfrog(old, now) if filt is None else model.leapfrog(old, now, filt)))
        out += [old, now]
    return out

@harness
def leap(env, model, state, dt_, filt):
    now = env.note(model.euler(state, dt_))
    return model.leapfrog(state, now, filt)

def _mean_u(s): return s.u.mean(axis=-1)
def _mean_v_m(s): return s.v.mean(axis=-2)
def _ke(s): return float(s.energy.sum())
def _wide(s): return np.mean(s.u.astype("float64"), axis=-1) / 3. + np.sum(s.v, axis=-1) * 1e-9
def _scalar(s): return float(np.mean(s.pv.astype("float64"))) / 7. + 1e-9
def _count(s): return int(np.sum(s.u > 1.)) + 10**9
def _field64(s): return s.u * np.float64(1.1) + s.grid.fcor2 * 1e-3
def _flag(s): return bool(np.mean(s.v) > 0.)
def _complex(s): return np.fft.fft(s.u.astype("float64"), axis=-1)[:, 1] * 1. + 0j
def _self(s): return s
def _time(s): return s.time
def _label(s): return "t" + str(float(s.enstrophy.mean()))[:6]
def _u2(s): return s.u * 2.
def _shift(s): return s.add_vorticity(s.vorticity * 0.5)
def _pair(s): return (float(s.u.max()), 1)
def _slot(s):
    t = s.time
    if isinstance(t, dt.datetime):
        t = (t - dt.datetime(1970, 1, 1)).total_seconds()
    return int(t // 600) % 3
def _mixed(s): return [float(s.u.max()), None, "n/a"][_slot(s)]
def _intfloat(s): return [1 + int(s.u.max()), float(s.u.max()), True][_slot(s)]
def _arrnum(s): return [s.u.mean(axis=1), float(s.u.max()), s.u.mean(axis=1)][_slot(s)]
def _statenum(s): return [s, 1.5, s][_slot(s)]
def _numcomplex(s): return [float(s.u.max()), complex(1., float(s.u.max())), 2][_slot(s)]
def _kinds(s): return [s.u.mean(axis=1), (s.u > 0.).sum(axis=1), s.u.mean(axis=1) * 1j][_slot(s)]

GETTERS = {"mean_u": _mean_u, "mean_v_m": _mean_v_m, "ke": _ke, "self": _self,
           "wide": _wide, "scalar": _scalar, "count": _count, "field64": _field64, "flag": _flag, "complex": _complex,
           "label": _label, "mixed": _mixed, "intfloat": _intfloat, "arrnum": _arrnum, "statenum": _statenum,
           "numcomplex": _numcomplex, "kinds": _kinds, "u2": _u2, "shift": _shift, "pair": _pair}

class Getter:
    """User-supplied function applied to states; counts its calls per element."""
    def __init__(self, env, kind):
        self.env, self.kind = env, kind
    def __call__(self, state, *a, **k):
        calls = self.env.extra.get("calls")
        if calls is not None:
            calls.append(id(state))
        seam("callback", "getter." + self.kind)
        r = GETTERS[self.kind](state)
        if a or k:
            r = (r, list(a), dict(k))
        seam("callback-ret", "getter." + self.kind)
        return r

@harness
def getter(env, kind):
    return Getter(env, kind)


# -- canonical values ------------------------------------------------------------

def canon(v, depth=0):
    if isinstance(v, str):
        return ("s", re.sub(r" at 0x[0-9a-fA-F]+", "", v))
    if v is None or isinstance(v, bytes):
        return ("s", v)
    if isinstance(v, (bool, np.bool_)):
        return ("b", bool(v))
    if isinstance(v, (int, float, complex, np.number)):
        return ("n", complex(v) if isinstance(v, (complex, np.complexfloating)) else float(v))
    if isinstance(v, dt.datetime):
        return ("t", v.isoformat())
    if isinstance(v, dt.timedelta):
        return ("td", v.total_seconds())
    if isinstance(v, (np.datetime64, np.timedelta64)):
        return ("t64", str(v))
    if isinstance(v, np.ndarray):
        if v.ndim == 0:
            return canon(v.item() if v.dtype.kind not in "mM" else v[()], depth)
        if v.dtype.kind == "O":
            return ("oa", v.shape, [canon(x, depth + 1) for x in v.ravel().tolist()])
        return ("a", v.dtype.kind, v.shape, np.array(v))
    if isinstance(v, dict):
        return ("d", {str(k): canon(x, depth + 1) for k, x in v.items()})
    if isinstance(v, tuple):
        return ("tuple", [canon(x, depth + 1) for x in v])
    if isinstance(v, list):
        return ("list", [canon(x, depth + 1) for x in v])
    if isinstance(v, BaseException):
        return ("E", type(v).__name__)
    if bt is not None:
        if isinstance(v, bt.State):
            return ("State", canon_time(v.time), canon(v.pv_spectral), canon_grid(v.grid))
        if isinstance(v, bt.StateList):
            return ("StateList", [canon(s, depth + 1) for s in v])
        if isinstance(v, bt.Grid):
            return ("Grid",) + canon_grid(v)
        if isinstance(v, bt.grid.GridRegion):
            return ("Region", canon(v.lat), canon(v.lon))
        if isinstance(v, bt.BarotropicModel):
            return ("Model", v.diffusion_order, v.diffusion_coeff)
    name = type(v).__name__
    if name in ("Dataset", "DataArray") and hasattr(v, "coords"):
        return canon_dataset(v)
    if name == "Figure":
        import figures
        return figures.canon_figure(v)
    if name == "BarotropicField":
        return ("BarotropicField", canon(np.asarray(v.xlon)), canon(np.asarray(v.ylat)), canon(np.asarray(v.pv_field)))
    if name == "interp1d":
        return ("interp", canon(np.asarray(v.x)), canon(np.asarray(v.y)))
    return ("o", name)

def canon_time(t):
    """Times are compared exactly."""
    if isinstance(t, (int, float, np.number)) and not isinstance(t, bool):
        return ("T", repr(float(t)))
    return canon(t)

def canon_grid(g):
    return (tuple(g.shape), float(g.rsphere), float(g.omega))

def canon_dataset(ds):
    def var(x):
        return (tuple(x.dims), canon(np.asarray(x.values)))
    coords_ = {str(n): var(c) for n, c in ds.coords.items()}
    data = {str(n): var(d) for n, d in ds.data_vars.items()} if hasattr(ds, "data_vars") else {"": var(ds)}
    attrs = {str(k): str(x) for k, x in ds.attrs.items() if k != "package"}
    cattrs = {str(n): {k: str(x) for k, x in c.attrs.items()} for n, c in ds.coords.items()}
    return ("Dataset", data, coords_, attrs, cattrs)


def compare(a, b, rtol=1e-6, path=""):
    """None if two canonical values agree, else a description of the first difference."""
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return cmp_arr(a, b, rtol, path)
    if type(a) is not type(b):
        return f"{path}: type {type(a).__name__} vs {type(b).__name__}: {short(a)} vs {short(b)}"
    if isinstance(a, (tuple, list)):
        if len(a) != len(b):
            return f"{path}: length {len(a)} vs {len(b)}: {short(a)} vs {short(b)}"
        for i, (x, y) in enumerate(zip(a, b)):
            m = compare(x, y, rtol, f"{path}/{i}" if not (i == 0 and isinstance(x, str)) else path)
            if m:
                return m
        return None
    if isinstance(a, dict):
        if set(a) != set(b):
            return f"{path}: keys {sorted(set(a) ^ set(b))}"
        for k in a:
            m = compare(a[k], b[k], rtol, f"{path}/{k}")
            if m:
                return m
        return None
    if isinstance(a, (float, complex)) and not isinstance(a, bool):
        if a == b or (a != a and b != b):
            return None
        if abs(a - b) <= rtol * max(abs(a), abs(b)):
            return None
        return f"{path}: {a!r} vs {b!r}"
    return None if a == b else f"{path}: {short(a)} vs {short(b)}"

def cmp_arr(a, b, rtol, path):
    a = np.asarray(a); b = np.asarray(b)
    if a.shape != b.shape:
        return f"{path}: shape {a.shape} vs {b.shape}"
    if a.dtype.kind not in "fc" or b.dtype.kind not in "fc":
        return None if np.array_equal(a, b) else f"{path}: arrays differ"
    if a.size == 0 or np.array_equal(a, b, equal_nan=True):
        return None
    fin = np.isfinite(a) & np.isfinite(b)
    with np.errstate(all="ignore"):
        bad = ~fin & ~((a == b) | (np.isnan(a) & np.isnan(b)))
    if bad.any():
        i = np.unravel_index(np.argmax(bad), a.shape)
        return f"{path}: at {tuple(map(int, i))} {a[i]} vs {b[i]}"
    scale = max(float(np.max(np.abs(b[fin]))) if fin.any() else 0., float(np.max(np.abs(a[fin]))) if fin.any() else 0.)
    d = np.where(fin, np.abs(a - b), 0.)
    if float(d.max()) <= rtol * scale:
        return None
    i = np.unravel_index(np.argmax(d), a.shape)
    return f"{path}: {int((d > rtol * scale).sum())} of {a.size} values differ, largest at {tuple(map(int, i))}: {a[i]:.8g} vs {b[i]:.8g} (scale {scale:.3g})"

def short(x, n=120):
    s = repr(x)
    return s if len(s) <= n else s[:n] + "..."

def digest(c):
    """Stable digest of a canonical value."""
    return zlib.crc32(pickle.dumps(_plain(c), protocol=4))

def _plain(c):
    if isinstance(c, np.ndarray):
        return (c.dtype.str, c.shape, c.tobytes())
    if isinstance(c, (tuple, list)):
        return [_plain(x) for x in c]
    if isinstance(c, dict):
        return [(k, _plain(c[k])) for k in sorted(c)]
    return c


# -- forked evaluation -------------------------------------------------------------

class ChildError(RuntimeError):
    pass

def forkcall(fn, timeout=120.):
    """Run fn() in a forked child and return its (pickled) result."""
    r, w = os.pipe()
    sys.stdout.flush(); sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            try:
                out = pickle.dumps(("ok", fn()), protocol=4)
            except BaseException as e:
                import traceback
                out = pickle.dumps(("err", f"{type(e).__name__}: {e}\n" + traceback.format_exc()), protocol=4)
            mv = memoryview(out)
            while mv:
                n = os.write(w, mv)
                mv = mv[n:]
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    buf = []
    end = time.monotonic() + timeout
    try:
        while True:
            left = end - time.monotonic()
            if left <= 0 or not select.select([r], [], [], left)[0]:
                os.kill(pid, signal.SIGKILL)
                raise ChildError(f"child exceeded {timeout} s")
            b = os.read(r, 1 << 20)
            if not b:
                break
            buf.append(b)
    finally:
        os.close(r)
        _, status = os.waitpid(pid, 0)
    data = b"".join(buf)
    if not data:
        raise ChildError(f"child died with status {status}")
    tag, val = pickle.loads(data)
    if tag == "err":
        raise ChildError(val)
    return val


def closed(defs, e):
    """The expression with names replaced by their definitions (cache key)."""
    if isinstance(e, dict):
        if "r" in e:
            return {"=" + e["r"][:1]: closed(defs, defs[e["r"]])}
        return {k: closed(defs, v) for k, v in e.items()}
    if isinstance(e, list):
        return [closed(defs, x) for x in e]
    return e

def names_in(e, out=None):
    out = set() if out is None else out
    if isinstance(e, dict):
        if "r" in e:
            out.add(e["r"])
        else:
            for v in e.values():
                names_in(v, out)
    elif isinstance(e, list):
        for v in e:
            names_in(v, out)
    return out

def ident(defs, e):
    """Which names are shared matters (object identity): part of the key."""
    order = {}
    def walk(x):
        if isinstance(x, dict):
            if "r" in x:
                n = x["r"]
                if n in order:
                    return {"same": order[n]}
                order[n] = len(order)
                return {"new": walk(defs[n])}
            return {k: walk(v) for k, v in x.items()}
        if isinstance(x, list):
            return [walk(v) for v in x]
        return x
    return json.dumps(walk(e), sort_keys=True)


def pristine(defs, e):
    """Canonical result of one evaluation on fresh objects (call in a child)."""
    env = Env(defs)
    random.seed(12345)
    np.random.seed(12345)
    try:
        v = env.ev(e)
    except Exception as x:
        return canon(x)
    return canon(v)


_CACHE = {}

def expect(defs, e, cache=True):
    key = ident(defs, e)
    if cache and key in _CACHE:
        return _CACHE[key]
    v = forkcall(lambda: pristine(defs, e))
    if cache:
        if len(_CACHE) > 20000:
            _CACHE.clear()
        _CACHE[key] = v
    return v

@harness
def generator(env, *xs):
    return (x for x in xs)

@harness
def contains(env, L, s):
    return [s in L, L.count(s), L.index(s) if s in L else -1, [x is s for x in reversed(L)]]

@harness
def counted_map(env, L, kind):
    """map() with a function that records on which elements it was called."""
    calls = []
    g = Getter(env, kind)
    def f(state):
        calls.append([i for i, s in enumerate(L) if s is state][:1])
        return g(state)
    r = L.map(f)
    first = [[i for i, s in enumerate(L) if s is x][:1] for x in L]
    return [r, calls == first, len(calls)]

@harness
def probed_steps(env, model, state, dt_, n, name):
    out = []
    now = env.note(model.euler(state, dt_))
    old = state
    for _ in range(n):
        out.append(env.note(getattr(now, name)))
        out.append(env.note(getattr(old, name)))
        old, now = env.notes(*model.leapfrog(old, now))
    return out + [old, now]

@harness
def nested(env, m1, s1, m2, s2, dt_, n):
    """Two integrations by one caller, alternating step by step."""
    a, b = s1, env.note(m1.euler(s1, dt_))
    c, d = s2, env.note(m2.euler(s2, dt_))
    for _ in range(n):
        a, b = env.notes(*m1.leapfrog(a, b))
        c, d = env.notes(*m2.leapfrog(c, d))
    return [a, b, c, d]

@harness
def abandoned(env, model, state, dt_, n):
    now = model.euler(state, dt_)
    old = state
    for _ in range(n):
        old, now = model.leapfrog(old, now)
    del old, now
    return steps(env, model, state, dt_, n)

@harness
def two_dts(env, model, state, dt_):
    """The same start with one step size after the other."""
    a = model.euler(state, dt_)
    b = model.euler(state, dt_ * 2)
    c = model.leapfrog(state, a)
    d = model.leapfrog(state, b)
    return [a, b, *c, *d]

@harness
def harmonic(env, nlat, nlon, omega, n, m, amp):
    """Planetary vorticity plus one spherical harmonic."""
    import scipy.special
    lo, la = coords(nlat, nlon)
    p = np.array(scipy.special.lpmv(m, n, np.sin(la)))
    p = p / np.max(np.abs(p))
    return env.note(2 * omega * np.sin(la) + amp * p * np.cos(m * lo))

@harness
def turned(env, x, how, k, sign):
    """A field on the planet turned by k grid points or seen in a mirror."""
    return env.note(np.roll(x, k, axis=-1) if how == "roll" else sign * np.flipud(x))

@harness
def relisted(env, L):
    """Collection put together again from its elements."""
    n = len(L) // 2
    return bt.StateList(list(L)[:n]) + bt.StateList(s for s in L[n:])


@harness
def inplace(env, a, op, b):
    """a += b on a name of the caller; what a was before must be left alone."""
    c = a
    if op == "add":
        c += b
    else:
        c *= b
    return [c, a]

@harness
def tamper(env, L, how, s):
    """Attempts to change a collection."""
    try:
        if how == "set":
            L[0] = s
        elif how == "del":
            del L[0]
        elif how == "append":
            L.append(s)
        elif how == "slice":
            L[0:1] = [s]
        elif how == "extend":
            L.extend([s])
        r = "accepted"
    except (TypeError, AttributeError):
        r = "rejected"
    return [r, [x for x in L], len(L)]

@harness
def list_from_buffer(env, *states):
    """The caller makes a collection of its own list and goes on using the list."""
    mine = list(states)
    L = bt.StateList(mine)
    if env.sim is not None:
        mine.reverse()
        mine.append(mine[0])
        del mine[:1]
    return L

@harness
def fresh(env, texts):
    """Requests one after another, each with arguments that live only for it."""
    out = []
    me = threading.get_ident()
    env.brief.add(me)
    try:
        for t in texts:
            r = env.ev(json.loads(t))
            out.append(copy.deepcopy(r))
            del r
    finally:
        env.brief.discard(me)
    return out

@harness
def reused(env, calls):
    """Requests on one buffer that the caller fills anew for each of them."""
    out = []
    buf = None
    for path, pos, a, k in calls:
        x = np.asarray(a[pos])
        if buf is None or buf.shape != x.shape or buf.dtype != x.dtype:
            buf = np.array(x)
        else:
            buf[...] = x
        args = list(a)
        args[pos] = buf
        r = env.call(path, args, k)
        out.append(copy.deepcopy(r))
    return out
