"""Reference model: the documented equations, written from the documentation on
top of spharm only.  Nothing here imports the package under test."""
import math, datetime as dt
import numpy as np
import spharm
import world

_G = {}

def rgrid(resolution=2.5, rsphere=6371.2e3, omega=7.292e-5, ntrunc=None, legfunc="stored"):
    key = (resolution, rsphere, omega, ntrunc, legfunc)
    if key not in _G:
        if len(_G) > 200:
            _G.clear()
        _G[key] = RGrid(*key)
    return _G[key]


class RGrid:
    def __init__(self, resolution, rsphere, omega, ntrunc, legfunc):
        self.nlon = int(math.floor(360. / resolution + 1e-6))
        self.nlat = int(math.floor(180. / resolution + 1e-6)) + 1
        self.shape = (self.nlat, self.nlon)
        self.res, self.rsphere, self.omega = resolution, rsphere, omega
        self.lon = np.linspace(0., 360., self.nlon, endpoint=False)
        self.lat = np.linspace(90., -90., self.nlat)
        self.lon2, self.lat2 = np.meshgrid(self.lon, self.lat)
        self.T = self.nlat - 1 if ntrunc is None else ntrunc
        self.sp = spharm.Spharmt(self.nlon, self.nlat, rsphere=rsphere, gridtype="regular", legfunc=legfunc)
        _, n = spharm.getspecindx(self.T)
        self.n = np.asarray(n)
        self.m = np.asarray(spharm.getspecindx(self.T)[0])
        self.lap = (self.n * (self.n + 1.) / rsphere ** 2)
        self.f2 = 2. * omega * np.sin(np.deg2rad(self.lat2))
        self.fs = self.spec(self.f2)

    def spec(self, x):
        return self.sp.grdtospec(np.array(x), self.T)

    def grid(self, s):
        return self.sp.spectogrd(np.array(s))

    def vortspec(self, u, v):
        return self.sp.getvrtdivspec(np.array(u), np.array(v), self.T)[0]

    def divspec(self, u, v):
        return self.sp.getvrtdivspec(np.array(u), np.array(v), self.T)[1]

    def grad(self, x):
        return self.sp.getgrad(self.spec(x))

    def area(self):
        """Area weights of the rows (sum over the globe = 4 pi r^2)."""
        phi = np.deg2rad(self.lat)
        mid = np.concatenate([[np.pi / 2], 0.5 * (phi[1:] + phi[:-1]), [-np.pi / 2]])
        return self.rsphere ** 2 * 2 * np.pi / self.nlon * (np.sin(mid[:-1]) - np.sin(mid[1:]))


def grid_of(defs, e):
    e = deref(defs, e)
    assert e["f"] == "bt.Grid", e
    names = ["resolution", "rsphere", "omega", "ntrunc", "legfunc"]
    k = dict(zip(names, e.get("a", [])))
    k.update(e.get("k", {}))
    return rgrid(**k)

def deref(defs, e):
    while isinstance(e, dict) and "r" in e:
        e = defs[e["r"]]
    return e

def value(defs, e):
    """Values that do not involve the package (arrays, times, tuples)."""
    env = world.Env(defs)
    return env.ev(e)


class RState:
    def __init__(self, g, time, spec):
        self.g, self.time, self.spec = g, time, np.array(spec)
        self._uv = None

    @property
    def pv(self):
        return self.g.grid(self.spec)

    @property
    def vospec(self):
        return self.spec - self.g.fs

    @property
    def uv(self):
        if self._uv is None:
            z = self.vospec
            self._uv = self.g.sp.getuv(z, np.zeros_like(z))
        return self._uv

    u = property(lambda self: self.uv[0])
    v = property(lambda self: self.uv[1])

    @property
    def vorticity(self):
        return self.pv - self.g.f2

    @property
    def streamfunction(self):
        z = self.vospec
        s = np.zeros_like(z)
        s[1:] = -z[1:] / self.g.lap[1:].astype(np.complex64)
        return self.g.grid(s)


def hann_smoothed(f, k):
    """Zonal running mean with a Hann window as wide as two wavelengths."""
    n = f.shape[1]
    half = (n // np.clip(k, 1., n / 2)).astype(int)
    out = np.zeros(f.shape)
    for h in np.unique(half):
        w = 0.5 * (1. + np.cos(np.pi * np.arange(-h, h + 1) / h))
        w /= w.sum()
        x = sum(w[q + h] * np.roll(f, -q, axis=1) for q in range(-h, h + 1))
        out[half == h] = x[half == h]
    return out

def field(s, name):
    """Reference value of a field of an RState, or None if not modelled."""
    if name in ("pv", "avo"):
        return s.pv
    if name == "pv_spectral":
        return s.spec
    if name in ("vorticity", "vo"):
        return s.vorticity
    if name == "vorticity_spectral":
        return s.vospec
    if name == "u":
        return s.u
    if name == "v":
        return s.v
    if name == "streamfunction":
        return s.streamfunction
    if name == "energy":
        return 0.5 * (s.u ** 2 + s.v ** 2)
    if name == "enstrophy":
        return 0.5 * s.pv ** 2
    if name == "eddy_enstrophy":
        q = s.pv
        return 0.5 * (q - q.mean(axis=1, keepdims=True)) ** 2
    if name == "pv_flux_spectral":
        return s.g.divspec(s.pv * s.u, s.pv * s.v)
    if name == "v_envelope_hilbert":
        f = np.fft.fft(s.v, axis=1)
        h = np.zeros_like(f)
        h[:, 2:11] = 2. * f[:, 2:11]
        n = s.g.nlon
        h[:, n // 2:] = 0.
        if n % 2 == 0 and n // 2 <= 10:
            h[:, n // 2] = f[:, n // 2]
        return np.abs(np.fft.ifft(h, axis=1))
    return None

# -- construction -------------------------------------------------------------------

def state_from(g, time, ctor, arrays):
    a = [np.asarray(x) for x in arrays]
    if ctor == "pv":
        return RState(g, time, g.spec(a[0]))
    if ctor == "vorticity":
        return RState(g, time, g.spec(g.f2 + a[0]))
    if ctor == "wind":
        return RState(g, time, g.spec(g.f2 + g.grid(g.vortspec(a[0], a[1]))))
    raise ValueError(ctor)

# -- forcing --------------------------------------------------------------------------

def forcing(defs, e, s):
    """Value of a forcing expression for the reference state s."""
    e = deref(defs, e)
    if isinstance(e, (int, float)):
        return e
    f, a, k = e["f"], e.get("a", []), e.get("k", {})
    if f == "%add":
        return forcing(defs, a[0], s) + forcing(defs, a[1], s)
    if f == "%mul":
        return forcing(defs, a[0], s) * forcing(defs, a[1], s)
    if f == "bt.rhs.TimedOffSwitch":
        return 1. if s.time <= value(defs, a[0] if a else k["tend"]) else 0.
    if f == "bt.rhs.LinearRelaxation":
        return a[0] * (value(defs, a[1]) - s.pv)
    if f in ("%user_rhs", "%plain_rhs"):
        kind, amp = a[0], a[1]
        seed = a[2] if len(a) > 2 else 0
        if kind == "damp":
            return -amp * s.vorticity
        if kind == "own":
            return s.pv
        if kind == "frozen":
            return np.broadcast_to(amp * world.waves(s.g.nlat, s.g.nlon, seed, "zonal")[:, :1], s.g.shape)
        if kind in ("stir", "const"):
            return amp * world.waves(s.g.nlat, s.g.nlon, seed, "eddy")
        if kind == "windy":
            return amp * (s.u * 1e-6 + np.mean(s.v) * 1e-6)
        if kind == "zero":
            return np.zeros(s.g.shape)
        if kind == "factor":
            return amp
    if f in ("bt.rhs.Orography", "bt.rhs.GaussianMountain", "bt.rhs.ZonalSineMountains", "%user_orography"):
        g = s.g
        if f == "%user_orography":
            height, lon0, width = a[:3]
            h = height * np.exp(-((((g.lon2 - lon0 + 180.) % 360.) - 180.) / width) ** 2) * np.cos(np.deg2rad(g.lat2)) ** 2
        elif f.endswith("Orography"):
            lon, lat, h = (np.asarray(value(defs, x)) for x in a[:3])
            h = bilinear(lon, lat, h, g)
        elif f.endswith("GaussianMountain"):
            p = dict(zip(["height", "center", "stdev"], [value(defs, x) for x in a]))
            height, (clon, clat) = p.get("height", 1500), p.get("center", (30., 45.))
            sd = p.get("stdev", (7.5, 20.))
            slon, slat = (sd, sd) if isinstance(sd, (int, float)) else sd
            h = height * np.exp(-0.5 * ((g.lon2 - clon) / slon) ** 2) * np.exp(-0.5 * ((g.lat2 - clat) / slat) ** 2)
        else:
            p = dict(zip(["height", "center_lat", "stdev_lat", "wavenumber"], a))
            h = (p.get("height", 1500) * 0.5 * (1 + np.cos(p.get("wavenumber", 4) * np.deg2rad(g.lon2)))
                 * np.exp(-0.5 * ((g.lat2 - p.get("center_lat", 45.)) / p.get("stdev_lat", 10.)) ** 2))
        gx, gy = g.grad(h)
        kind, fact = value(defs, k["wind"]) if "wind" in k else ("act", 1.)
        if kind == "act":
            u, v = fact * s.u, fact * s.v
        elif kind == "zon":
            u, v = fact * s.u.mean(axis=1, keepdims=True), 0.
        else:
            u, v = fact * np.cos(np.deg2rad(g.lat))[:, None], 0.
        fc = k.get("fcor_ref")
        fc = g.f2 if fc is None else fc
        return -fc / k.get("scale_height", 10000.) * (u * gx + v * gy)
    raise ValueError(f)

def bilinear(lon, lat, h, g):
    out = np.empty(g.shape)
    rows = np.empty((g.nlat, len(lon)))
    for j in range(len(lon)):
        rows[:, j] = np.interp(-g.lat, -lat, h[:, j])
    for i in range(g.nlat):
        out[i] = np.interp(g.lon, lon, rows[i])
    return out

# -- integration ------------------------------------------------------------------------

class RModel:
    def __init__(self, defs, e):
        e = deref(defs, e)
        assert e["f"] == "bt.BarotropicModel"
        names = ["rhs", "diffusion_order", "diffusion_coeff", "diffusion_bg"]
        k = dict(zip(names, e.get("a", [])))
        k.update(e.get("k", {}))
        self.defs = defs
        self.rhs = k.get("rhs")
        self.order = k.get("diffusion_order", 2)
        self.coeff = k.get("diffusion_coeff", 1e15)
        self.bg = np.asarray(value(defs, k["diffusion_bg"])) if k.get("diffusion_bg") is not None else None

    def bgsize(self, g):
        """Size of what diffusion subtracts and adds again (in single precision)."""
        return float(np.max(np.abs(g.spec(self.bg)))) if self.bg is not None else 0.

    def amplification(self, g, dts):
        """How much implicit diffusion amplifies rounding errors (1 for forward steps)."""
        with np.errstate(all="ignore"):
            return max(1., float(1. / np.min(np.abs(1. + dts * self.coeff * g.lap ** self.order))))

    def tendency(self, s):
        g = s.g
        q = s.pv
        t = -g.divspec(q * s.u, q * s.v)
        if self.rhs is not None:
            t = t + g.spec(np.broadcast_to(np.asarray(forcing(self.defs, self.rhs, s), dtype=float), g.shape))
        return t

    def diffuse(self, g, spec, dts):
        b = g.spec(self.bg) if self.bg is not None else 0.
        with np.errstate(all="ignore"):
            return (spec - b) / (1. + dts * self.coeff * (g.lap ** self.order)) + b

    def euler(self, s, dt_):
        d = seconds(dt_)
        return RState(s.g, s.time + dt_, self.diffuse(s.g, s.spec + d * self.tendency(s), d).astype(np.complex64))

    def leapfrog(self, old, now, r=0.2):
        dt_ = now.time - old.time
        d = seconds(dt_)
        new = self.diffuse(now.g, old.spec + 2 * d * self.tendency(now), 2 * d)
        filt = now.spec + r * (old.spec - 2. * now.spec + new)
        return (RState(now.g, now.time, filt.astype(np.complex64)),
                RState(now.g, now.time + dt_, new.astype(np.complex64)))

    def run(self, s, dt_, tend, save=0):
        """(final, saved) by the documented schedule; exact for exact clocks."""
        if tend < s.time:
            return s, [s]
        saved = [s]
        a, b = s, self.euler(s, dt_)
        k = 1
        start = s.time
        while a.time < tend:
            a, b = self.leapfrog(a, b)
            if save and a.time - start >= k * save:
                saved.append(a)
                while a.time - start >= k * save:
                    k += 1
        return a, saved

def seconds(x):
    return x.total_seconds() if isinstance(x, dt.timedelta) else x
