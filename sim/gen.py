"""Workload generation: every choice is drawn from one PRNG per (property, seed)."""
import random, math, copy

# (resolution, nlat, nlon); cheap grids, including even numbers of latitudes
RES = [(30., 7, 12), (22.5, 9, 16), (20., 10, 18), (18., 11, 20), (15., 13, 24), (12., 16, 30), (10., 19, 36)]
RES_BIG = [(6., 31, 60), (5., 37, 72), (2.5, 73, 144)]
SHAPE = {r: (a, b) for r, a, b in RES + RES_BIG}
EARTH_R, EARTH_OM = 6371.2e3, 7.292e-5

# what an observer can read from a state, cheap and expensive
FIELDS_CHEAP = ["pv", "avo", "pv_spectral", "u", "v", "streamfunction", "pv_flux_spectral",
                "vorticity", "vo", "vorticity_spectral", "enstrophy", "eddy_enstrophy", "energy"]
FIELDS_DIAG = ["v_envelope_hilbert", "stationary_wavenumber"]
FIELDS_DEAR = ["pv_zonalized", "fawa", "falwa", "falwa_filtered"]

# local time of the machine (UTC offset, daylight saving time) and readings of its clock
ZONES = ["UTC0", "UTC0", "EST5EDT,M3.2.0,M11.1.0", "CET-1CEST,M3.5.0,M10.5.0/3", "NPT-5:45", "HST10", "LHST-10:30LHDT-11,M10.1.0,M4.1.0"]
CLOCKS = [0., 1.0e9, 1.7e9, 2.0 ** 31 - 5, 951782390.]

def R(name):
    return {"r": name}

def F(path, *a, **k):
    e = {"f": path}
    if a:
        e["a"] = list(a)
    if k:
        e["k"] = k
    return e

def AT(e, name):
    return {"@": [e, name]}

class W:
    """A workload under construction."""

    def __init__(self, prop, seed, tier="quick"):
        self.prop, self.seed, self.tier = prop, seed, tier
        self.rng = random.Random(f"{prop}:{seed}")
        self.defs = {}
        self.threads = []
        self.nid = 0
        self.grid = {}              # grid name -> dict(res, nlat, nlon, rsphere, omega, ntrunc)
        self.state_grid = {}        # state name -> grid name
        self.state_time = {}
        self.big = tier == "thorough"

    # -- randomness
    def ch(self, p):
        return self.rng.random() < p

    def pick(self, seq):
        return seq[self.rng.randrange(len(seq))]

    def num(self):
        return self.rng.randrange(1 << 30)

    def d(self, prefix, e):
        name = f"{prefix}{len(self.defs)}"
        self.defs[name] = e
        return name

    def shared(self, e):
        """Options that several requests may be given as one object."""
        return R(self.d("o", e)) if isinstance(e, (dict, list)) and "r" not in e and self.ch(0.5) else e

    # -- grids
    def new_grid(self, res=None, rsphere=None, omega=None, ntrunc=None, legfunc=None):
        if res is None:
            r = self.rng.random()
            res = self.pick(RES[:5])[0] if r < 0.75 else self.pick(RES)[0]
        nlat, nlon = SHAPE[res]
        k = {"resolution": res}
        if rsphere is not None:
            k["rsphere"] = rsphere
        if omega is not None:
            k["omega"] = omega
        if ntrunc is not None:
            k["ntrunc"] = ntrunc
        if legfunc is not None:
            k["legfunc"] = legfunc
        n = self.d("g", F("bt.Grid", **k))
        self.grid[n] = dict(res=res, nlat=nlat, nlon=nlon, rsphere=rsphere or EARTH_R,
                            omega=EARTH_OM if omega is None else omega, ntrunc=ntrunc)
        return n

    def planet(self):
        r = self.rng.random()
        if r < 0.4:
            return {}
        k = {}
        if self.ch(0.6):
            k["rsphere"] = self.pick([3.0e6, 1.0e7, EARTH_R * 1.5])
        if self.ch(0.6):
            k["omega"] = self.pick([0.0, 3.6e-5, 1.5e-4, -7.292e-5, -7.292e-5, 3.6e-5, -2.992e-7])
        return k

    def sibling(self, g, same_eq=False):
        """A grid of the same shape as g (equal, or differing in one parameter only)."""
        i = self.grid[g]
        k = dict(res=i["res"], rsphere=i["rsphere"], omega=i["omega"], ntrunc=i["ntrunc"])
        r = self.rng.random()
        if not same_eq:
            if r < 0.35:
                k["rsphere"] = i["rsphere"] * self.pick([0.5, 2., 1.3])
            elif r < 0.7:
                k["omega"] = self.pick([x for x in (0.0, 3.6e-5, 1.5e-4, EARTH_OM, -EARTH_OM, i["omega"] * 1.02, i["omega"] * 0.99) if x != i["omega"]])
            elif r < 0.85:
                k["ntrunc"] = max(3, (i["ntrunc"] or i["nlat"] - 1) - self.pick([1, 2, 3]))
        return self.new_grid(**k)

    def grids(self, n):
        out = [self.new_grid(**self.planet())]
        while len(out) < n:
            r = self.rng.random()
            if r < 0.6:
                out.append(self.sibling(self.pick(out)))
            elif r < 0.8:
                out.append(self.sibling(self.pick(out), same_eq=True))
            else:
                out.append(self.new_grid(**self.planet()))
        return out

    # -- arrays and states
    def field_e(self, g, kind=None, scale=1., dtype="float64"):
        i = self.grid[g]
        kind = kind or self.pick(["mixed", "mixed", "eddy", "zonal"])
        k = dict(nlat=i["nlat"], nlon=i["nlon"], seed=self.num(), kind=kind, scale=scale)
        if dtype != "float64":
            k["dtype"] = dtype
        return F("%field", **k)

    def time(self):
        r = self.rng.random()
        if r < 0.35:
            return 0.0
        if r < 0.5:
            return 0
        if r < 0.65:
            return self.pick([3600., 86400., -7200., 450., 1.0e7, 0.125, 1599999999.25, 2.0 ** 31 + 3.])
        if r < 0.8:
            return self.pick([3600, -86400, 7, 900, 1600000450, 2 ** 31 + 3])
        return {"dt": self.pick(["2000-01-01T00:00:00", "2019-02-28T18:00:00", "1979-06-15T12:30:00", "2020-02-28T23:59:59.500000", "1969-12-31T23:59:58.250000",
                                 "2001-02-03T04:05:06.000007", "1850-03-01T06:00:00"])}

    def new_state(self, g, time=None, ctor=None, zonal=False, buffer=None, kind=None):
        i = self.grid[g]
        t = self.time() if time is None else time
        r = self.rng.random()
        ctor = ctor or ("pv" if r < 0.35 else "wind" if r < 0.6 else "vorticity" if r < 0.8 else "init")
        kind = kind or ("zonal" if zonal else self.pick(["mixed", "mixed", "mixed", "rough", "eddy", "zonal"]))
        pvf = F("%pvfield", i["nlat"], i["nlon"], i["omega"], self.num(), kind)
        vof = F("%field", i["nlat"], i["nlon"], self.num(), kind, self.pick([1e-5, 3e-5]))
        uf = F("%field", i["nlat"], i["nlon"], self.num(), kind, self.pick([10., 25.]))
        vf = F("%field", i["nlat"], i["nlon"], self.num(), kind if not zonal else "const", 0. if zonal else self.pick([3., 10.]))
        if ctor == "wind" and not zonal and self.ch(0.4):
            # winds that the grid can represent exactly
            q = self.num()
            uf, vf = (F("%ndwind", i["nlat"], i["nlon"], q, x) for x in "uv")
        if ctor == "init":
            e = self.init_state(g, t)
        else:
            arrays = {"pv": [pvf], "vorticity": [vof], "wind": [uf, vf]}[ctor]
            if buffer if buffer is not None else self.ch(0.2):
                e = F("%state_from_buffer", R(g), ctor, t, arrays, self.pick(["plain", "plain", "locked", "single", "fortran"]))
            elif ctor == "pv":
                e = F("bt.State", R(g), t, pv=R(self.d("a", pvf)))
            elif ctor == "vorticity":
                e = F("bt.State.from_vorticity", R(g), t, R(self.d("a", vof)))
            else:
                e = F("bt.State.from_wind", R(g), t, R(self.d("a", uf)), R(self.d("a", vf)))
        n = self.d("s", e)
        self.state_grid[n], self.state_time[n] = g, t
        return n

    def init_state(self, g, t):
        i = self.grid[g]
        r = self.rng.randrange(6)
        if r == 0:
            return F("bt.init.motionless", R(g), t)
        if r == 1:
            return F("bt.init.solid_body_rotation", R(g), t, amplitude=self.pick([10., 20.]))
        if r == 2:
            return F("bt.init.gaussian_jet", R(g), t, self.pick([20., 40.]), self.pick([45., -30., 10.]), self.pick([15., 20.]))
        if r == 3:
            return F("bt.init.held_1985", R(g), t)
        if r == 4:
            return F("bt.init.zonally_symmetric", R(g), t, u=R(self.d("a", F("%profile", i["nlat"], self.num(), 15.))))
        return F("bt.init.zonally_symmetric", R(g), t, pv=R(self.d("a", F("%profile", i["nlat"], self.num(), 1e-4))))

    def derived_state(self, s):
        """A state computed by the library from another state."""
        g = self.state_grid[s]
        i = self.grid[g]
        r = self.rng.randrange(6)
        t = self.state_time[s]
        same = [x for x in self.state_grid if self.state_grid[x] == g]
        if r == 0:
            e = F(".add_vorticity", R(s), R(self.d("a", self.field_e(g, scale=1e-5))))
        elif r == 1:
            e = F(".add_wind", R(s), R(self.pick(same)))
        elif r == 2:
            e = F(".add_vorticity", R(s), R(self.pick(same)))
        elif r == 3:
            e = F(".add_wind", R(s), {"tp": [self.field_e(g, scale=5.), self.field_e(g, scale=5.)]})
        elif r == 4:
            dt = self.dt(s, g)
            e = F(".euler", R(self.model(g)), R(s), dt)
            t = self.after(t, dt["td"] if isinstance(dt, dict) else dt)
        else:
            e = F("%rebuild", R(s))
        n = self.d("s", e)
        self.state_grid[n], self.state_time[n] = g, t
        return n

    def dt(self, s, g=None):
        """A time step that suits the clock of the state."""
        sec = self.pick([300, 450, 600, 900])
        t = self.state_time[s]
        if isinstance(t, dict):
            return {"td": sec}
        return float(sec) if isinstance(t, float) else sec

    def after(self, t, sec):
        """The clock reading sec seconds after t."""
        if isinstance(t, dict):
            import datetime as D
            return {"dt": (D.datetime.fromisoformat(t["dt"]) + D.timedelta(seconds=sec)).isoformat()}
        return t + (float(sec) if isinstance(t, float) else (int(sec) if sec == int(sec) else sec))

    def elsewhere(self, t):
        """The same time, given in another time zone."""
        import datetime as D
        if isinstance(t, dict) and t["dt"][-6] in "+-" and self.ch(0.6):
            o = D.timezone(D.timedelta(minutes=self.pick([0, 60, -300, 345, 840])))
            return {"dt": D.datetime.fromisoformat(t["dt"]).astimezone(o).isoformat()}
        return t

    # -- forcing
    def rhs_term(self, g, t0=0.0, user=True, orog=True):
        mine = self.__dict__.setdefault("_terms", [])
        near = [(e, h) for e, h in mine if h == g or "Mountain" in e["f"]]
        if orog and near and self.ch(0.2):
            e = self.near_term(self.pick(near)[0])
        else:
            e = self.new_term(g, t0, user, orog)
        if e["f"] in ("bt.rhs.GaussianMountain", "bt.rhs.ZonalSineMountains", "bt.rhs.LinearRelaxation"):
            mine.append((e, g))
        return e

    def near_term(self, e):
        """A term that differs from another one in a single parameter, if at all."""
        e = copy.deepcopy(e)
        def change(x):
            if isinstance(x, dict) and "tp" in x:
                y = list(x["tp"])
                j = self.rng.randrange(len(y))
                y[j] = change(y[j])
                return {"tp": y}
            return x * self.pick([0.75, 1.4]) if x else 30.
        r = self.rng.random()
        if e["f"] == "bt.rhs.LinearRelaxation":
            e["a"][0] = change(e["a"][0])
        elif r < 0.2:
            k = e.setdefault("k", {})
            k["wind"] = self.pick([{"tp": ["act", 0.8]}, {"tp": ["zon", 0.7]}, {"tp": ["sbr", 7.]}])
        elif r < 0.35:
            e.setdefault("k", {}).update(self.pick([{"fcor_ref": 5e-5}, {"scale_height": 6000.}]))
        elif r < 0.95 and e["a"]:
            j = self.rng.randrange(len(e["a"]))
            if e["f"] == "bt.rhs.ZonalSineMountains" and j == 3:
                e["a"][3] += 1
            else:
                e["a"][j] = change(e["a"][j])
        return e

    def new_term(self, g, t0=0.0, user=True, orog=True):
        e = self.full_term(g, t0, user, orog)
        if "Mountain" in e["f"] and self.ch(0.12):      # the rest as by default
            e["a"] = e["a"][:self.rng.randrange(len(e["a"]))]
        return e

    def full_term(self, g, t0=0.0, user=True, orog=True):
        i = self.grid[g]
        r = self.rng.random()
        if orog and r < 0.45:
            wind = self.pick([None, {"tp": ["act", 0.5]}, {"tp": ["zon", 1.]}, {"tp": ["zon", 0.3]}, {"tp": ["sbr", 15.]}])
            k = {}
            if wind is not None:
                k["wind"] = wind
            if self.ch(0.3):
                k["fcor_ref"] = 1e-4
            if self.ch(0.3):
                k["scale_height"] = 8000.
            q = self.rng.random()
            if q < 0.4:
                return F("bt.rhs.GaussianMountain", self.pick([1500, 800.]), {"tp": [self.pick([30., 200.]), self.pick([45., -20.])]},
                         self.pick([{"tp": [12., 20.]}, 15.]), **k)
            if q < 0.7:
                return F("bt.rhs.ZonalSineMountains", self.pick([1500, 500.]), self.pick([45., 0.]), self.pick([10., 20.]), self.pick([2, 3, 4]), **k)
            n = self.pick([9, 13])
            m = self.pick([13, 19])
            return F("bt.rhs.Orography", F("%linspace", 0., 360., m), F("%linspace", 90., -90., n),
                     F("%field", n, m, self.num(), "mixed", 700.), **k)
        if r < 0.75 or not user:
            ref = F("%pvfield", i["nlat"], i["nlon"], i["omega"], self.num(), "zonal")
            return F("bt.rhs.LinearRelaxation", self.pick([1e-5, 1. / 86400, 3e-6]), R(self.d("a", ref)))
        return self.user_term(orog)

    def user_term(self, orog=True):
        """A forcing term written by a user."""
        r = self.rng.random()
        if r < 0.5:
            return F("%user_rhs", self.pick(["damp", "stir", "windy"]), self.pick([1e-6, 3e-6]), self.num())
        if r < 0.6:
            return F("%user_rhs", "stir", 2e-11, self.num())
        if r < 0.75:
            return F("%user_rhs", self.pick(["const", "const", "frozen"]), 2e-11, self.num())
        if r < 0.88 or not orog:
            k = R(self.d("k", F("%user_rhs", "factor", self.pick([1e-6, -2e-6]))))
            own = F("%user_rhs", "own", 0.)
            return F("%mul", own, k) if self.ch(0.5) else F("%mul", k, own)
        return F("%user_orography", self.pick([800., 1500.]), self.pick([0., 120., 350.]), self.pick([20., 40.]),
                 wind={"tp": self.pick([["act", 0.5], ["zon", 1.], ["sbr", 15.]])})

    def rhs(self, g, t0=0.0, depth=0, user=True, timed=True, orog=True):
        """An expression tree of forcing terms."""
        r = self.rng.random()
        if depth >= 2 or r < 0.45:
            e = self.rhs_term(g, t0, user, orog)
        elif r < 0.75:
            e = F("%add", self.rhs(g, t0, depth + 1, user, timed, orog), self.rhs(g, t0, depth + 1, user, timed, orog))
            if user and self.ch(0.15):
                e["a"][self.rng.randrange(2)] = F("%plain_rhs", *self.pick([["damp", 1e-6], ["const", 2e-11], ["stir", 2e-11], ["frozen", 2e-11]]), self.num())
                if self.ch(0.5):
                    e["a"] = e["a"][::-1]
        elif r < 0.9 or not timed:
            e = F("%mul", self.pick([R(self.d("k", F("%user_rhs", "factor", self.pick([0.5, 2.]))))]) if user else
                  self.rhs_term(g, t0, user, orog), self.rhs_term(g, t0, user, orog)) if user else self.rhs_term(g, t0, user, orog)
        else:
            e = F("%mul", self.rhs_term(g, t0, user, orog), F("bt.rhs.TimedOffSwitch", self.after(t0, self.pick([-600, 0, 600, 900, 1500, 3600]))))
            if self.ch(0.5):
                e["a"] = e["a"][::-1]
        return R(self.d("f", e))

    def model(self, g, t0=0.0, rhs=True, diffusion=None, bg=None, **kw):
        k = {}
        if rhs and self.ch(0.7):
            k["rhs"] = self.rhs(g, t0, **kw)
        i = self.grid[g]
        pool = self.__dict__.setdefault("_diffusions", {}).setdefault(g, [])
        if diffusion is None:
            r = self.rng.random()
            if pool and r < 0.2:
                # differs from another model in one parameter
                k.update(self.pick(pool))
                if self.ch(0.6):
                    k["diffusion_order"] = self.pick([x for x in (1, 2, 3) if x != k["diffusion_order"]])
                elif self.ch(0.7):
                    k["diffusion_coeff"] *= self.pick([0.5, 2.])
            elif r < 0.5:
                k["diffusion_order"] = self.pick([1, 2, 2, 3, 4, 5])
                # damping of the smallest scales by a factor of order one per step
                n = i["nlat"] - 1
                lap = n * (n + 1) / i["rsphere"] ** 2
                k["diffusion_coeff"] = self.pick([0.1, 1., 5.]) / (600. * lap ** k["diffusion_order"])
                pool.append({x: k[x] for x in ("diffusion_order", "diffusion_coeff")})
            elif r < 0.6:
                k["diffusion_coeff"] = 0.
        else:
            k.update(diffusion)
        if bg if bg is not None else self.ch(0.25):
            k["diffusion_bg"] = R(self.d("a", F("%pvfield", i["nlat"], i["nlon"], i["omega"], self.num(), "zonal")))
        return self.d("m", F("bt.BarotropicModel", **k))

    # -- operations
    def op(self, name, e, **kw):
        self.nid += 1
        o = dict(id=self.nid, name=name, e=e)
        o.update(kw)
        return o

    def drop(self, names):
        self.nid += 1
        return dict(id=self.nid, name="drop", drop=list(names))

    def deal(self, ops, nthreads, copies=0.0):
        """Distribute operations over threads (keeping relative order)."""
        th = [[] for _ in range(nthreads)]
        for o in ops:
            th[self.rng.randrange(nthreads)].append(o)
            if nthreads > 1 and self.ch(copies):
                self.nid += 1
                o2 = copy.deepcopy(o)
                o2["id"] = self.nid
                th[self.rng.randrange(nthreads)].append(o2)
        return [t for t in th if t] or [[]]

    def sched(self, nthreads):
        if nthreads < 2:
            return {"mode": "random", "p": 0.0}
        s = {"mode": "random", "p": math.exp(self.rng.uniform(math.log(0.002), math.log(0.5)))}
        if self.ch(0.3):
            s["burst"] = self.pick([20, 100, 500])
        return s

    def meta(self):
        return {"state_grid": self.state_grid, "state_time": self.state_time}

    def spec(self, threads, fault_rate=None, kinds=None, fingerprint=None, opcode=None, **kw):
        n = len(threads)
        s = dict(prop=self.prop, seed=self.seed, defs=self.defs, threads=threads,
                 sched=self.sched(n),
                 opcode=self.ch(0.12) if opcode is None else opcode)
        if fingerprint:
            s["fingerprint"] = fingerprint
        if fault_rate is None:
            fault_rate = self.pick([0.0, 0.3, 0.7])
        s["fault_rate"] = fault_rate
        s["fault_kinds"] = kinds or ["KeyboardInterrupt", "MemoryError"]
        # the machine the run happens on
        r = random.Random(f"machine:{self.prop}:{self.seed}")
        s["machine"] = dict(tz=r.choice(ZONES), rnd=r.randrange(1 << 30), t0=r.choice(CLOCKS), tick=r.choice([0., 1e-6, 1e-3, 1., 100.]),
                            jumps=[[int(2 ** r.uniform(4, 17)), r.choice([3600., -3600., 86400. * 400, -0.5, -1e9])] for _ in range(r.choice([0, 0, 1, 2]))])
        s.update(kw)
        return s


USER_FAULTS = ["StopIteration", "ValueError", "TypeError", "KeyError", "IndexError", "AttributeError", "RuntimeError",
               "ArithmeticError", "NotImplementedError", "AssertionError"]

def with_faults(spec, res, salt=0):
    """A second version of the run, with faults inside operations.

    Positions are drawn from the yield points and seam calls that the operations
    passed in the fault-free execution, so that faults hit work in progress."""
    rng = random.Random(f"faults:{spec['prop']}:{spec['seed']}:{salt}")
    ks = {o[0]: (o[5], o[6]) for o in res["obs"]}
    s = copy.deepcopy({k: v for k, v in spec.items()})
    n = 0
    for th in s["threads"]:
        for op in th:
            if op["id"] not in ks or rng.random() >= spec["fault_rate"] or op.get("nofault"):
                continue
            k, seams = ks[op["id"]]
            plans = []
            many = spec.get("max_faults", 2)
            for _ in range(1 if rng.random() < 0.75 else rng.randrange(2, many + 1)):
                kinds = [x for x in seams if x in ("spharm", "callback", "storage", "import", "figure") and seams[x]]
                if kinds and rng.random() < 0.5:
                    kind = sorted(kinds)[rng.randrange(len(kinds))]
                    exc = {"spharm": "MemoryError", "callback": "Injected", "storage": "OSError",
                           "import": "ImportError", "figure": "MemoryError"}[kind]
                    r = rng.random()
                    if kind == "storage" and r < 0.3:
                        exc = "MemoryError" if r < 0.2 else "RuntimeError"
                    elif kind == "spharm" and r < 0.25:
                        exc = "ValueError"
                    elif kind == "callback" and r < 0.6:
                        exc = USER_FAULTS[rng.randrange(len(USER_FAULTS))]
                    plans.append({"seam": kind, "n": rng.randrange(seams[kind]), "exc": exc})
                elif k > 1:
                    # log-uniform or uniform over the events of the operation
                    pos = int(k ** rng.random()) if rng.random() < 0.3 else rng.randrange(1, k)
                    plans.append({"at": pos, "exc": spec["fault_kinds"][rng.randrange(len(spec["fault_kinds"]))]})
            if plans:
                op["faults"] = plans
                n += 1
    return s if n else None


def inline(w, e, keep=()):
    """The expression with names replaced by their definitions: all objects are
    temporary and die with the operation."""
    if isinstance(e, dict):
        if "r" in e:
            return e if e["r"] in keep else inline(w, copy.deepcopy(w.defs[e["r"]]), keep)
        return {k: inline(w, v, keep) for k, v in e.items()}
    if isinstance(e, list):
        return [inline(w, v, keep) for v in e]
    return e
