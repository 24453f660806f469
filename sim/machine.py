"""The machine a run happens on: time zone, clocks and random numbers.

Set up in the forked process of a run.  A fresh evaluation takes place in UTC,
with the real clock and other random numbers, so that anything that depends on
the machine differs between the two."""
import os, sys, time, random
import numpy as np


def local(m):
    if m.get("tz"):
        os.environ["TZ"] = m["tz"]
        time.tzset()
    if "rnd" in m:
        random.seed(m["rnd"])
        np.random.seed(m["rnd"])


class Clock:
    """Simulated clocks: advance with the events of the run.  The wall clock
    jumps, monotonic clocks only ever go forward."""

    def __init__(self, m, sim):
        self.t0, self.tick, self.sim = m["t0"], m["tick"], sim
        self.jumps = sorted(m["jumps"])

    def wall(self):
        self.sim.count("clock:read")
        n = self.sim.nev
        return self.t0 + self.tick * n + sum(d for at, d in self.jumps if n >= at)

    def mono(self):
        self.sim.count("clock:read")
        n = self.sim.nev
        return 1000. + self.tick * n + sum(d for at, d in self.jumps if n >= at and d > 0)


def clock(m, sim):
    if "t0" not in m:
        return
    c = Clock(m, sim)
    real = {}
    def patch(name, f, ns):
        g = getattr(time, name)
        def h():
            if not ours(sys._getframe(1)):
                return g()
            return int(f() * 1e9) if ns else f()
        h.__name__ = name
        setattr(time, name, h)
    for name, f in (("time", c.wall), ("monotonic", c.mono), ("perf_counter", c.mono), ("process_time", c.mono), ("thread_time", c.mono)):
        patch(name, f, False)
        patch(name + "_ns", f, True)
    doze = time.sleep
    def sleep(s):
        if not ours(sys._getframe(1)):
            return doze(s)
        c.t0 += s
        sim.count("clock:sleep")
        sim.seam("sleep", "sleep")
    time.sleep = sleep
    # names the package imported
    for mod in [x for n, x in sys.modules.items() if n.split(".")[0] == "barotropic"]:
        for k, v in list(vars(mod).items()):
            if getattr(v, "__module__", None) == "time" and callable(v) and hasattr(time, getattr(v, "__name__", "")):
                setattr(mod, k, getattr(time, v.__name__))


def ours(frame):
    return frame.f_globals.get("__name__", "").split(".")[0] == "barotropic"


# -- process-wide settings ---------------------------------------------------------

def settings(m):
    """Settings a user of the process has chosen (C17)."""
    s = m.get("settings")
    if not s:
        return
    import warnings, xarray
    np.set_printoptions(**s["print"])
    warnings.simplefilter(s["warn"])
    warnings.showwarning = quiet
    xarray.set_options(**s["xarray"])
    os.environ["SIM_MARK"] = "user"

def quiet(*a, **k):
    pass

def thread_settings(m):
    s = m.get("settings")
    if s:
        import decimal
        np.seterr(**s["err"])
        np.set_printoptions(**s["print"])       # (per thread, as the others)
        decimal.getcontext().prec = s["prec"]

def snapshot(m, everything=True):
    """What is set for the whole process (and for this thread)."""
    import warnings, xarray, logging, locale, signal, gc, matplotlib, decimal
    mine = {    # of this thread
        "decimal context": repr([getattr(decimal.getcontext(), k) for k in ("prec", "rounding", "traps")]),
        "floating-point error handling of numpy": np.geterr(),
        "print options of numpy": repr(sorted((k, repr(v)) for k, v in np.get_printoptions().items() if k != "formatter")),
    }
    if everything == "thread":
        return mine
    out = {
        "warning filters": repr(warnings.filters),
        "warning output": id(warnings.showwarning),
        "random numbers": random.getstate(),
        "random numbers of numpy": repr(np.random.get_state()),
        "environment": repr(sorted(os.environ.items())),
        "working directory": os.getcwd(),
        "recursion limit": sys.getrecursionlimit(),
        "options of xarray": repr(sorted((k, repr(v)) for k, v in xarray.get_options().items())),
        "logging": (logging.root.level, logging.root.disabled, len(logging.root.handlers), logging.root.manager.disable),
        "locale": locale.setlocale(locale.LC_ALL),
        "signal handlers": repr([signal.getsignal(x) for x in (signal.SIGINT, signal.SIGTERM, signal.SIGALRM)]),
        "garbage collector": gc.isenabled(),
        "import path": repr(sys.path),
        "standard output": (id(sys.stdout), id(sys.stderr), id(sys.excepthook)),
        "interactive mode of pyplot": matplotlib.is_interactive(),
        "backend of matplotlib": matplotlib.get_backend(),
    }
    if everything != "end":
        out.update(mine)
    if everything:
        out["rcParams of matplotlib"] = repr(sorted((k, repr(v)) for k, v in dict.items(matplotlib.rcParams)))
    return out

def changed(a, b):
    for k in a:
        if k in b and a[k] is not None and b[k] is not None and a[k] != b[k]:
            x, y = str(a[k]), str(b[k])
            i = next((i for i, (p, q) in enumerate(zip(x, y)) if p != q), min(len(x), len(y)))
            i = max(0, i - 30)
            return f"{k} changed from ...{x[i:i + 80]} to ...{y[i:i + 80]}"
    return None
