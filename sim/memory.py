"""What is left behind: live objects of the package and memory it allocated."""
import gc, os, sys, tracemalloc
import world
from world import harness, seam
from oracles import oracle, post

DEEP = 4

def live(*kinds):
    """Number of live objects of each kind."""
    import barotropic as bt
    classes = {"State": bt.State, "StateList": bt.StateList, "Grid": bt.Grid, "GridRegion": bt.grid.GridRegion,
               "BarotropicModel": bt.BarotropicModel, "RHS": bt.rhs.RHS}
    out = dict.fromkeys(kinds, 0)
    for o in gc.get_objects():
        mro = type(o).__mro__
        if len(mro) > 1:
            for k in kinds:
                if classes[k] in mro:
                    out[k] += 1
    return out

LIBS = ("numpy", "scipy", "spharm", "spherepack", "pyspharm")

NUMPY = 389047          # numpy.lib.tracemalloc_domain: the data of arrays

def allocated():
    """Bytes allocated by the package (or by numerics on its behalf)."""
    src = world.SRC if hasattr(world, "SRC") else "/repo/src"
    total = 0
    for t in tracemalloc.take_snapshot().traces:
        if t.domain != NUMPY and t.size < 200:
            continue            # (numpy itself keeps some short strings)
        for fr in reversed(t.traceback):        # most recent call first
            f = fr.filename
            if t.domain == NUMPY and "/site-packages/" in f and any("/site-packages/" + l in f for l in LIBS):
                continue
            if f.startswith("<"):
                continue
            if "/src/barotropic/" in f:
                total += t.size
            break
    return total

def begin(trace):
    gc.collect()
    gc.freeze()                 # (what exists already is not looked at again)
    if trace:
        tracemalloc.start(DEEP)

class Quiet:
    """Without the simulation noticing."""
    def __init__(self, env):
        self.sim = env.sim
    def __enter__(self):
        self.tr = sys.gettrace()
        sys.settrace(None)
        if self.sim is not None:
            self.m = self.sim.muted()
            self.m.__enter__()
    def __exit__(self, *a):
        if self.sim is not None:
            self.m.__exit__(*a)
        sys.settrace(self.tr)

@harness
def mark(env):
    """Memory in use between two operations."""
    with Quiet(env):
        gc.collect()
        n = live("State", "StateList", "Grid")
        return {"State": n["State"], "StateList": n["StateList"], "Grid": n["Grid"], "bytes": allocated() if tracemalloc.is_tracing() else 0}

def final(env):
    """Objects that outlive everything the caller held."""
    env.vals.clear()
    env.extra.pop("probe", None)
    gc.collect()
    return live("State", "StateList", "Grid", "GridRegion", "BarotropicModel")

@harness
def peak(env, m, s, dt, n, every):
    """Largest number of states alive during a run (beyond those before it)."""
    import barotropic as bt
    gc.collect()
    before = live("State")["State"]
    most, calls = [0], [0]
    class Watch(bt.rhs.RHS):
        def __call__(self, state):
            calls[0] += 1
            if calls[0] % 4 == 0:
                with Quiet(env):
                    gc.collect()
                    most[0] = max(most[0], live("State")["State"] - before)
            return 0. * state.pv
    rhs = Watch() if m.rhs is None else m.rhs + Watch()
    model = bt.BarotropicModel(rhs=rhs, diffusion_order=m.diffusion_order, diffusion_coeff=m.diffusion_coeff)
    t = s.time
    tend = t + n * dt
    k = {"save_every": every * dt} if every else {}
    last, saved = model.run(s, dt, tend, **k)
    return {"steps": calls[0], "saved": len(saved), "most": most[0]}

@oracle
def few(spec, op, c, ctx):
    """A run holds the states it saves and a few more."""
    if c[0] == "E":
        return f"run failed: {c[1]}"
    d = {k: v[1] for k, v in c[1].items()}
    if d["steps"] < 16:
        return f"only {d['steps']} steps"
    if d["most"] > d["saved"] + 9:
        return f"{int(d['most'])} states alive during a run of {int(d['steps'])} steps that saves {int(d['saved'])}"

@post
def bounded(spec, res, ctx):
    out = []
    marks = [o for o in sorted(res["obs"], key=lambda o: (o[0], o[1])) if o[4][0] == "d" and "bytes" in o[4][1]]
    marks = [{k: v[1] for k, v in o[4][1].items()} for o in marks]
    info = spec["memory"]
    if len(marks) == 3:
        a, mid, b = marks
        n = info["rounds"]
        for k in ("State", "StateList"):
            if b[k] - a[k] > max(3, 0.5 * n):
                out.append((f"left:{k}", f"{int(b[k] - a[k])} more objects of class {k} after {n} rounds of the same requests, although nobody holds them"))
        if not out and info["bytes"] and b["bytes"] - a["bytes"] > info["bytes"]:
            late = b["bytes"] - mid["bytes"]
            if late > 0.3 * info["bytes"]:       # still growing
                out.append(("left:memory", f"{int(b['bytes'] - a['bytes'])} more bytes after {n} rounds of the same requests, although all results are gone"))
    f = res.get("final")
    if f and not out:
        for k, most in info["final"].items():
            if f[k] > most:
                out.append((f"left:{k}", f"{f[k]} objects of class {k} are alive although nobody holds any of them"))
                break
    return out
