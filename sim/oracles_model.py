"""Oracles for integrations: reference steps, schedules, clocks, invariants."""
import math, datetime as dt
import numpy as np
import ref, world
from oracles import oracle, post, compare, expect, close
from world import HARNESS, harness, canon

# -- harness: histories of an integration -------------------------------------------

@harness
def eulerstep(env, model, state, dt_):
    return [state, env.note(model.euler(state, dt_))]

@harness
def leapstep(env, model, old, now, filt=None):
    out = model.leapfrog(old, now) if filt is None else model.leapfrog(old, now, filt)
    return [old, now, out[0], out[1]]

@harness
def runall(env, model, state, dt_, tend, save=0, via=None):
    if via == "state":
        a, b = state.run(model, dt_, tend, save_every=save)
    elif save:
        a, b = model.run(state, dt_, tend, save_every=save)
    else:
        a, b = model.run(state, dt_, tend)
    return [state, a, b]

@harness
def chain(env, model, state, legs):
    """Runs that continue from the final state of the run before."""
    out = []
    for dt_, tend, save in legs:
        a, b = model.run(state, dt_, tend, save_every=save) if save else model.run(state, dt_, tend)
        env.notes(a, b)
        out.append([a, b])
        state = a
    return out

@harness
def stepwise(env, model, state, dt_, n):
    """The first n+1 (filtered) states of an integration."""
    out = [state]
    a, b = env.notes(state, model.euler(state, dt_))
    for _ in range(n):
        a, b = env.notes(*model.leapfrog(a, b))
        out.append(a)
    return out

# -- reference steps -----------------------------------------------------------------

def rstate(c, g, t):
    return ref.RState(g, t, c[2][3])

def time_of(c):
    """Python time of a canonical time."""
    if c[0] == "t":
        return dt.datetime.fromisoformat(c[1])
    if c[0] == "n":
        return c[1]
    if c[0] == "T":
        return float(c[1])
    return None

def spec_close(c, exp, scale, what):
    """Elementwise comparison of spectral coefficients."""
    if c[0] != "State":
        return f"{what}: not a state: {c[0]}"
    a, b = c[2][3], np.asarray(exp.spec)
    if a.shape != b.shape:
        return f"{what}: {a.shape} coefficients instead of {b.shape}"
    if not np.isfinite(b).all():
        return None
    d = np.abs(a - b)
    if not (d <= scale).all():
        i = int(np.argmax(np.where(np.isfinite(d), d, np.inf)))
        return f"{what}: coefficient {i} is {a[i]:.7g} instead of {b[i]:.7g} (error {d[i]:.2g}, allowed {scale:.2g}) [simulated vs reference scheme]"

def same_time(c, t, what):
    tc = time_of(c[1])
    if isinstance(t, dt.datetime) != isinstance(tc, dt.datetime):
        return f"{what}: time {tc!r} instead of {t!r}"
    if tc != t:
        return f"{what}: time {tc!r} instead of {t!r}"

STEP_TOL = 3e-5         # of the largest increment
BASE_TOL = 3e-6         # of the largest coefficient

def finite(*cs):
    return all(np.isfinite(c[2][3]).all() and np.max(np.abs(c[2][3])) < 1e10 for c in cs)

@oracle
def ref_euler(spec, op, c, ctx):
    if c[0] != "list":
        return None
    old, new = c[1]
    if not finite(old):
        return None
    m = ref.RModel(ctx.defs, op["ref"]["model"])
    g = ref.grid_of(ctx.defs, {"r": op["ref"]["grid"]})
    d = ref.value(ctx.defs, op["ref"]["dt"])
    s = rstate(old, g, time_of(old[1]))
    exp = m.euler(s, d)
    inc = np.max(np.abs(ref.seconds(d) * m.tendency(s)))
    amp = m.amplification(g, ref.seconds(d))
    if amp > 30.:
        return None             # backward in time, at the singularity of the diffusion operator
    return same_time(new, s.time + d, "Euler step") or \
        spec_close(new, exp, amp * (STEP_TOL * inc + BASE_TOL * max(np.max(np.abs(s.spec)), m.bgsize(g))), "Euler step")

@oracle
def ref_leap(spec, op, c, ctx):
    if c[0] != "list":
        return None
    old, now, filt, new = c[1]
    if not finite(old, now):
        return None
    m = ref.RModel(ctx.defs, op["ref"]["model"])
    g = ref.grid_of(ctx.defs, {"r": op["ref"]["grid"]})
    a, b = rstate(old, g, time_of(old[1])), rstate(now, g, time_of(now[1]))
    r = op["ref"].get("filt")
    d = b.time - a.time
    ef, en = m.leapfrog(a, b) if r is None else m.leapfrog(a, b, r)
    inc = np.max(np.abs(2 * ref.seconds(d) * m.tendency(b)))
    amp = m.amplification(g, 2 * ref.seconds(d))
    if amp > 30.:
        return None
    tol = amp * (STEP_TOL * inc + BASE_TOL * max(np.max(np.abs(a.spec)), np.max(np.abs(b.spec)), m.bgsize(g)))
    return same_time(new, b.time + d, "leapfrog step") or same_time(filt, b.time, "filtered state") or \
        spec_close(new, en, tol, "leapfrog step") or spec_close(filt, ef, tol, "filtered state")

@oracle
def ref_run(spec, op, c, ctx):
    """Whole runs against the reference scheme (looser: errors accumulate)."""
    if c[0] != "list":
        return None
    init, fin, saved = c[1]
    r = op["ref"]
    m = ref.RModel(ctx.defs, r["model"])
    g = ref.grid_of(ctx.defs, {"r": r["grid"]})
    s = rstate(init, g, time_of(init[1]))
    d, tend = ref.value(ctx.defs, r["dt"]), ref.value(ctx.defs, r["tend"])
    efin, esaved = m.run(s, d, tend, r.get("save", 0))
    msg = same_time(fin, efin.time, "final state")
    if msg:
        return msg
    if saved[0] != "StateList" or len(saved[1]) != len(esaved):
        return f"{len(saved[1])} states saved instead of {len(esaved)}"
    for i, (x, y) in enumerate(zip(saved[1] + [fin], esaved + [efin])):
        msg = same_time(x, y.time, f"saved state {i}") or \
            spec_close(x, y, 1e-3 * np.max(np.abs(y.spec - s.spec)) + 2e-5 * max(np.max(np.abs(y.spec)), m.bgsize(g)), f"saved state {i}")
        if msg:
            return msg

# -- schedules -------------------------------------------------------------------------

def planned(t0, d, tend, save):
    """(number of steps, indices of saved steps); all arguments exact."""
    if tend < t0:
        return 0, [0]
    n = 0
    while t0 + n * d < tend:
        n += 1
    keep = [0]
    if save:
        k = 1
        for i in range(1, n + 1):
            if i * d >= k * save:
                keep.append(i)
                while i * d >= k * save:
                    k += 1
    return n, keep

@oracle
def schedule(spec, op, c, ctx):
    """Times and membership of the results of a chain of runs."""
    if c[0] != "list":
        return f"run failed: {world.short(c)}"
    t0 = ref.value(ctx.defs, op["start"])
    cur = {"r": op["state"]}
    for (fin, saved), (d_, tend_, save) in zip([x[1] for x in c[1]], op["legs"]):
        d, tend = ref.value(ctx.defs, d_), ref.value(ctx.defs, tend_)
        n, keep = planned(t0, d, tend, save)
        if fin[0] != "State" or saved[0] != "StateList":
            return f"run returned ({fin[0]}, {saved[0]})"
        msg = same_time(fin, t0 + n * d, "final state")
        if msg:
            return msg + f" (start {t0}, step {d}, end {tend})"
        times = [time_of(s[1]) for s in saved[1]]
        want = [t0 + i * d for i in keep]
        if times != want:
            return f"saved at {times} instead of {want} (start {t0}, step {d}, save every {save})"
        traj = expect(ctx.defs, world_expr_stepwise(op["model"], cur, d_, n))
        if traj[0] == "list":
            for s, i in zip(saved[1] + [fin], keep + [n]):
                msg = compare(s, traj[1][i], 1e-5)
                if msg:
                    return f"state kept for step {i} is not the state of step {i}: {msg}"
        # the next leg starts from the final state
        cur = {"i": [world_expr_stepwise(op["model"], cur, d_, n), n]}
        t0 = t0 + n * d

def world_expr_stepwise(model, state, d, n):
    return {"f": "%stepwise", "a": [{"r": model}, state, d, n]}

# -- clocks ----------------------------------------------------------------------------

def strip_times(c):
    if isinstance(c, tuple) and c and c[0] == "State":
        return ("State", None, c[2], c[3])
    if isinstance(c, (tuple, list)):
        return type(c)(strip_times(x) for x in c)
    return c

def times_in(c, out=None):
    out = [] if out is None else out
    if isinstance(c, tuple) and c and c[0] == "State":
        out.append(time_of(c[1]))
    elif isinstance(c, (tuple, list)):
        for x in c:
            times_in(x, out)
    return out

@oracle
def shifted(spec, op, c, ctx):
    """Same fields as the same experiment on another clock; times shifted."""
    base = expect(ctx.defs, op["base"])
    if base[0] == "E":
        return None
    if c[0] == "E":
        return f"failed ({c[1]}) where the same experiment on another clock works"
    m = compare(strip_times(c), strip_times(base), 1e-5)
    if m:
        return m + " [this clock vs reference clock]"
    for x, y in zip(times_in(c), times_in(base)):
        z = ref.value(ctx.defs, op["origin"])
        e = z + dt.timedelta(seconds=y) if isinstance(z, dt.datetime) else z + y
        if x != e:
            return f"state at {x!r} instead of {e!r}"

# -- crash and resume --------------------------------------------------------------------

import copy, pickle

def keep(form, states):
    bt = world.bt
    if form == "kept":
        return list(states)
    if form == "copy":
        return [copy.copy(s) for s in states]
    if form == "deepcopy":
        return copy.deepcopy(list(states))
    if form == "pickle":
        return pickle.dumps(list(states))
    if form == "pickle-each":
        return [pickle.dumps(s, protocol=2 + i) for i, s in enumerate(states)]
    if form == "rebuild":
        return [(s.time, np.array(s.pv_spectral), grid_args(s.grid)) for s in states]
    if form == "rebuild-pv":
        return [(s.time, np.array(s.pv), s.grid) for s in states]
    if form == "list":
        return bt.StateList(states)
    if form == "list-copy":
        return copy.copy(bt.StateList(states))
    if form == "list-deepcopy":
        return copy.deepcopy(bt.StateList(states))
    if form == "list-pickle":
        return pickle.dumps(bt.StateList(states))
    if form == "list-reversed":
        return pickle.dumps(bt.StateList(list(states)[::-1]))
    raise ValueError(form)

def grid_args(g):
    return dict(resolution=180. / (g.nlat - 1), rsphere=g.rsphere, omega=g.omega)

def restore(form, data):
    bt = world.bt
    if form in ("pickle", "list-pickle"):
        return list(pickle.loads(data))
    if form == "pickle-each":
        return [pickle.loads(x) for x in data]
    if form == "list-reversed":
        return list(pickle.loads(data))[::-1]
    if form == "rebuild":
        return [bt.State(bt.Grid(**g), t, pv_spectral=np.array(x)) for t, x, g in data]
    if form == "rebuild-pv":
        return [bt.State(g, t, pv=np.array(x)) for t, x, g in data]
    return list(data)

FORMS = ["kept", "copy", "deepcopy", "pickle", "pickle-each", "rebuild", "list", "list-copy", "list-deepcopy", "list-pickle", "list-reversed"]

@harness
def restarted(env, model, state, dt_, ends, form, look=None):
    """Runs that follow one another, each started from the last state of the one before."""
    out = []
    for end in ends:
        last, saved = model.run(state, dt_, end)
        if look:
            getattr(last, look)
        out += [last, saved]
        if form is None:
            state = world.bt.State(last.grid, last.time, pv_spectral=np.array(last.pv_spectral))
        else:
            state, = restore(form, keep(form, [last]))
    return out

@harness
def resumable(env, model, state, dt_, n, form, every, look=None, crash=None):
    """n leapfrog steps with a checkpoint of the last two states every few
    steps; after a crash the caller goes on from the last checkpoint.  A planned
    crash drops everything but the checkpoint even without a fault."""
    sim = env.sim
    key = ("ck", sim.me().opid) if sim is not None and sim.me() is not None else None
    ck = env.extra.get(key)
    if ck is None:
        k, old, now = 0, state, model.euler(state, dt_)
    else:
        k = ck[0]
        old, now = restore(form, ck[1])
        env.extra.setdefault("probes", {}).setdefault("resumed:" + form, 0)
        env.extra["probes"]["resumed:" + form] += 1
    while k < n:
        if look:
            getattr(now, look)
        old, now = model.leapfrog(old, now)
        k += 1
        if key and k % every == 0:
            env.extra[key] = (k, keep(form, (old, now)))
            if crash == k:
                old = now = None
                old, now = restore(form, env.extra[key][1])
                env.extra.setdefault("probes", {}).setdefault("resumed:" + form, 0)
                env.extra["probes"]["resumed:" + form] += 1
    return [old, now]

@harness
def checkpoint(env, model, state, dt_, k, what="two", container=None):
    """The checkpoint a caller writes to disk after k steps."""
    old, now = state, model.euler(state, dt_)
    for _ in range(k):
        old, now = model.leapfrog(old, now)
    s = [old, now] if what == "two" else [now]
    return pickle.dumps(world.bt.StateList(s) if container == "list" else s)

@harness
def go_on(env, data, model, dt_, n):
    """Continuation, in another process, from a checkpoint."""
    s = list(pickle.loads(bytes.fromhex(data)))
    if len(s) == 1:
        s.append(model.euler(s[0], dt_))
    old, now = s
    for _ in range(n):
        old, now = model.leapfrog(old, now)
    return [old, now]

@harness
def uninterrupted(env, model, state, dt_, k, what, n):
    old, now = state, model.euler(state, dt_)
    for _ in range(k):
        old, now = model.leapfrog(old, now)
    if what != "two":
        old, now = now, model.euler(now, dt_)
    for _ in range(n):
        old, now = model.leapfrog(old, now)
    return [old, now]

@oracle
def elsewhere(spec, op, c, ctx):
    """A new process that reads the checkpoint ends up where an uninterrupted
    integration does."""
    if c[0] != "s" or not isinstance(c[1], bytes):
        return f"no checkpoint: {world.short(c)}"
    r = op["resume"]
    exp = expect(ctx.defs, {"f": "%uninterrupted", "a": [r["model"], r["state"], r["dt"], r["k"], r["what"], r["n"]]})
    e = {"f": "%go_on", "a": [c[1].hex(), r["model"], r["dt"], r["n"]]}
    if r.get("interpreter"):
        got = other_interpreter(ctx.defs, e)
    else:
        got = expect(ctx.defs, e, cache=False)
    m = compare(got, exp, 1e-5)
    return m and m + " [continued in a new process vs uninterrupted]"

def other_interpreter(defs, e):
    """Evaluate in a newly started interpreter (nothing survives but the text)."""
    import subprocess, sys, os
    here = os.path.dirname(os.path.abspath(__file__))
    p = subprocess.run([sys.executable, os.path.join(here, "evalone.py")], input=pickle.dumps((defs, e)),
                       stdout=subprocess.PIPE, env=dict(os.environ, PYTHONHASHSEED="7"), timeout=120)
    if p.returncode:
        raise RuntimeError("harness: evaluation in a new interpreter failed")
    return pickle.loads(p.stdout)

@oracle
def same(spec, op, c, ctx):
    """The result equals that of another expression on fresh objects."""
    exp = expect(ctx.defs, op["same"])
    m = compare(c, exp, op.get("rtol", 1e-5))
    return m and m + " [vs " + op.get("versus", "reference expression") + "]"

@oracle
def elsewhere_same(spec, op, c, ctx):
    """A newly started interpreter with another hash seed gets the same result."""
    m = compare(c, other_interpreter(ctx.defs, op["e"]), 1e-6)
    return m and m + " [simulated vs another interpreter]"

# -- invariants ------------------------------------------------------------------------

def states_in(c, out=None):
    out = [] if out is None else out
    if isinstance(c, tuple) and c and c[0] == "State":
        out.append(c)
    elif isinstance(c, (tuple, list)):
        for x in c:
            states_in(x, out)
    return out

def courant(g, q, dt):
    """How many radians per step the finest resolved wave is carried along.

    Beyond one the scheme amplifies the rounding of the transforms by a factor
    in every step; there is no flow left whose symmetry could be judged."""
    u, v = ref.RState(g, 0., q).uv
    c = np.maximum(np.abs(np.cos(np.deg2rad(g.lat))), 1e-9)[1:-1, None]
    w = np.abs(u)[1:-1] / c + np.abs(v)[1:-1]
    return float(np.max(w)) / g.rsphere * max(int(g.m.max()), 1) * dt

@oracle
def invariant(spec, op, c, ctx):
    if c[0] == "E":
        return f"integration failed: {c[1]}"
    i = op["inv"]
    g = ref.grid_of(ctx.defs, {"r": i["grid"]})
    init = expect(ctx.defs, {"r": i["state"]})[2][3]
    top = float(np.max(np.abs(init)))
    bg = g.spec(ref.value(ctx.defs, i["bg"])) if i.get("bg") else 0.
    top = max(top, float(np.max(np.abs(bg))))
    unstable = courant(g, init, i["dt"]) > 0.5
    for k, s in enumerate(states_in(c)):
        q = s[2][3]
        if not np.isfinite(q).all():
            return None if i.get("rough") else f"state {k} is not finite"
        t = time_of(s[1]) - time_of(expect(ctx.defs, {"r": i["state"]})[1])
        t = ref.seconds(t)
        if "mean" in i["what"]:
            if abs(q[0] - init[0]) > 2e-6 * top + 1e-5 * float(np.max(np.abs(q))) * (abs(t) / 3600. * 0.02 + 0.02):
                return f"mean absolute vorticity of state {k} drifted from {init[0]:.6g} to {q[0]:.6g}"
        if "zonal" in i["what"] and not unstable:
            e = float(np.max(np.abs(q[g.m > 0])))
            if e > 1e-5 * top:
                return f"state {k} of a zonally symmetric flow has eddies ({e:.3g}, flow {top:.3g})"
        if "steady" in i["what"] and not unstable:
            e = float(np.max(np.abs(q - init)))
            if e > 1e-5 * top * (1 + abs(t) / 600. * 0.1):
                return f"state {k} of an unforced, inviscid zonal flow changed by {e:.3g} (flow {top:.3g})"
        if "still" in i["what"]:
            e = float(np.max(np.abs(q - g.fs)))
            if e > 1e-5 * max(float(np.max(np.abs(g.fs))), 1e-12):
                return f"state {k} of a motionless atmosphere moves ({e:.3g})"
        if "diffuse" in i["what"] and k > 0 and not unstable:
            e, f = np.abs(q - bg), np.abs(init - bg)
            if (e > f * (1 + 1e-5) + 2e-6 * top).any():
                return f"diffusion increased a coefficient of the anomaly in state {k}"
        if "rossby" in i["what"]:
            n, m = i["nm"]
            j = int(np.flatnonzero((g.n == n) & (g.m == m))[0])
            om = 2 * g.omega * m / (n * (n + 1.))
            # westward drift: the coefficient turns with exp(+i om t)
            z = q[j] / init[j]
            ph = float(np.angle(z * np.exp(-1j * om * t)))
            tol = 0.02 + (om * i["dt"]) ** 2 * abs(om * t) + i["dt"] * abs(om) * 0.1
            if abs(ph) > tol:
                return f"Rossby-Haurwitz wave ({n}, {m}) is {ph:.3f} rad off its analytic phase after {t:.0f} s"
            if i.get("inviscid") and abs(abs(z) - 1) > 0.02 + (om * i["dt"]) ** 2 * 2:
                return f"Rossby-Haurwitz wave ({n}, {m}) changed its amplitude by a factor {abs(z):.4f}"
            rest = np.array(np.abs(q - g.fs))
            rest[j] = 0
            if float(rest.max()) > 3e-3 * abs(init[j]) + 1e-5 * top:
                return f"Rossby-Haurwitz wave ({n}, {m}) excited other modes ({float(rest.max()):.3g})"

@oracle
def symmetric(spec, op, c, ctx):
    """A rotated or mirrored experiment gives the rotated or mirrored states."""
    base = expect(ctx.defs, op["base"])
    if base[0] == "E" or c[0] == "E":
        return None if base[0] == c[0] else f"{c[0]} vs {base[0]}"
    g = ref.grid_of(ctx.defs, {"r": op["inv"]["grid"]})
    a, b = states_in(c), states_in(base)
    if len(a) != len(b):
        return f"{len(a)} states instead of {len(b)}"
    for k, (x, y) in enumerate(zip(a, b)):
        q = y[2][3]
        if not np.isfinite(q).all() or np.max(np.abs(q)) > 1e3:
            return None
        if courant(g, q, op["inv"]["dt"]) > 0.5:
            return None
        how, n = op["sym"]
        if how == "roll":
            # eastward rotation by n grid points
            e = q * np.exp(-1j * g.m * 2 * np.pi * n / g.nlon)
        else:
            # hemispheres exchanged, vorticity changes sign
            e = -q * np.where((g.n - g.m) % 2 == 0, 1., -1.)
        d = np.abs(x[2][3] - e)
        scale = 3e-5 * max(float(np.max(np.abs(q))), 1e-12) * (1 + 0.5 * k)
        if float(d.max()) > scale:
            j = int(np.argmax(d))
            return f"state {k} is not the {'rotated' if how == 'roll' else 'mirrored'} state: coefficient (n={g.n[j]}, m={g.m[j]}) {x[2][3][j]:.6g} instead of {e[j]:.6g}"
