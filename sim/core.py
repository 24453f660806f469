"""One simulated run: execution in a forked child, judgement in the parent."""
import sys, gc, zlib, json, random, copy
import numpy as np
import engine, world
import oracles, oracles_model, oracles_io, optional, machine, memory
from engine import Sim, Abort, Injected
from world import Env, canon, compare, expect, forkcall, digest

SRC = "/repo/src"
RUN_TIMEOUT = 240.
CAP = 1_500_000

FIRED_TYPES = tuple(engine.EXC.values())


class Registry:
    """Fingerprints of every array and object the callers hold."""

    def __init__(self):
        self.items = {}
        self.bad = []

    @staticmethod
    def crc(a):
        return zlib.crc32(np.ascontiguousarray(a).view(np.uint8).reshape(-1).data) if a.size else 0

    def add(self, v, what, depth=0):
        bt = world.bt
        if isinstance(v, np.ndarray):
            if v.dtype.kind == "O" or id(v) in self.items:
                return
            self.items[id(v)] = (v, self.crc(v), what, "array")
        elif isinstance(v, (list, tuple)):
            if isinstance(v, list) and what == "input array" and id(v) not in self.items:
                self.items[id(v)] = (v, tuple(v), "input list", "options")
            for i, x in enumerate(v):
                self.add(x, what, depth + 1)
        elif isinstance(v, dict):
            if what == "input array" and id(v) not in self.items:
                self.items[id(v)] = (v, tuple((k, id(x)) for k, x in v.items()), "input mapping", "options")
            for x in v.values():
                self.add(x, what, depth + 1)
        elif isinstance(v, bt.State):
            if ("S", id(v)) in self.items:
                return
            self.items["S", id(v)] = (v, (v.time, id(v.grid)), what, "state")
            self.add(v.pv_spectral, what + " pv", depth + 1)
            self.add(v.grid, what + " grid", depth + 1)
        elif isinstance(v, bt.StateList):
            if ("L", id(v)) in self.items:
                return
            self.items["L", id(v)] = (v, tuple(id(s) for s in v), what, "list")
            for s in v:
                self.add(s, what, depth + 1)
        elif isinstance(v, bt.Grid):
            if ("G", id(v)) in self.items:
                return
            pub = {k: x for k, x in vars(v).items() if not k.startswith("_")}
            self.items["G", id(v)] = (v, {k: x for k, x in pub.items() if isinstance(x, (int, float))}, what, "grid")
            for k, x in pub.items():
                if isinstance(x, np.ndarray):
                    self.add(x, f"{what}.{k}", depth + 1)
        elif isinstance(v, bt.grid.GridRegion):
            if ("R", id(v)) in self.items:
                return
            self.items["R", id(v)] = (v, (Registry.crc(v.lat), Registry.crc(v.lon)), what, "region")
        elif isinstance(v, bt.BarotropicModel):
            if ("M", id(v)) in self.items:
                return
            self.items["M", id(v)] = (v, (id(v.rhs), v.diffusion_order, v.diffusion_coeff), what, "model")

    def check(self, when):
        for key, (v, fp, what, kind) in self.items.items():
            if kind == "array":
                ok = self.crc(v) == fp
            elif kind == "state":
                ok = (v.time is fp[0] or v.time == fp[0]) and id(v.grid) == fp[1]
            elif kind == "list":
                ok = tuple(id(s) for s in v) == fp
            elif kind == "grid":
                ok = all(getattr(v, k, None) == x for k, x in fp.items())
            elif kind == "options":
                ok = (tuple(v) if isinstance(v, list) else tuple((k, id(x)) for k, x in v.items())) == fp
            elif kind == "region":
                ok = (Registry.crc(v.lat), Registry.crc(v.lon)) == fp
            elif kind == "model":
                ok = (id(v.rhs), v.diffusion_order, v.diffusion_coeff) == fp
            if not ok:
                self.bad.append((what, kind, when))
                return False
        return True

    def drop(self, vals):
        ids = {id(v) for v in vals}
        for key in [k for k, (v, *_r) in self.items.items() if id(v) in ids]:
            del self.items[key]


def countable(c):
    """(Bytes in use are not exactly repeatable.)"""
    if c[0] == "d" and "bytes" in c[1]:
        return ("d", {k: v for k, v in c[1].items() if k != "bytes"})
    return c

def execute(spec, want_log=False):
    """Run one simulation (in a forked child).  Returns plain data."""
    gc.disable()
    if spec.get("setup"):
        import optional
        bad = optional.setup(spec["setup"]["blocked"])
        if bad:
            return dict(broken=bad, simtime=0., probes=None, obs=[], nev=0, switches=[], fired=[], stats={}, deadlock=False, capped=False,
                        bad=[], nfp=0, h=zlib.crc32(bad.encode()), ih=0, timeout=None, log=None, extra=None)
    mach = spec.get("machine") or {}
    machine.local(mach)
    rng = random.Random(f"sched:{spec['seed']}")
    sched = spec["sched"]
    sim = Sim(SRC + "/barotropic", rng, sched, opcode=bool(spec.get("opcode")),
              cap=spec.get("cap", CAP))
    if want_log:
        sim.log = []
    machine.clock(mach, sim)
    if mach.get("tz"):
        sim.count("zone:" + mach["tz"].split(",")[0])
        sim.count("clock-jumps", len(mach["jumps"]))
    env = Env(spec["defs"], sim)
    env.extra.update(spec.get("extra", {}))
    reg = Registry() if spec.get("fingerprint") else None
    if reg is not None:
        class Made:
            def append(self, v):
                reg.add(v, "input array")
        env.made = Made()
    if mach.get("settings"):
        machine.settings(mach)
        env.settings = {}
    if spec.get("memory"):
        memory.begin(spec["memory"]["trace"])
    before = machine.snapshot(mach, "end") if mach.get("settings") else None
    unset = []
    obs = []
    strict_switch = spec.get("fingerprint") == "switch"

    def verify(when):
        if reg is not None and not reg.bad:
            with sim.muted():
                reg.check(when)

    if strict_switch:
        orig = sim.switch_to
        def switch_to(tid, key=None):
            verify(f"during op {sim.me().opid}")
            return orig(tid, key)
        sim.switch_to = switch_to

    hook = spec.get("_hook")

    def runop(sim, t, op, tr):
        faults = op.get("faults", [])
        attempt = 0
        if before is not None and t.tid not in env.settings:
            with sim.muted():
                machine.thread_settings(mach)
                env.settings[t.tid] = machine.snapshot(mach)
        while True:
            t.opid, t.attempt, t.k, t.seam_k, t.fired = op["id"], attempt, 0, {}, None
            t.plan = faults[attempt] if attempt < len(faults) else None
            if sys.gettrace() is not tr:
                sys.settrace(tr)
            status, val = "ok", None
            try:
                sim.point("op", op.get("name", "op"))
                if "drop" in op:
                    gone = [env.vals.pop(n, None) for n in op["drop"]]
                    if reg is not None:
                        reg.drop(gone)
                    del gone
                    with sim.muted():
                        gc.collect()
                else:
                    val = env.ev(op["e"])
            except Abort:
                raise
            except BaseException as e:
                if sim.aborting:
                    raise Abort()
                status, val = "exc", e
                # locals of abandoned frames must not keep objects alive
                e.__traceback__ = None
                e.__context__ = None
            t.plan = None
            fired = t.fired
            with sim.muted():
                if "drop" not in op:
                    try:
                        c = canon(val)
                    except Exception as e:
                        c = ("E!", f"{type(e).__name__} while reading the result: {e}")
                    if spec.get("memory") and op.get("oracle") == ["none"] and op["name"] != "mark":
                        c = ("h", digest(c))        # (the record must not keep anything)
                    obs.append([op["id"], attempt, fired, status, c, t.k, dict(t.seam_k)])
                    if status == "ok":
                        if op.get("let"):
                            env.vals[op["let"]] = val
                        if reg is not None:
                            reg.add(val, f"result of {op.get('name')}")
                verify(f"after op {op['id']} ({op.get('name')})")
                if before is not None and not unset:
                    now = machine.snapshot(mach, True if len(spec["threads"]) == 1 else "thread")
                    b = machine.changed(env.settings[t.tid], now)
                    if b:
                        unset.append(f"{b} (by op {op['id']}, {op.get('name')}" + (f", although {fired} was raised inside it)" if fired else ")"))
            val = None
            if fired and op.get("retry", True) and attempt < 4:
                attempt += 1
                continue
            return

    tout = None
    try:
        sim.run(spec["threads"], runop, RUN_TIMEOUT)
    except TimeoutError as e:
        tout = str(e)
    if reg is not None and not reg.bad and tout is None:
        reg.check("at the end")
    if before is not None and tout is None and not unset:
        b = machine.changed(before, machine.snapshot(mach, "end"))
        if b:
            unset.append(b + " (by the end of the run)")
    final = None
    if spec.get("memory") and tout is None and not sim.deadlock and not sim.capped:
        final = memory.final(env)
    # digest of everything observable
    h = sim.h
    for o in sorted(obs, key=lambda o: (o[0], o[1])):
        h = zlib.crc32(f"{o[0]}|{o[1]}|{o[2]}|{o[3]}|{digest(o[4]) if not spec.get("memory") else digest(countable(o[4]))}".encode(), h)
    ops = {op["id"]: op for th in spec["threads"] for op in th}
    simtime = sum(float(ops[o[0]].get("sim") or 0.) for o in obs if o[3] == "ok")
    return dict(simtime=simtime, probes=env.extra.get("probes"), obs=obs, nev=sim.nev, switches=sim.switches, fired=sim.fired, stats=sim.stats,
                deadlock=sim.deadlock, capped=sim.capped, unset=unset, final=final, bad=reg.bad if reg else [],
                nfp=len(reg.items) if reg else 0,
                h=h, ih=sim.ih, timeout=tout, log=sim.log, extra=env.extra.get("out"))


def may_fail(spec, op, c):
    """Is this request one that the package may turn down?"""
    if spec["prop"] in ("C09", "C16", "C18"):       # have invalid requests, and oracles of their own for them
        return True
    if op.get("may") or op["name"].startswith("reject"):
        return True
    text = str(op.get("e")) + str(spec["defs"])
    if c[1] == "AssertionError" and op["name"].startswith("temporary") and ".add_" in text:      # states on equal but separate grids
        return True
    if c[1] == "ValueError" and ("fig." in op["name"] or "plot." in op["name"]) and ("zonal" in text or "bt.init." in text):
        return True                     # no eddies to contour
    return c[1] == "TypeError" and "TimedOffSwitch" in text and "'dt'" in text      # switch on another kind of clock


def judge(spec, res):
    """List of violations, each (class, message)."""
    out = []
    if res.get("broken"):
        return [("setup", res["broken"])]
    if res["timeout"]:
        raise RuntimeError("harness: " + res["timeout"])
    if res["deadlock"]:
        out.append(("deadlock", "all threads wait for each other"))
    if res["capped"]:
        out.append(("no-progress", f"operations did not finish within {spec.get('cap', CAP)} steps"))
    if res["bad"]:
        w = res["bad"][0]
        out.append((f"modified:{w[1]}", f"{w[0]} was modified ({w[2]})"))
    if res.get("unset"):
        u = res["unset"][0]
        out.append(("settings:" + u.split(" changed ")[0], u))
    if out:
        return out
    ops = {op["id"]: op for th in spec["threads"] for op in th}
    ctx = oracles.Ctx(spec, res)
    for opid, attempt, fired, status, c, k, seams in sorted(res["obs"], key=lambda o: (o[0], o[1])):
        op = ops[opid]
        if fired and status == "exc":
            continue                    # failed visibly, as it should
        for name in op.get("oracle", ["pristine"]):
            m = oracles.ORACLES[name](spec, op, c, ctx)
            if m:
                after = f" although {fired} was raised inside it" if fired else ""
                out.append((f"value:{op.get('name')}", f"op {opid} attempt {attempt} ({op.get('name')}){after}: {m}"))
                break
        else:
            if status == "exc" and not fired and not may_fail(spec, op, c):
                out.append((f"value:{op.get('name')}", f"op {opid} attempt {attempt} ({op.get('name')}): valid request failed with {c[1]}, also on its own"))
    for name in spec.get("post", []):
        out += oracles.POST[name](spec, res, ctx)
    return out


def run_once(spec, want_log=False):
    try:
        res = forkcall(lambda: execute(spec, want_log), timeout=RUN_TIMEOUT + 30)
    except world.ChildError as e:
        # CPython 3.12 can crash while bytecodes are traced: trace lines instead
        if not spec.get("opcode") or "died with status" not in str(e):
            raise
        spec["opcode"] = False
        res = forkcall(lambda: execute(spec, want_log), timeout=RUN_TIMEOUT + 30)
        res["stats"]["interpreter-crash"] = 1
    return res, judge(spec, res)
