"""Command line of the simulator.

  run.py check C01            decide one property (VERIF_SEED, VERIF_TIER)
  run.py replay FILE          repeat a minimised failure exactly
  run.py selftest [C01 ..]    determinism of the simulator itself
"""
import sys, os, json, time, importlib, traceback, hashlib, random, signal, select, pickle

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)

def reexec():
    """One process layout for all runs: no hash randomisation, no address
    randomisation, single-threaded numerics."""
    want = {"PYTHONHASHSEED": os.environ.get("SIM_HASHSEED", "0"), "OMP_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1",
            "MKL_NUM_THREADS": "1", "MPLBACKEND": "Agg", "PYTHONDONTWRITEBYTECODE": "1",
            "NUMBA_NUM_THREADS": "1", "MPLCONFIGDIR": os.environ.get("MPLCONFIGDIR", "/tmp/sim-mpl")}
    py = "/opt/venv/bin/python"
    if not os.path.exists(py):
        py = sys.executable
    if all(os.environ.get(k) == v for k, v in want.items()) and os.environ.get("SIM_EXEC"):
        return
    env = dict(os.environ, **want)
    env["SIM_EXEC"] = "1"
    env.pop("PYTHONPATH", None)
    try:
        import ctypes
        libc = ctypes.CDLL(None)
        cur = libc.personality(0xffffffff)
        libc.personality(cur | 0x0040000)      # ADDR_NO_RANDOMIZE
    except Exception:
        pass
    os.execve(py, [py] + [os.path.abspath(__file__)] + sys.argv[1:], env)


def seed_of(base, i):
    return int.from_bytes(hashlib.sha256(f"{base}/{i}".encode()).digest()[:6], "big")

def prop_module(pid):
    return importlib.import_module("props." + pid.lower())

def known_findings():
    try:
        with open(os.path.join(VERIF, "known_findings.json")) as f:
            return json.load(f)
    except FileNotFoundError:
        return []

def is_known(pid, v):
    for e in known_findings():
        if e.get("status") == "finding" and e["property"] == pid and e["class"] == v[0] and e.get("match", "") in v[1]:
            return e
    return None


def one(m, pid, seed, tier):
    """All simulated runs of one seed: (summaries, violation or None)."""
    import core, gen
    out = []
    spec = m.make(seed, tier)
    versions = [spec]
    i = 0
    while i < len(versions):
        s = versions[i]
        res, v = m.run_once(s) if hasattr(m, "run_once") else core.run_once(s)
        v = [x for x in v if not is_known(pid, x)]
        out.append((s, res))
        if v:
            return out, (s, v)
        if i == 0 and spec.get("fault_rate"):
            for salt in range(spec.get("fault_versions", 1)):
                s2 = gen.with_faults(spec, res, salt)
                if s2 is not None:
                    versions.append(s2)
        i += 1
    return out, None


def summarise(spec, res):
    faults = {}
    for k, n in res["stats"].items():
        faults[k] = faults.get(k, 0) + n
    return dict(nev=res["nev"], ops=sum(len(t) for t in spec["threads"]), obs=len(res["obs"]),
                stats=faults, ih=res["ih"], h=res["h"], nthreads=len(spec["threads"]),
                simtime=res.get("simtime") or 0.0, nfp=res.get("nfp", 0), fired=len(res["fired"]),
                probes=res.get("probes") or {})


def worker(w, nw, n, pid, tier, base, wfd, stop, order):
    m = prop_module(pid)
    for i in range(w, n, nw):
        if 0 <= stop.value < i:
            break
        seed = seed_of(base, i)
        try:
            runs, viol = one(m, pid, seed, tier)
            msg = ("runs", i, seed, [summarise(s, r) for s, r in runs], None)
            if viol:
                msg = ("runs", i, seed, msg[3], (viol[0], viol[1]))
        except Exception as e:
            msg = ("error", i, seed, f"{type(e).__name__}: {e}", traceback.format_exc())
        data = pickle.dumps(msg)
        os.write(wfd, len(data).to_bytes(4, "big"))
        mv = memoryview(data)
        while mv:
            k = os.write(wfd, mv)
            mv = mv[k:]
        if msg[0] == "runs" and msg[4]:
            with stop.get_lock():
                if stop.value < 0 or i < stop.value:
                    stop.value = i
            break
    os._exit(0)


def read_exact(fd, n):
    b = b""
    while len(b) < n:
        c = os.read(fd, n - len(b))
        if not c:
            return None
        b += c
    return b


def sweep(pid, tier, base, n, nw, deadline=None, collect=None):
    """Run seeds 0..n-1; returns (summaries by index, violations, errors)."""
    import multiprocessing
    stop = multiprocessing.Value("q", -1)
    fds, pids = {}, []
    for w in range(nw):
        r, wr = os.pipe()
        sys.stdout.flush(); sys.stderr.flush()
        p = os.fork()
        if p == 0:
            os.close(r)
            for f in fds:
                os.close(f)
            try:
                worker(w, nw, n, pid, tier, base, wr, stop, None)
            finally:
                os._exit(3)
        os.close(wr)
        fds[r] = w
        pids.append(p)
    summ, viol, errs = {}, [], []
    timed_out = False
    while fds:
        left = None if deadline is None else max(0., deadline - time.monotonic())
        ready, _, _ = select.select(list(fds), [], [], left)
        if not ready:
            timed_out = True
            with stop.get_lock():
                stop.value = 0
            for p in pids:
                try:
                    os.kill(p, signal.SIGKILL)
                except OSError:
                    pass
            break
        for fd in ready:
            head = read_exact(fd, 4)
            if head is None:
                os.close(fd)
                del fds[fd]
                continue
            msg = pickle.loads(read_exact(fd, int.from_bytes(head, "big")))
            if msg[0] == "error":
                errs.append((msg[1], msg[2], msg[3], msg[4]))
            else:
                summ[msg[1]] = (msg[2], msg[3])
                if msg[4]:
                    viol.append((msg[1], msg[2], msg[4][0], msg[4][1]))
    for p in pids:
        try:
            _, st = os.waitpid(p, 0)
            if st and not timed_out and not viol:
                errs.append((-1, -1, f"worker ended with status {st}", ""))
        except ChildProcessError:
            pass
    viol.sort(key=lambda v: v[0])
    return summ, viol, errs, timed_out


def check(pid):
    t0 = time.monotonic()
    tier = os.environ.get("VERIF_TIER", "quick")
    base = int(os.environ.get("VERIF_SEED", "1"))
    nw = int(os.environ.get("SIM_WORKERS", "0")) or min(8, os.cpu_count() or 1)
    print(f"{pid} tier={tier} seed={base} workers={nw}", flush=True)
    import world
    world.load()
    m = prop_module(pid)
    if hasattr(m, "prepare"):
        m.prepare()
    n = int(os.environ.get("SIM_RUNS", "0")) or m.PARAMS[tier]
    limit = 700. if tier == "quick" else 6 * 3600.
    for e in known_findings():
        if e["property"] == pid and e.get("status") == "finding":
            print(f"KNOWN-FINDING: property={pid} {e['what']}")
    summ, viol, errs, timed_out = sweep(pid, tier, f"{pid}/{base}", n, nw, t0 + limit)
    wall = time.monotonic() - t0
    if viol:
        i, seed, spec, v = viol[0]
        path = report(pid, seed, base, spec, v)
        evidence(pid, m, tier, base, summ, wall, 1, nw, n)
        print(f"VIOLATION property={pid} replay={path}")
        return 1
    if errs:
        for e in errs[:3]:
            print(f"ERROR run {e[0]} seed {e[1]}: {e[2]}\n{e[3]}", file=sys.stderr)
        return 2
    if timed_out:
        print(f"ERROR: {len(summ)} of {n} seeds finished within {limit} s", file=sys.stderr)
        return 2
    evidence(pid, m, tier, base, summ, wall, 0, nw, n)
    runs = sum(len(x[1]) for x in summ.values())
    print(f"{pid}: held in {runs} simulated runs of {len(summ)} seeds, {wall:.1f} s")
    return 0


def report(pid, seed, base, spec, v):
    import minimise
    m = prop_module(pid)
    want = v[0][0]
    print(f"seed {seed}: {v[0][0]}: {v[0][1]}", flush=True)
    got = minimise.minimise(spec, want, budget=90.)
    if got is None:
        got = (spec, None, v)
        note = "the violation did not repeat when the run was executed again on its own"
    else:
        note = None
    s, res, vv = got
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f"{pid}-{seed}.json")
    with open(path, "w") as f:
        json.dump(dict(property=pid, seed=seed, verif_seed=base, violation=[list(x) for x in vv],
                       digest=res["h"] if res else None, note=note,
                       schedule=s["sched"].get("at"), fired=res["fired"] if res else None, spec=s), f, indent=1, default=str)
    nops = sum(len(t) for t in s["threads"])
    nf = sum(len(op.get("faults", [])) for t in s["threads"] for op in t)
    print(f"minimised to {nops} operations in {sum(1 for t in s['threads'] if t)} threads, "
          f"{len(s['sched'].get('at', []))} scheduling decisions, {nf} faults")
    for x in vv[:3]:
        print(f"  {x[0]}: {x[1]}")
    return path


def replay(path):
    import world, core
    world.load()
    d = json.load(open(path))
    m = prop_module(d["property"])
    if hasattr(m, "prepare"):
        m.prepare()
    res, v = core.run_once(d["spec"], want_log=bool(os.environ.get("SIM_LOG")))
    if res.get("log"):
        for x in res["log"]:
            print(*x)
    want = d["violation"][0][0]
    hit = [x for x in v if x[0] == want]
    for x in v:
        print(f"{x[0]}: {x[1]}")
    if hit:
        print("digest", "identical" if res["h"] == d["digest"] else f"differs ({res['h']} vs {d['digest']})")
        print(f"VIOLATION property={d['property']} replay={path}")
        return 1
    print("the recorded violation did not occur")
    return 0


def evidence(pid, m, tier, base, summ, wall, nviol, nw, planned):
    tot = dict(runs=0, events=0, ops=0, obs=0, simtime=0.0, fingerprints=0, faulted=0)
    faults, inter, states, probes = {}, set(), set(), {}
    thr = {}
    samples = []
    for i in sorted(summ):
        seed, runs = summ[i]
        for r in runs:
            tot["runs"] += 1
            tot["events"] += r["nev"]
            tot["ops"] += r["ops"]
            tot["obs"] += r["obs"]
            tot["simtime"] += r["simtime"]
            tot["fingerprints"] += r["nfp"]
            tot["faulted"] += bool(r["fired"])
            thr[r["nthreads"]] = thr.get(r["nthreads"], 0) + 1
            for k, n in r["stats"].items():
                faults[k] = faults.get(k, 0) + n
            for k, n in r["probes"].items():
                probes[k] = probes.get(k, 0) + n
            if r["nthreads"] > 1:
                inter.add((r["ih"], r["h"]))
            if r["obs"]:
                states.add(r["h"])
        if len(samples) < 3:
            samples.append({"seed": seed, "runs": [dict(threads=r["nthreads"], operations=r["ops"], yield_points=r["nev"],
                            faults={k: v for k, v in r["stats"].items() if k.startswith("fault")},
                            preemptions=r["stats"].get("switch", 0), digest=r["h"]) for r in runs]})
    hours = max(wall, 1e-9) / 3600.
    switches = faults.pop("switch", 0)
    lockwaits = faults.pop("lock-wait", 0)
    ev = dict(property=pid, tier=tier, seed=base, level="exploration", wall_s=round(wall, 2), violations=nviol,
        coverage=dict(
            evaluations=tot["runs"], distinct_nontrivial=len(states),
            rule=getattr(m, "RULE", "") or "one evaluation = one simulated run of a generated multi-threaded workload with its schedule and fault plan; "
                 "distinct and non-trivial = at least one operation completed and the digest of its full event log and of all results is new",
            samples=samples,
            seeds=len(summ), seeds_planned=planned, runs_per_hour=round(tot["runs"] / hours), seeds_per_hour=round(len(summ) / hours),
            yield_points=tot["events"], operations=tot["ops"], operation_attempts_judged=tot["obs"],
            simulated_model_time_s=tot["simtime"] or None,
            simulated_time_note="the library has no clock of its own: simulated time is the model time covered by integrations, where the property uses them; schedules are measured in yield points",
            faults_injected=dict(sorted((k[6:], v) for k, v in faults.items() if k.startswith("fault:"))),
            runs_with_fired_faults=tot["faulted"], preemptions=switches, lock_waits=lockwaits,
            other_counts={k: v for k, v in sorted(faults.items()) if not k.startswith("fault:")},
            distinct_interleavings=len(inter), interleaving_measure="multi-threaded runs with distinct (schedule digest, event-log digest)",
            runs_by_thread_count={str(k): v for k, v in sorted(thr.items())},
            fingerprinted_objects=tot["fingerprints"], reach_probes=dict(sorted(probes.items())),
            real_components=getattr(m, "REAL", ["barotropic (all modules, unmodified, from /repo/src)", "numpy, scipy, spharm (transforms)", "CPython threads, parked and released one at a time"]),
            stub_components=getattr(m, "STUBS", ["thread scheduler (simulator decides every switch)", "user-supplied callbacks (harness code with fault points)"]),
        ),
        assumptions=getattr(m, "ASSUME", []) + [
            "switches happen at line (in part of the runs: bytecode) boundaries of the package and at calls into spharm, callbacks and storage; code of numpy, scipy and spharm runs atomically",
            "sampled schedules and faults: a clean batch is evidence, not proof"])
    d = os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    tmp = os.path.join(d, f".{pid}.tmp")
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(d, f"{pid}.json"))


def selftest(pids):
    """Every run twice, at two worker counts, and once more under another hash
    seed (a second interpreter): event-log digests must agree."""
    import world
    world.load()
    n = int(os.environ.get("SIM_RUNS", "60"))
    out = {}
    bad = 0
    for pid in pids:
        m = prop_module(pid)
        if hasattr(m, "prepare"):
            m.prepare()
        a, va, ea, _ = sweep(pid, "quick", f"self/{pid}", n, 8)
        b, vb, eb, _ = sweep(pid, "quick", f"self/{pid}", n, 3)
        da = {i: [r["h"] for r in a[i][1]] for i in a}
        db = {i: [r["h"] for r in b[i][1]] for i in b}
        diff = [i for i in da if da[i] != db.get(i)]
        bad += len(diff) + len(ea) + len(eb)
        out[pid] = {str(i): da[i] for i in sorted(da)}
        print(f"{pid}: {len(da)} seeds, {sum(len(x) for x in da.values())} runs, {len(diff)} diverged {diff[:5]}, errors {len(ea)}+{len(eb)}, violations {len(va)}+{len(vb)}", flush=True)
        for e in (ea + eb)[:2]:
            print(e[2], e[3])
    if os.environ.get("SIM_OUT"):
        json.dump(out, open(os.environ["SIM_OUT"], "w"))
    return 1 if bad else 0


def main():
    reexec()
    if os.environ.get("SIM_DEBUG"):
        import faulthandler
        faulthandler.enable(all_threads=False)
    cmd, args = sys.argv[1], sys.argv[2:]
    if cmd == "setup":
        import world
        world.load()
        print("simulator ready, package at", world.bt.__file__)
        code = 0
    elif cmd == "check":
        code = check(args[0])
    elif cmd == "replay":
        code = replay(args[0])
    elif cmd == "selftest":
        code = selftest(args)
    else:
        raise SystemExit(__doc__)
    sys.stdout.flush(); sys.stderr.flush()
    os._exit(code)

if __name__ == "__main__":
    main()
