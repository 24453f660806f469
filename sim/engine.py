"""Deterministic thread simulator.

Real Python threads, but only one -- the holder of the baton -- ever runs.  The
baton changes hands only at *yield points*:

- trace events (line, call, optionally every bytecode) in code of the package
  under test, observed through ``sys.settrace``,
- seam events: calls into spharm, lazy storage reads, user-supplied callbacks,
- operation boundaries,
- blocking on a (simulated) lock.

At each yield point a seeded PRNG, or an explicit schedule when replaying,
decides who continues; at the same points planned faults (asynchronous
exceptions) are raised.  Nothing here draws from the PRNG or reads a clock for
logging, so logging cannot perturb the schedule.
"""
import sys, threading, _thread, zlib, os, opcode

REAL_LOCK = _thread.allocate_lock
REAL_THREAD = threading.Thread


class Sem:
    """Counting semaphore on raw locks only (immune to any lock patching)."""

    def __init__(self):
        self.m = REAL_LOCK()
        self.w = REAL_LOCK()
        self.w.acquire()
        self.n = 0

    def release(self):
        with self.m:
            self.n += 1
            if self.w.locked():
                self.w.release()

    def acquire(self, timeout=-1):
        while True:
            with self.m:
                if self.n > 0:
                    self.n -= 1
                    return True
            if not self.w.acquire(True, timeout):
                return False

BEFORE_WITH = opcode.opmap.get("BEFORE_WITH", -1)
# Bytecodes before which an asynchronous exception may be raised.  Others are
# left alone, and functions with inlined comprehensions are traced by line only:
# CPython 3.12 itself crashes when an exception passes through the clean-up code
# of an inlined comprehension, or out of a generator, while its bytecodes are traced.
SAFE_OPS = {opcode.opmap[n] for n in ("STORE_ATTR", "LOAD_ATTR", "CALL", "STORE_SUBSCR", "BINARY_SUBSCR", "BINARY_OP",
            "LOAD_GLOBAL", "RETURN_VALUE", "COMPARE_OP") if n in opcode.opmap}
INLINED = opcode.opmap.get("LOAD_FAST_AND_CLEAR", -1)
_safe = {}

def safe_offsets(co):
    s = _safe.get(id(co))
    if s is None:
        b = co.co_code
        if co.co_flags & 0x2a0 or any(b[i] == INLINED for i in range(0, len(b), 2)):     # (or any generator)
            s = frozenset()
        else:
            s = frozenset(i for i in range(0, len(b), 2) if b[i] in SAFE_OPS and not (i >= 2 and b[i - 2] == BEFORE_WITH))
        _safe[id(co)] = s
    return s

CURRENT = None          # the Sim that is running, if any


class Injected(Exception):
    """Failure of simulated user code or storage."""


class SimIOError(OSError):
    """Simulated storage failure (EIO)."""


class Abort(BaseException):
    """Unwinds a simulated thread when the run is over (never seen by ops)."""


EXC = {
    "KeyboardInterrupt": KeyboardInterrupt,
    "MemoryError": MemoryError,
    "Injected": Injected,
    "OSError": SimIOError,
    "ImportError": ImportError,
    # what user code and libraries raise in practice
    "StopIteration": StopIteration,
    "ValueError": ValueError,
    "TypeError": TypeError,
    "KeyError": KeyError,
    "IndexError": IndexError,
    "AttributeError": AttributeError,
    "RuntimeError": RuntimeError,
    "ArithmeticError": FloatingPointError,
    "NotImplementedError": NotImplementedError,
    "AssertionError": AssertionError,
}


class SimThread:
    def __init__(self, tid, ops):
        self.tid = tid
        self.ops = ops
        self.sem = Sem()
        self.done = False
        self.blocked = None        # a SimLock this thread waits for
        self.opid = None
        self.attempt = 0
        self.k = 0                 # yield points passed within this op attempt
        self.seam_k = {}           # seam calls within this op attempt, by kind
        self.plan = None           # fault planned for this attempt
        self.fired = None
        self.mute = 0              # >0: harness code, no yield points


class Sim:
    def __init__(self, src_prefix, rng, sched, opcode=False, cap=3_000_000, deadlock_ok=False):
        self.src = src_prefix
        self.rng = rng
        self.sched = sched                  # {"mode": "random", "p": ..} | {"mode": "explicit", "at": {...}}
        self.explicit = sched["mode"] == "explicit"
        self.at = {tuple(x[:3]): x[3] for x in sched.get("at", [])} if self.explicit else {}
        self.p = sched.get("p", 0.0)
        self.opcode = bool(opcode)
        self.threads = []
        self.cur = None
        self.nev = 0
        self.cap = cap
        self.capped = False
        self.deadlock = False
        self.switches = []                  # [opid, attempt, k, target]
        self.h = 0                          # rolling digest of the event log
        self.ih = 0                         # rolling digest of the interleaving only
        self.stats = {}
        self.fired = []
        self.finished = Sem()
        self.aborting = False
        self.tls = threading.local()
        self.log = None                     # list when the full log is wanted
        self.on_op_end = None
        self.burst = sched.get("burst")     # None | n: preempt only in n-event bursts
        self.last_sites = {}

    # -- bookkeeping -------------------------------------------------------
    def count(self, key, n=1):
        self.stats[key] = self.stats.get(key, 0) + n

    def me(self):
        return getattr(self.tls, "t", None)

    # -- yield points ------------------------------------------------------
    def point(self, kind, site):
        t = self.me()
        if t is None or t.mute:
            return
        if self.aborting:
            raise Abort()
        k = t.k
        t.k = k + 1
        self.nev += 1
        self.h = zlib.crc32(f"{t.tid}|{t.opid}|{k}|{kind}|{site}".encode(), self.h)
        if self.log is not None:
            self.log.append((t.tid, t.opid, t.attempt, k, kind, site))
        if self.nev > self.cap:
            self.capped = True
            self.stop()
            raise Abort()
        plan = t.plan
        if plan is not None and plan.get("at") == k and kind != "nofault":
            t.plan = None
            self.fire(t, plan["exc"], kind, site)
        key = (t.opid, t.attempt, k)
        if self.explicit:
            tgt = self.at.get(key)
            if tgt is not None:
                self.switch_to(tgt, key)
        elif len(self.threads) > 1:
            p = self.p
            if self.burst is not None and (self.nev // self.burst) % 2:
                p = 0.0
            if kind == "op":
                p = max(p, 0.3)
            if p and self.rng.random() < p:
                cand = [x.tid for x in self.threads if x is not t and not x.done and x.blocked is None]
                if cand:
                    self.switch_to(cand[self.rng.randrange(len(cand))], key)

    def fire(self, t, excname, kind, site):
        t.fired = excname
        self.fired.append([t.opid, t.attempt, t.k - 1, excname, kind, site])
        self.count("fault:" + excname + ("@" + kind if kind in ("spharm", "callback", "storage", "import", "figure") else ""))
        if excname == "AttributeError" and site == "state.member":
            raise Injected("injected by the simulator at %s" % site)      # as documented, an attribute that is missing is no failure
        raise EXC[excname]("injected by the simulator at %s" % site)

    def seam(self, kind, site):
        """A call leaves the package through one of its seams."""
        t = self.me()
        if t is None or t.mute:
            return
        n = t.seam_k.get(kind, 0)
        t.seam_k[kind] = n + 1
        plan = t.plan
        if plan is not None and plan.get("seam") == kind and plan.get("n") == n:
            t.plan = None
            self.point(kind, site)
            self.fire(t, plan["exc"], kind, site)
        self.point(kind, site)

    # -- baton -------------------------------------------------------------
    def switch_to(self, tid, key=None):
        t = self.me()
        tgt = self.threads[tid] if 0 <= tid < len(self.threads) else None
        if tgt is None or tgt is t or tgt.done or tgt.blocked is not None:
            return
        if key is not None:
            self.switches.append([key[0], key[1], key[2], tid])
            self.ih = zlib.crc32(f"{key}>{tid}".encode(), self.ih)
        self.count("switch")
        self.cur = tgt
        # harness-side global: tracing stays per thread
        tgt.sem.release()
        t.sem.acquire()
        if self.aborting:
            raise Abort()

    def pick_next(self, t, key):
        cand = [x.tid for x in self.threads if x is not t and not x.done and x.blocked is None]
        if not cand:
            return None
        tid = cand[0]
        if self.explicit:
            e = self.at.get(key)
            if e in cand:
                tid = e
        elif len(cand) > 1:
            tid = cand[self.rng.randrange(len(cand))]
            if tid != cand[0]:
                self.switches.append([key[0], key[1], key[2], tid])
        self.ih = zlib.crc32(f"{key}>{tid}".encode(), self.ih)
        return tid

    def block(self, lock):
        """The running thread waits for a simulated lock."""
        t = self.me()
        t.blocked = lock
        tid = self.pick_next(t, (t.opid, t.attempt, f"b{t.k}"))
        if tid is None:
            self.deadlock = True
            self.stop()
            raise Abort()
        self.cur = self.threads[tid]
        self.cur.sem.release()
        t.sem.acquire()
        if self.aborting:
            raise Abort()

    def stop(self):
        self.aborting = True
        for x in self.threads:
            x.sem.release()

    # -- threads -----------------------------------------------------------
    def tracer(self):
        src = self.src
        point = self.point
        opcode = self.opcode

        def local(frame, event, arg):
            if event == "line":
                co = frame.f_code
                point(event, f"{co.co_name}:{frame.f_lineno}")
            elif event == "opcode":
                co = frame.f_code
                point("opcode" if frame.f_lasti in safe_offsets(co) else "nofault", f"{co.co_name}:{frame.f_lineno}")
            return local

        def glob(frame, event, arg):
            if event != "call":
                return None
            if not frame.f_code.co_filename.startswith(src):
                return None
            if opcode and safe_offsets(frame.f_code):
                frame.f_trace_opcodes = True
            return local
        return glob

    def body(self, t, runop):
        self.tls.t = t
        t.sem.acquire()
        try:
            if not self.aborting:
                tr = self.tracer()
                for op in t.ops:
                    runop(self, t, op, tr)
        except Abort:
            pass
        finally:
            sys.settrace(None)
            t.done = True
            if not self.aborting:
                tid = self.pick_next(t, ("end", t.tid, 0))
                if tid is not None:
                    self.cur = self.threads[tid]
                    self.cur.sem.release()
                elif any(not x.done for x in self.threads):
                    self.deadlock = True
                    self.stop()
            if all(x.done for x in self.threads) or self.aborting:
                self.finished.release()

    def run(self, oplists, runop, timeout):
        global CURRENT
        self.threads = [SimThread(i, ops) for i, ops in enumerate(oplists)]
        real = []
        for t in self.threads:
            th = REAL_THREAD(target=self.body, args=(t, runop), daemon=True)
            real.append(th)
            th.start()
        CURRENT = self
        first = 0
        if self.explicit:
            first = self.at.get(("start", 0, 0), 0)
        elif len(self.threads) > 1:
            first = self.rng.randrange(len(self.threads))
            if first:
                self.switches.append(["start", 0, 0, first])
        if first >= len(self.threads):
            first = 0
        self.cur = self.threads[first]
        self.cur.sem.release()
        if not self.finished.acquire(timeout):
            raise TimeoutError("simulation exceeded its wall-clock allowance")
        for th in real:
            th.join(timeout=10)
        CURRENT = None

    class Muted:
        def __init__(self, sim):
            self.t = sim.me()
        def __enter__(self):
            if self.t is not None:
                self.t.mute += 1
        def __exit__(self, *a):
            if self.t is not None:
                self.t.mute -= 1

    def muted(self):
        return Sim.Muted(self)


# --------------------------------------------------------------------------
# Locks used by the package under test become cooperative: a thread that has to
# wait hands the baton on instead of blocking the whole simulation.

class SimLock:
    def __init__(self):
        self.owner = None
        self.n = 0
        self.real = REAL_LOCK()
    reentrant = False

    def _who(self):
        sim = CURRENT
        t = sim.me() if sim is not None else None
        return sim, (t if t is not None else _thread.get_ident())

    def acquire(self, blocking=True, timeout=-1):
        sim, who = self._who()
        while True:
            if self.owner is None or (self.reentrant and self.owner is who):
                self.owner = who
                self.n += 1
                return True
            if not blocking or timeout == 0:
                return False
            if sim is None or not isinstance(who, SimThread):
                raise RuntimeError("simulated lock contended outside the simulation")
            if timeout is not None and timeout > 0:
                return False            # a bounded wait may always time out
            sim.count("lock-wait")
            sim.block(self)

    def release(self):
        if self.owner is None:
            raise RuntimeError("release unlocked lock")
        self.n -= 1
        if self.n == 0:
            self.owner = None
            sim = CURRENT
            if sim is not None:
                for t in sim.threads:
                    if t.blocked is self:
                        t.blocked = None

    def locked(self):
        return self.owner is not None

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()


class SimRLock(SimLock):
    reentrant = True

    def _is_owned(self):
        return self.owner is self._who()[1]


def _factory(cls, real):
    def make():
        # only code of the package under test gets cooperative locks
        if sys._getframe(1).f_globals.get("__name__", "").split(".")[0] == "barotropic":
            return cls()
        return real()
    return make


def patch_locks():
    threading.Lock = _factory(SimLock, threading.Lock)
    threading.RLock = _factory(SimRLock, threading.RLock)
    _thread.allocate_lock = _factory(SimLock, _thread.allocate_lock)
