"""C14: a figure shows only the state it was asked to draw."""
from ops import *
import figures_ops

PARAMS = dict(quick=130, thorough=6000)

def make(seed, tier):
    w = W("C14", seed, tier)
    gs = w.grids(w.pick([1, 1, 2]))
    states = [w.new_state(w.pick(gs)) for _ in range(w.pick([1, 2, 3]))]
    ops = []
    n = w.pick([1, 2, 2, 3])
    rapid = w.ch(0.3)               # one kind of figure, for states that are built, drawn and forgotten
    kind = w.pick(figures_ops.KINDS[:3]) if rapid else None
    for _ in range(w.rng.randrange(2, 5)):
        if rapid or w.ch(0.15):
            s = w.new_state(gs[0], buffer=False, kind=w.pick(["mixed", "eddy"]))
            name, e, kw = figures_ops.figure(w, s, kind)
            o = "temporary." + name, inline(w, e, keep=list(w.grid)), kw
        else:
            s = w.pick(states)
            o = figures_ops.figure(w, s)
        ops.append(w.op(o[0], o[1], **o[2]))
        if w.ch(0.2):                   # limits of colour scales
            q = fresh(w, w.pick(gs), lambda: ("symmetric_levels", F("bt.plot.symmetric_levels", w.field_e(gs[0], None, w.pick([1., 1e-5, 30.])), w.pick([5, 10])), {}))
            ops.append(w.op(q[0], q[1], **q[2]))
        if w.ch(0.3):
            q = read(w, s, dear=0.3)
            ops.append(w.op(q[0], q[1], **q[2]))
    for _ in range(w.rng.randrange(2, 7)):
        q = figures_ops.noise(w)
        pos = w.rng.randrange(len(ops) + 1)
        ops.insert(pos, w.op(q[0], q[1], retry=False, nofault=True, **q[2]))
    ops.append(w.op("pyplot.check", F("%checkfigs"), nofault=True))
    th = w.deal(ops, n)
    th[0].append(w.op("pyplot.check", F("%checkfigs"), nofault=True))
    return w.spec(th, fault_rate=w.pick([0., 0.4, 0.8]), fingerprint=w.pick([True, None]), opcode=False, cap=4_000_000, meta=w.meta())
