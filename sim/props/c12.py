"""C12: forcing terms depend only on the state, however often used."""
from ops import *

PARAMS = dict(quick=900, thorough=17000)

def make(seed, tier):
    w = W("C12", seed, tier)
    many = w.ch(0.2)
    gs = w.grids(w.pick([2, 3, 4]) if not many else 4)
    if many:        # more grids than any small cache holds, then the first again
        for _ in range(w.pick([6, 9])):
            gs.append(w.new_grid(res=w.pick(RES[:4])[0], **w.planet()))
    t0 = w.time()
    # terms that work on every grid
    terms = []
    for _ in range(w.rng.randrange(1, 4)):
        terms.append(universal(w, t0))
    combos = list(terms)
    for _ in range(w.rng.randrange(0, 3)):
        a, b = R(w.pick(combos)), R(w.pick(terms))
        r = w.rng.random()
        if r < 0.5:
            combos.append(w.d("f", F("%add", a, b)))
            if w.ch(0.2):
                p = F("%plain_rhs", w.pick(["damp", "const", "own", "frozen"]), 1e-6, w.num())
                combos.append(w.d("f", F("%add", *([a, p] if w.ch(0.5) else [p, a]))))
        elif r < 0.8:
            sw = R(w.d("f", F("bt.rhs.TimedOffSwitch", w.after(t0, w.pick([-900, 0, 450, 1200])))))
            combos.append(w.d("f", F("%mul", *( [a, sw] if w.ch(0.5) else [sw, a]))))
        else:
            combos.append(w.d("f", F("%mul", a, R(w.d("k", F("%user_rhs", "factor", 0.5))))))
    states = []
    for g in gs:
        for _ in range(w.pick([1, 1, 2])):
            t = t0 if w.ch(0.5) else w.after(t0, w.pick([-900, -450, 0, 450, 900, 1200, 1800]))
            states.append(w.new_state(g, time=t))
    # terms tied to the shape of the first grid
    shape = lambda s: SHAPE[w.grid[w.state_grid[s]]["res"]]
    fit = [s for s in states if shape(s) == SHAPE[w.grid[gs[0]]["res"]]]
    tied = [w.d("f", w.rhs_term(gs[0], t0, orog=False)) for _ in range(w.pick([0, 1, 1]))]
    ops = []
    for _ in range(w.rng.randrange(5, 16) + (8 if many else 0)):
        if tied and fit and w.ch(0.25):
            f, s = w.pick(tied), w.pick(fit)
        else:
            f, s = w.pick(combos), w.pick(states)
        r = w.rng.random()
        if r < 0.85:
            ops.append(w.op("rhs", F("%callrhs", R(f), R(s)), oracle=["pristine", "ref_rhs"], ref={"rhs": f, "state": s}))
            if w.ch(0.1):       # on a grid and a state that exist for this evaluation only
                ops.append(w.op("rhs.temporary", F("%callrhs", R(f), inline(w, R(s))), oracle=["pristine", "ref_rhs"], ref={"rhs": f, "state": s}))
            if w.ch(0.1):       # combined in place; the parts stay what they were
                h = w.pick(combos)
                how = w.pick(["add", "mul"])
                j = w.pick([0, 0, 1])
                ops.append(w.op("rhs.inplace", F("%callrhs", {"i": [F("%inplace", R(f), how, R(h)), j]}, R(s)), oracle=["pristine", "same"],
                                same=F("%callrhs", F("%" + how, R(f), R(h)) if j == 0 else R(f), R(s)), rtol=1e-6, versus="the same combination"))
        elif r < 0.93:
            base = [x for x in terms if w.defs[x]["f"].startswith("bt.rhs.") and "Orog" in w.defs[x]["f"] or "Mountain" in w.defs[x]["f"]]
            if base:
                ops.append(w.op("orography", F(".orography", R(w.pick(base)), R(w.state_grid[s]))))
            else:
                ops.append(w.op("repr", F("%repr", R(f))))
        elif r < 0.97:
            ops.append(w.op("repr", F("%repr", R(f))))
        else:
            o = read(w, s)
            ops.append(w.op(o[0], o[1], **o[2]))
    n = w.pick([1, 2, 2, 3, 4])
    th = w.deal(ops, n, copies=0.25)
    if w.ch(0.25):
        churn(w, th, combos)
    return w.spec(th, fault_rate=w.pick([0., 0.3, 0.6]), fingerprint=w.pick([None, None, True]), meta=w.meta())

def universal(w, t0):
    """A forcing term that is defined on every grid."""
    r = w.rng.random()
    old = [w.defs[n] for n in w.defs if n[0] == "f" and "Mountain" in w.defs[n].get("f", "")]
    if old and r < 0.45:
        return w.d("f", w.near_term(w.pick(old)))
    if r < 0.75:
        g = next(iter(w.grid))
        while True:
            e = w.rhs_term(g, t0, orog=True)
            if (e["f"].startswith("bt.rhs.") or e["f"] == "%user_orography") and e["f"] != "bt.rhs.LinearRelaxation":
                return w.d("f", e)
    return w.d("f", F("%user_rhs", w.pick(["damp", "stir", "windy", "const", "own", "frozen"]), 1e-6, w.num()))

def churn(w, th, combos):
    """Grids that come and go: objects die and their addresses are reused."""
    t = w.pick(th)
    for _ in range(w.pick([3, 6])):
        g = w.new_grid(res=w.pick(RES[:3])[0], **w.planet())
        s = w.new_state(g, ctor="init")
        f = w.pick(combos)
        pos = w.rng.randrange(len(t) + 1)
        new = [w.op("rhs", F("%callrhs", R(f), R(s)), oracle=["pristine", "ref_rhs"], ref={"rhs": f, "state": s}),
               w.drop(closure(w, g))]
        t[pos:pos] = new

def closure(w, name):
    """name and everything built from it."""
    from world import names_in
    out = {name}
    grown = True
    while grown:
        grown = False
        for n, e in w.defs.items():
            if n not in out and names_in(e) & out:
                out.add(n)
                grown = True
    return sorted(out)
