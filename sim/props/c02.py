"""C02: a failed or interrupted operation leaves no trace."""
from ops import *
import figures_ops

PARAMS = dict(quick=950, thorough=13000)

def make(seed, tier):
    w = W("C02", seed, tier)
    gs = w.grids(w.pick([1, 1, 2]))
    states, lists, models = [], [], {}
    for g in gs:
        t = w.time()
        mine = [w.new_state(g, time=t if w.ch(0.6) else None) for _ in range(w.pick([1, 2, 3]))]
        states += mine
        models[g] = w.model(g, t)
        if w.ch(0.6):
            L = w.d("L", F("bt.StateList", [R(s) for s in mine]))
            lists.append((L, mine))
    focus = w.pick(["all", "all", "read", "step", "list", "grid", "rhs", "io"])
    ops = []
    for _ in range(w.rng.randrange(2, 8)):
        s = w.pick(states)
        g = w.state_grid[s]
        kind = focus if focus != "all" and w.ch(0.7) else w.pick(["read", "read", "step", "step", "list", "grid", "rhs", "io", "fig"])
        if kind == "list" and not lists:
            kind = "read"
        if kind == "read":
            o = read(w, s, dear=0.25)
        elif kind == "step":
            o = stepper(w, g, s, models[g])
        elif kind == "list":
            o = listop(w, *w.pick(lists))
            if o[0] == "list.map" and w.ch(0.5):
                pass
        elif kind == "grid":
            o = gridop(w, g) if w.ch(0.7) else diagop(w, g)
        elif kind == "rhs":
            o = ("rhs", F("%callrhs", w.rhs(g, w.state_time[s]), R(s)), {})
        elif kind == "fig":
            if w.ch(0.85):
                o = read(w, s, dear=0.5)
            else:
                o = figures_ops.figure(w, s)
        else:
            o = ioop(w, states, lists)
        ops.append(w.op(o[0], o[1], **o[2]))
        # the same request again, and a neighbour that shares its objects
        if w.ch(0.5):
            ops.append(w.op(o[0], o[1], **o[2]))
    n = w.pick([1, 1, 1, 2, 3])
    th = w.deal(ops, n, copies=0.15)
    return w.spec(th, fault_rate=w.pick([0.5, 0.9]), fingerprint=True, fault_versions=2, meta=w.meta())

def members(w, states):
    """Exports of states of a user's own class, labelled with its attribute."""
    s = w.pick(states)
    g = w.state_grid[s]
    i = w.grid[g]
    ms = [R(w.d("s", F("%member", R(g), w.state_time[s], R(w.d("a", F("%pvfield", i["nlat"], i["nlon"], i["omega"], w.num()))), k)))
          for k in w.rng.sample(range(10, 99), w.pick([1, 2, 3]))]
    k = {} if w.ch(0.15) else {"concat_dim": "member"}
    return "export.member", F("bt.io.as_dataset", ms if w.ch(0.5) else F("bt.StateList", ms), w.pick(["u", ["vo"], {"d": {"number": "member"}}]), **k), {}

def ioop(w, states, lists):
    if w.ch(0.12):
        return members(w, states)
    if lists and w.ch(0.8):
        L, mine = w.pick(lists)
        fields = w.pick([["u", "v"], "pv", {"d": {"q": "pv", "ub": R(w.d("c", F("%getter", "mean_u")))}}, {"d": {"k": R(w.d("c", F("%getter", "ke")))}}])
        fields = w.shared(fields)
        e = F("bt.io.as_dataset", R(L), fields)
        if w.ch(0.25):      # the same options again
            e = F("%listed", e, F("bt.io.as_dataset", R(L), fields))
        if w.ch(0.4):
            return "import", F("bt.io.from_dataset", F("bt.io.as_dataset", R(L), ["u", "v"]),
                                    **w.pick([{}, {"grid_kwargs": w.shared({"d": {"omega": 3.6e-5}})}, {"names": w.shared({"d": {"lon": "longitude"}})}])), {}
        return "export", e, {}
    s = w.pick(states)
    return "export1", F("bt.io.as_dataset", R(s), w.pick(["vo", "avo", ["u", "v"]])), {}
