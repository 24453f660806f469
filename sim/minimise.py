"""Shrink a failing run while the same class of violation persists."""
import copy, time
import core

def cls(v):
    return v[0]

def explicit(spec, res):
    s = copy.deepcopy(spec)
    s["sched"] = {"mode": "explicit", "at": [list(x) for x in res["switches"]]}
    return s

def prune(spec):
    """Remove definitions nobody refers to."""
    from world import names_in
    need = set()
    todo = set()
    for th in spec["threads"]:
        for op in th:
            names_in([v for k, v in op.items() if k not in ("faults",)], todo)
    names_in({k: v for k, v in spec.items() if k not in ("defs", "threads")}, todo)
    while todo:
        n = todo.pop()
        if n in need or n not in spec["defs"]:
            continue
        need.add(n)
        names_in(spec["defs"][n], todo)
    keep = spec.get("meta", {}).get("state_grid", {})
    for s, g in keep.items():
        if s in need:
            need.add(g)
    spec["defs"] = {n: e for n, e in spec["defs"].items() if n in need}
    return spec

def ddmin(items, test, deadline):
    """Smallest sublist (1-minimal up to the deadline) that still passes test."""
    items = list(items)
    n = 2
    while len(items) >= 1 and time.monotonic() < deadline:
        size = max(1, len(items) // n)
        chunks = [items[i:i + size] for i in range(0, len(items), size)]
        for i in range(len(chunks)):
            if time.monotonic() > deadline:
                return items
            rest = [x for j, c in enumerate(chunks) if j != i for x in c]
            if test(rest):
                items = rest
                n = max(2, n - 1)
                break
        else:
            if size == 1:
                break
            n = min(len(items), n * 2)
    return items

def minimise(spec, want, budget=60.):
    """Returns (spec, result, violations) of a minimal run with a violation of
    class *want*, with an explicit schedule; or None if it does not reproduce."""
    deadline = time.monotonic() + budget

    best = [None]

    def attempt(s):
        try:
            res, v = core.run_once(s)
        except Exception:
            return None
        hit = [x for x in v if cls(x) == want]
        return (res, hit) if hit else None

    def ok(s):
        r = attempt(s)
        if r is None:
            return False
        best[0] = (s, r[0], r[1])
        return True

    if not ok(spec):
        return None
    s = explicit(spec, best[0][1])
    if not ok(s):
        # schedule text does not capture it: keep the seeded form
        ok(spec)
        return best[0]

    def with_ops(keep):
        t = copy.deepcopy(s)
        t["threads"] = [[op for op in th if op["id"] in keep] for th in t["threads"]]
        return t

    # operations
    ids = [op["id"] for th in s["threads"] for op in th if not op.get("keep")]
    fixed = {op["id"] for th in s["threads"] for op in th if op.get("keep")}
    got = ddmin(ids, lambda sub: ok(with_ops(set(sub) | fixed)), deadline)
    s = with_ops(set(got) | fixed)
    # faults
    flt = [(op["id"], i) for th in s["threads"] for op in th for i in range(len(op.get("faults", [])))]
    def with_faults(keep, base):
        t = copy.deepcopy(base)
        for th in t["threads"]:
            for op in th:
                if "faults" in op:
                    op["faults"] = [p for i, p in enumerate(op["faults"]) if (op["id"], i) in keep]
                    if not op["faults"]:
                        del op["faults"]
        return t
    if flt:
        base = s
        got = ddmin(flt, lambda sub: ok(with_faults(set(sub), base)), deadline)
        s = with_faults(set(got), base)
    # schedule
    base = s
    def with_at(at):
        t = copy.deepcopy(base)
        t["sched"]["at"] = [list(x) for x in at]
        return t
    live = {op["id"] for th in s["threads"] for op in th} | {"start", "end"}
    at = [x for x in s["sched"]["at"] if x[0] in live]
    if ok(with_at(at)):
        got = ddmin(at, lambda sub: ok(with_at(sub)), deadline)
        s = with_at(got)
    # once more, operations (fewer switches may free some)
    ids = [op["id"] for th in s["threads"] for op in th if not op.get("keep")]
    got = ddmin(ids, lambda sub: ok(with_ops(set(sub) | fixed)), deadline)
    s = with_ops(set(got) | fixed)
    if s.get("opcode"):
        t = copy.deepcopy(s)
        t["opcode"] = False
        if ok(t):
            s = t
    s = prune(copy.deepcopy(s))
    if not ok(s):
        s = best[0][0]
        ok(s)
    return best[0]
