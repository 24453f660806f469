"""C09: dataset import returns every record correctly paired, or fails."""
import json
from ops import *

PARAMS = dict(quick=900, thorough=9000)
STUBS = ["thread scheduler (simulator decides every switch)", "storage: arrays behind an xarray backend whose reads are yield and fault points"]

SIZES = [(7, 12), (8, 14), (9, 16), (10, 18), (11, 20), (12, 22), (13, 24), (14, 26), (16, 30), (26, 50)]
ALIAS = {"lon": ["longitude", "lon"], "lat": ["latitude", "lat"], "u": ["u", "ugrd", "eastward_wind"], "v": ["v", "vgrd", "northward_wind"],
         "vo": ["vo", "relv", "vorticity", "relative_vorticity"], "avo": ["avo", "absv", "absolute_vorticity", "pv"]}
CUSTOM = {"lon": "x", "lat": "y", "u": "uwind", "v": "vwind", "vo": "zeta", "avo": "q", "time": "valid"}

def coord(w, name, n):
    """Unique labels of one extra dimension."""
    r = w.rng.random()
    if name in ("time", "valid") or r < 0.15:
        q = w.rng.random()
        if q < 0.4:
            start = w.pick(["2000-01-01T00:00:00", "1969-12-31T18:00:00", "2020-02-29T12:30:15.250000", "2021-03-14T02:30:00", "2021-10-31T01:30:00", "1970-01-01T00:00:00"])
            import datetime as D
            t0 = D.datetime.fromisoformat(start)
            vals = [(t0 + D.timedelta(seconds=21600 * i + (w.rng.randrange(5) if w.ch(0.3) else 0))).isoformat() for i in range(n)]
            kind = "dt64"
        elif q < 0.48:
            t0 = w.pick([0., -3600., 90000., 0.5])
            vals, kind = [21600. * i + t0 for i in range(n)], "td64"
        elif q < 0.7:
            vals, kind = [3600. * i + w.pick([0.5, 0., 1.6e9 if n else 0.]) for i in range(n)], w.pick(["float", "float", "float32"])
        else:
            t0 = w.pick([-1200, 0, 0, 1600000500])
            vals, kind = [600 * i + t0 for i in range(n)], w.pick(["int", "int32"])
    elif r < 0.4:
        vals, kind = w.rng.sample(range(-5, 40), n), "int"
    elif r < 0.6:
        vals, kind = [round(0.1 * x, 3) for x in w.rng.sample(range(1, 99), n)], w.pick(["float", "float32"])
    elif r < 0.8:
        vals, kind = w.rng.sample(["b", "a", "ctl", "pf1", "pf2", "zz"], n), "str"
    else:
        vals, kind = [1000 - 150 * i for i in range(n)], "int"
    if w.ch(0.35):      # labels need not be sorted
        w.rng.shuffle(vals)
    return {"kind": kind, "values": vals}

def describe(w, odd=False):
    nlat, nlon = w.pick(SIZES[:8]) if w.ch(0.9) else w.pick(SIZES)
    d = dict(nlat=nlat, nlon=nlon, lazy=w.pick(["cached", "cached", "raw", "raw", "eager"]), slow=w.pick([1, 1, 2, 3]),
             dtype=w.pick(["float64", "float32"]), ctype=w.pick(["float64", "float64", "float32"]))
    tname = "time"
    custom = w.ch(0.2)
    if custom:
        tname = w.pick(["time", "valid"])
    extra = w.pick([[], [tname], [tname], [tname], ["number"], [tname, "number"], ["number", tname], ["level", tname], ["number", "level"],
                    [tname, "number", "level"], ["init", "step"]])
    d["dims"] = [[x, w.pick([1, 2, 2, 3, 3, 4]) if len(extra) < 3 else w.pick([1, 2, 2, 3])] for x in extra]
    d["coords"] = {}
    for name, n in d["dims"]:
        if name != tname and w.ch(0.15) and n > 0:
            continue            # dimension without labels
        d["coords"][name] = coord(w, name, n)
    if tname not in extra and extra and w.ch(0.5):
        # times attached to one or two other dimensions, or to the whole dataset
        on = w.pick([extra, extra[:1], []])
        sizes = [n for x, n in d["dims"] if x in on]
        total = 1
        for n in sizes:
            total *= n
        c = coord(w, "time", max(total, 1))
        v = c["values"]
        if w.ch(0.3):
            v = [v[i // 2] for i in range(len(v))]      # equal times for several records
        c["values"] = nest(v, sizes)
        c["on"] = list(on)
        d["coords"][tname] = c
    r = w.rng.random()
    sets = [["u", "v"], ["u", "v"], ["vo"], ["avo"], ["u", "v", "vo"], ["vo", "avo"], ["u", "v", "avo"], ["u", "v", "vo", "avo"], ["u", "avo"], ["v", "vo"]]
    vs = w.pick(sets)
    omega = EARTH_OM
    d["vars"] = {}
    for x in vs:
        d["vars"][x] = dict(seed=w.num(), scale={"u": 15., "v": 8., "vo": 2e-5, "avo": 1.5e-5}[x], kind=w.pick(["mixed", "rough", "eddy"]))
        if x == "avo":
            d["vars"][x]["planet"] = omega
    d["visible"] = list(vs)
    d["names"], names = {}, {}
    for x in ["lon", "lat"] + vs:
        if custom and w.ch(0.6):
            d["names"][x] = names[x] = CUSTOM[x]
        else:
            d["names"][x] = w.pick(ALIAS[x])
            if custom and w.ch(0.3):
                names[x] = d["names"][x]
    d["names"]["time"] = tname
    if tname != "time":
        if w.ch(0.7):
            names["time"] = tname
        else:
            d["time_visible"] = False
    order = list(d["vars"])
    if len(vs) == 1 and w.ch(0.25) and not names:
        d["array"] = vs[0]
    kw = {}
    if names:
        kw["names"] = {"d": names}
    if w.ch(0.3):
        kw["grid_kwargs"] = {"d": w.pick([{"omega": 3.6e-5}, {"rsphere": 3e6}, {"rsphere": 1e7, "omega": 0.}])}
    if w.ch(0.45):
        kw["time_fill"] = w.pick([7, -1.5, {"dt": "1999-09-09T00:00:00"}])
    must = "work"
    if w.ch(0.15):          # western part of the map first
        d["lonk"] = w.pick([-(d["nlon"] // 2)] * 3 + [1, -1, d["nlon"], 3 - d["nlon"], 5])
    if odd:
        must = w.pick(["fail", "fail", None])
        if must == "fail":
            q = w.rng.randrange(6)
            if q == 0:
                d["flip"] = True
            elif q == 1:
                d["transpose"] = True
            elif q == 2:
                d["lonk"] = w.pick([0.5, -d["nlon"] / 2 + 0.5, 0.25])
            elif q == 3:
                # not a regular grid
                d["nlat"] += 2
            elif q == 4:
                # the first meridian again at the end
                d["repeat"] = True
            else:
                # latitudes that increase, and records upside down
                d["flip"] = d["upside"] = True
        else:
            if len(d["dims"]) > 1 and "u" in vs and "v" in vs:
                d["mixdims"] = "v"
            else:
                must = "work"
    if w.ch(0.12) and d["dims"]:        # the same label for several records
        c = d["coords"].get(w.pick(d["dims"])[0])
        if c and len(c["values"]) > 1 and "on" not in c:
            k = w.rng.randrange(1, len(c["values"]))
            c["values"][k] = c["values"][w.rng.randrange(k)]
    return d, {k: w.shared(v) if k != "time_fill" else v for k, v in kw.items()}, must

def nest(v, sizes):
    if not sizes:
        return v[0]
    n = len(v) // sizes[0]
    return [nest(v[i * n:(i + 1) * n], sizes[1:]) for i in range(sizes[0])] if len(sizes) > 1 else list(v)

def make(seed, tier):
    w = W("C09", seed, tier)
    ops = []
    for _ in range(w.pick([1, 1, 2, 3])):
        d, kw, must = describe(w, odd=w.ch(0.12))
        text = json.dumps(d, sort_keys=True)
        name = w.d("x", F("%dataset", text))
        for _ in range(w.pick([1, 2, 3])):
            r = w.rng.random()
            if r < 0.7:
                ops.append(w.op("import", F("bt.io.from_dataset", R(name), **kw), oracle=["pristine", "imported"], desc=text, kw=kw, must=must))
            elif r < 0.8:
                ops.append(w.op("read", F("%readvar", R(name), w.rng.randrange(12))))
            elif r < 0.93:
                k2 = {k: v for k, v in kw.items() if k != "grid_kwargs"}
                ops.append(w.op("import", F("bt.io.from_dataset", R(name), **k2), oracle=["pristine", "imported"], desc=text, kw=k2, must=must))
            else:
                ops.append(w.op("import.read", {"i": [F("bt.io.from_dataset", R(name), **kw), 0]}))
    w.rng.shuffle(ops)
    th = w.deal(ops, w.pick([1, 2, 2, 3]), copies=0.3)
    return w.spec(th, fault_rate=w.pick([0., 0.5, 0.9]), fault_versions=1, fingerprint=w.pick([None, True]), meta=w.meta())
