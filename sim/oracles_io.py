"""Import and export: simulated storage, datasets and their oracles."""
import datetime as dt, io, itertools, json
import numpy as np
import engine, world, ref
from oracles import oracle, compare, expect, close, arr
from world import harness, canon, seam, waves

# -- datasets on simulated storage ----------------------------------------------------

def record(desc, var, idx):
    """Field of one record (independent of how it is stored)."""
    v = desc["vars"][var]
    seed = v["seed"]
    for k, i in enumerate(idx):
        seed = seed * 31 + 7 * i + k + 1
    f = v["scale"] * waves(desc["nlat"], desc["nlon"], seed, v.get("kind", "mixed"))
    if v.get("planet"):
        lo, la = world.coords(desc["nlat"], desc["nlon"])
        f = f + 2 * v["planet"] * np.sin(la)
    return f.astype(desc.get("dtype", "float64"))

def values(c):
    """Coordinate values of a description."""
    v = c["values"]
    if c["kind"] == "dt64":
        return np.array(v, dtype="datetime64[ns]")
    if c["kind"] == "td64":
        return (1000000 * np.array(v)).astype("timedelta64[us]").astype("timedelta64[ns]")
    if c["kind"] == "str":
        return np.array(v)
    return np.array(v, dtype={"int": "int64", "float": "float64", "float32": "float32", "int32": "int32"}[c["kind"]])

def full(desc, var):
    shape = [n for _, n in desc["dims"]]
    out = np.empty(shape + [desc["nlat"], desc["nlon"]], dtype=desc.get("dtype", "float64"))
    for idx in itertools.product(*[range(n) for n in shape]):
        out[idx] = record(desc, var, idx)
    return out

def storage_array(data, name, slow):
    from xarray.backends import BackendArray
    from xarray.core import indexing

    class Stored(BackendArray):
        """Array on simulated storage: every read is a yield and fault point."""
        shape, dtype = data.shape, data.dtype
        def __getitem__(self, key):
            return indexing.explicit_indexing_adapter(key, self.shape, indexing.IndexingSupport.OUTER, self.raw)
        def raw(self, key):
            for _ in range(slow):
                seam("storage", "read " + name)
            out = np.array(data[key])
            seam("storage-ret", "read " + name)
            return out
    return Stored()

@harness
def dataset(env, text):
    import xarray as xr
    from xarray.core import indexing
    desc = json.loads(text)
    names = desc["names"]
    dims = [d for d, _ in desc["dims"]]
    data = {}
    for var in desc["vars"]:
        a = full(desc, var)
        order = dims + [names["lat"], names["lon"]]
        if desc.get("upside"):
            a = a[..., ::-1, :]
        if desc.get("repeat"):
            a = np.concatenate([a, a[..., :1]], axis=-1)
        if desc.get("transpose"):
            a, order = np.swapaxes(a, -1, -2), dims + [names["lon"], names["lat"]]
        if desc.get("mixdims") == var and len(dims) > 1:
            a, order = np.swapaxes(a, 0, 1), [dims[1], dims[0]] + order[2:]
        if desc["lazy"] == "eager":
            data[names.get(var, var)] = (order, env.note(a) if env.sim is not None else a)
        else:
            x = indexing.LazilyIndexedArray(storage_array(a, var, desc.get("slow", 1)))
            x = indexing.CopyOnWriteArray(x)
            if desc["lazy"] == "cached":
                x = indexing.MemoryCachedArray(x)
            data[names.get(var, var)] = xr.Variable(order, x)
    lat = np.linspace(90., -90., desc["nlat"])
    lon = (np.arange(desc["nlon"]) + desc.get("lonk", 0)) * (360. / desc["nlon"])
    if desc.get("flip"):
        lat = lat[::-1]
    if desc.get("repeat"):
        lon = np.append(lon, lon[0] + 360.)
    ct = desc.get("ctype", "float64")
    coords = {names["lat"]: lat.astype(ct), names["lon"]: lon.astype(ct)}
    for d, c in desc["coords"].items():
        on = c.get("on", [d])
        coords[d] = (on, values(c)) if on else values(c)
    ds = xr.Dataset(data, coords)
    if desc.get("array"):
        return ds[names.get(desc["array"], desc["array"])]
    return ds

@harness
def readvar(env, ds, what):
    """Another reader of the same data."""
    names = sorted(str(v) for v in ds.data_vars) if hasattr(ds, "data_vars") else [None]
    v = ds if names[0] is None else ds[names[what % len(names)]]
    if what % 3 == 0:
        return np.array(v.values)
    if what % 3 == 1:
        d = v.dims[0]
        return np.array(v.isel({d: 0}).values)
    return np.array((v * 2).values)

CTOR = [("wind", ("u", "v")), ("vorticity", ("vo",)), ("pv", ("avo",))]

def expected_states(desc, kw):
    """Records in order as (time, ctor, fields), by the documentation."""
    use = None
    for ctor, vs in CTOR:
        if all(v in desc["visible"] for v in vs):
            use = ctor, vs
            break
    if use is None:
        return None
    dims = [d for d, _ in desc["dims"]]
    sizes = [n for _, n in desc["dims"]]
    tname = desc["names"].get("time", "time")
    out = []
    for idx in itertools.product(*[range(n) for n in sizes]):
        t = kw.get("time_fill", 0)
        if tname in desc["coords"] and desc.get("time_visible", True):
            c = desc["coords"][tname]
            v = values(c)
            for d in c.get("on", [tname]):
                v = v[idx[dims.index(d)]]
            t = v
            if c["kind"] == "dt64":
                t = np.datetime64(v, "us").item()
            elif c["kind"] == "td64":
                t = float(v / np.timedelta64(1, "s"))
            else:
                t = v.item()
        # (fields stand at their longitudes)
        out.append((t, use[0], [np.roll(record(desc, v, idx), int(desc.get("lonk", 0)), axis=1) for v in use[1]]))
    return out

@oracle
def imported(spec, op, c, ctx):
    desc = json.loads(op["desc"])
    kw = {k: ref.value(ctx.defs, v) for k, v in op.get("kw", {}).items()}
    if c[0] == "E":
        if op.get("must") == "work":
            return f"import failed: {c[1]}"
        return None
    if op.get("must") == "fail":
        return "import of an invalid dataset succeeded"
    exp = expected_states(desc, kw)
    if exp is None:
        return "import without any usable variables succeeded"
    if c[0] != "StateList":
        return f"import returned {c[0]}"
    if len(c[1]) != len(exp):
        return f"{len(c[1])} states for {len(exp)} records"
    gk = kw.get("grid_kwargs") or {}
    g = ref.rgrid(resolution=180. / (desc["nlat"] - 1), **gk)
    for i, (s, (t, ctor, fields)) in enumerate(zip(c[1], exp)):
        if s[3] != (g.shape, g.rsphere, g.omega):
            return f"grid {s[3]} instead of {(g.shape, g.rsphere, g.omega)}"
        if s[1] != world.canon_time(t):
            return f"record {i} has time {s[1]} instead of {world.canon_time(t)}"
        e = ref.state_from(g, t, ctor, [np.asarray(f, dtype=float) for f in fields])
        m = close(s[2][3], e.spec, 1e-4, 1e-12, f"record {i}")
        if m:
            near = [j for j, x in enumerate(exp) if close(s[2][3], ref.state_from(g, 0, x[1], x[2]).spec, 1e-4, 1e-12, "") is None]
            return m + (f" (it holds record {near[0]})" if near else "") + " [imported vs stored record]"

# -- export --------------------------------------------------------------------------

@harness
def stored(env, ds):
    """Through a (simulated) file: the bytes of a netCDF file and back."""
    import xarray as xr
    if any(v.dtype.kind in "iu" and v.size and not -2**31 <= int(v.min()) <= int(v.max()) < 2**31 for v in ds.variables.values()):
        return ds                       # (the classic file format has no 64 bit integers)
    seam("storage", "write")
    try:
        b = bytes(ds.to_netcdf())
    except ValueError:                  # (nor can it hold times to the microsecond)
        return ds
    seam("storage", "read")
    import warnings
    with warnings.catch_warnings():     # (xarray adds a filter of its own)
        out = xr.open_dataset(io.BytesIO(b))
    return out

@harness
def touched(env, states, fields):
    """An export that was preceded by reads of the same fields."""
    for f in fields:
        for s in states:
            getattr(s, f)
    return list(states)

@oracle
def exported(spec, op, c, ctx):
    if c[0] == "E":
        return f"export failed: {c[1]}"
    if c[0] != "Dataset":
        return f"export returned {c[0]}"
    x = op["export"]
    states = x["states"]
    _, data, coords, attrs, cattrs = c
    g = ref.grid_of(ctx.defs, {"r": x["grid"]})
    if not states:
        return None if not data else "export of nothing is not empty"
    dim = x.get("dim", "time")
    if set(data) != set(x["fields"]):
        return f"variables {sorted(data)} instead of {sorted(x['fields'])}"
    for name, vals in (("latitude", g.lat), ("longitude", g.lon)):
        if name not in coords or coords[name][0] != (name,):
            return f"no coordinate {name}"
        m = close(arr(coords[name][1]), vals, 1e-9, 1., name)
        if m:
            return "coordinate " + m
        if cattrs[name].get("units") != {"latitude": "degrees_north", "longitude": "degrees_east"}[name]:
            return f"units of {name}"
    times = [expect(ctx.defs, {"@": [{"r": s}, "time"]}) for s in states]
    m = check_times(coords.get("time"), times, "time")
    if m:
        return m
    # Numbers are seconds, and say so; dates have their own encoding (another
    # unit of theirs would keep the dataset from being written)
    numeric = times[0][0] != "t"
    if cattrs["time"].get("units") != ("s" if numeric else None):
        return f"units of time: {cattrs['time'].get('units')!r}"
    if dim != "time":
        if dim not in coords or coords[dim][0] != (dim,):
            return f"no coordinate {dim}"
        want = [float(i) for i in range(len(states))] if x.get("dimvalues") is None else \
            [float(expect(ctx.defs, {"@": [{"r": s}, x["dimvalues"]]})[1]) for s in states]
        m = close(arr(coords[dim][1]), np.array(want), 1e-6, 1e-12, dim)
        if m:
            return "coordinate " + m
    for name, getter in x["fields"].items():
        parts = [expect(ctx.defs, subst(getter, s)) for s in states]
        dims, val = data[name]
        rows = [arr(p) for p in parts]
        want = (dim,) + {2: ("latitude", "longitude"), 1: ("latitude",) if rows[0].ndim == 1 and rows[0].size == g.nlat else ("longitude",), 0: ()}[rows[0].ndim]
        if tuple(dims) != want:
            return f"variable {name} has dimensions {dims} instead of {want}"
        a = arr(val)
        if a is None or a.shape != (len(states),) + rows[0].shape:
            return f"variable {name} has shape {None if a is None else a.shape}"
        for i, r in enumerate(rows):
            if not np.array_equal(a[i], r, equal_nan=True):
                m = close(a[i], r, 1e-6, 1e-30, f"record {i} of {name}")
                if m:
                    near = [j for j, q in enumerate(rows) if np.allclose(a[i], q, rtol=1e-6, atol=0, equal_nan=True)]
                    return m + (f" (it holds state {near[0]})" if near else "")

def subst(getter, s):
    """Expression for a field of state s."""
    if isinstance(getter, str):
        return {"@": [{"r": s}, getter]}
    return {"f": "%callrhs", "a": [getter, {"r": s}]}

def check_times(coord, times, what):
    if coord is None or coord[0] != (what,):
        return f"no coordinate {what}"
    v = coord[1]
    if times[0][0] == "t":
        if v[0] != "a" or v[1] != "M":
            return f"coordinate {what} does not hold dates"
        got = [np.datetime64(z, "us").item() for z in v[3]]
        want = [dt.datetime.fromisoformat(t[1]) for t in times]
        return None if got == want else f"coordinate {what} is {got} instead of {want}"
    return close(arr(v), np.array([t[1] for t in times]), 0., 1., "coordinate " + what)

@oracle
def restored(spec, op, c, ctx):
    """Export and import bring back the states."""
    x = op["export"]
    if c[0] != "StateList":
        return f"import of an export failed: {world.short(c)}"
    exp = [expect(ctx.defs, {"r": s}) for s in x["states"]]
    if len(c[1]) != len(exp):
        return f"{len(c[1])} states restored of {len(exp)}"
    g = ref.grid_of(ctx.defs, {"r": x["grid"]})
    for i, (a, b) in enumerate(zip(c[1], exp)):
        if a[1] != b[1]:
            return f"state {i} restored with time {a[1]} instead of {b[1]}"
        if a[3] != b[3]:
            return f"state {i} restored on grid {a[3]} instead of {b[3]}"
        p, q = a[2][3].copy(), b[2][3].copy()
        if x["via"] == "wind":
            # winds do not know the mean vorticity, and their transforms not the smallest scale
            lost = [0] + [i for i, n in enumerate(g.n) if n == max(g.n)]
            p[lost] = q[lost] = 0.
        scale = max(float(np.max(np.abs(q - g.fs))), 1e-7) if x["via"] != "avo" else max(float(np.max(np.abs(q))), 1e-7)
        if p.shape != q.shape:
            return f"state {i}: {p.shape} coefficients instead of {q.shape}"
        d = np.abs(p - q)
        if float(np.max(d)) > 2e-3 * scale + 3e-6 * float(np.max(np.abs(q))):
            near = [j for j, z in enumerate(exp) if float(np.max(np.abs(p - z[2][3])[1:])) < 2e-3 * scale + 3e-6 * float(np.max(np.abs(q)))]
            return f"state {i} restored with an error of {float(np.max(d)):.3g} (vorticity {scale:.3g})" + (f"; it is state {near[0]}" if near else "")

@harness
def exact(env, states, fields, kw):
    """An export next to the fields of the states themselves."""
    ds = world.bt.io.as_dataset(states, fields, **kw)
    if isinstance(fields, str):
        fields = [fields]
    if not isinstance(fields, dict):
        fields = {f: f for f in fields}
    out = []
    for name, getter in fields.items():
        rows = [getter(s) if callable(getter) else getattr(s, getter) for s in states]
        a, b = np.asarray(ds[name].values), np.asarray(rows)
        out.append([name, a.dtype.name, b.dtype.name, a, b])
    times = [s.time for s in states]
    return [out, np.asarray(ds["time"].values), times]

@oracle
def exactly(spec, op, c, ctx):
    """What was exported is what the states return, to the last digit."""
    if c[0] != "list":
        return f"export failed: {world.short(c)}"
    for name, ta, tb, a, b in (x[1] for x in c[1][0][1]):
        if ta[1] != tb[1]:
            return f"{name[1]} was exported as {ta[1]} instead of {tb[1]}"
        a, b = a[3], b[3]
        if a.shape != b.shape:
            return f"{name[1]} was exported with shape {a.shape} instead of {b.shape}"
        if a.dtype.kind in "fc":
            eps = 8 * np.finfo(a.dtype).eps * np.max(np.abs(np.where(np.isfinite(b), b, 0.)), initial=0.)
            same = (np.isnan(a) & np.isnan(b)) | (a == b) | (np.abs(a - b) <= eps)
        else:
            same = a == b
        if not same.all():
            i = np.unravel_index(int(np.argmin(same)), same.shape)
            return f"{name[1]} of record {i[0]} was exported as {a[i]!r} instead of {b[i]!r}"
    m = check_times((("time",), c[1][1]), c[1][2][1], "time")
    return m
