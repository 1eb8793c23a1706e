"""Calls regrid() with labelled arrays: see spec/XArrayTrace.tla."""

import copy
import itertools
import json
import os
import sys

import mirrec as M
import dask
import numpy as np
import xarray as xr
from invlib import Weights, index_entry, npz_path, write_index, write_npz

from earthkit.regrid import config, regrid

job = json.load(open(sys.argv[1]))
out = open(sys.argv[2], "w")
base = sys.argv[3]
config.autosave = False
rng = np.random.default_rng(job["seed"])
L = ["latitude", "longitude"]
ll = lambda d: (np.arange(90, -90.1, -d), np.arange(0, 360, d))


def unstructured(g):
    return tuple(np.array(x) for x in M.mir.Grid(**g).to_latlons())


GRIDS = {
    "LL30": ({"grid": [30, 30]}, (7, 12), ll(30)),
    "LL45": ({"grid": [45, 45]}, (5, 8), ll(45)),
    "LL90": ({"grid": [90, 90]}, (3, 4), ll(90)),
    "H2": ({"grid": "H2", "order": "ring"}, (48,), None),
    "H2N": ({"grid": "H2", "order": "nested"}, (48,), None),
    "O8": ({"grid": "O8"}, None, None),
    "O4": ({"grid": "O4"}, None, None),
}
for k, (g, s, c) in GRIDS.items():
    if c is None:
        c = unstructured(g)
        GRIDS[k] = (g, (len(c[0]),), c)

# an inventory of encoded weights between all of them
root = os.path.join(base, "inv")
entries, MATS = {}, {}
for n, (a, b) in enumerate(itertools.product(GRIDS, GRIDS), 1):
    if a != b:
        (ga, sa, _), (gb, sb, _) = GRIDS[a], GRIDS[b]
        w = Weights(int(np.prod(sb)), int(np.prod(sa)), min(60, int(np.prod(sb) * np.prod(sa))), n)
        MATS[a, b] = w.matrix(n)
        e = index_entry(dict(ga), list(sa), dict(gb), list(sb))
        entries[f"w{n}"] = e
        write_npz(npz_path(root, f"w{n}", e), MATS[a, b])
write_index(root, entries)


def reference(c, sl):
    """What regridding a field alone gives."""
    src, dst = c["src"], c["target"]
    if c["backend"] == "mir":
        e, v, _ = M.engine((np.ascontiguousarray(sl), GRIDS[src][0]), [("grid", GRIDS[dst][0]), ("interpolation", "linear"), ("distance", 1.0), ("distance_tolerance", 1.0), ("nclosest", 4), *c["options"].items()])
        return None if e else np.asarray(v).reshape(-1)
    return MATS[src, dst] @ sl.reshape(-1)


def matches(a, b):
    return a.shape == b.shape and np.allclose(a, b, rtol=2e-6, atol=2e-6 * float(np.nanmax(np.append(np.abs(b), 1))), equal_nan=True)


def coordtext(c):
    return json.dumps([list(c.dims), str(c.dtype), [str(x) for x in c.values.tolist()], {str(k): str(v) for k, v in c.attrs.items()}])


def call(c):
    src, dst = c["src"], c["target"]
    g, shape, latlon = GRIDS[src]
    names = c.get("geodims") or (L if len(shape) == 2 else ["values"])
    allsizes = dict(c["dims"])
    data, descr, refs, ids, enginerr = {}, [], [], {}, False
    for v in c["vars"]:
        outer = v["outer"]
        sizes = [allsizes[d] for d in outer]
        full = rng.normal(size=[*sizes, *shape]) * 100
        if v["dtype"] in ("f4", "f8"):
            full = full.astype(v["dtype"])
        elif v["dtype"] == "bool":
            full = full > 0
        else:
            full = full.astype("i8") % 100
            full = full.astype(v["dtype"])
        flat = full.reshape(-1, *shape)
        if v.get("nan"):
            flat[0].reshape(-1)[:3] = np.nan
        if v.get("twin") and len(flat) > 1:
            flat[-1] = flat[0]
        slices = []
        for sl in flat:
            key = (sl.tobytes(), v["dtype"])
            if key not in ids:
                r = reference(c, sl)
                ids[key] = len(ids) + 1
                refs.append(r)
                enginerr = enginerr or r is None
            slices.append(ids[key])
        da = xr.DataArray(full, dims=[*outer, *names], name=v["n"], attrs={"units": "K"})
        if v.get("order"):
            da = da.transpose(*[d for k, d in sorted(zip(v["order"], da.dims))])
            outer = [d for d in da.dims if d not in names]
            k = [v["outer"].index(d) for d in outer]
            slices = np.array(slices).reshape(sizes).transpose(k).reshape(-1).tolist() if outer else slices
            sizes = [allsizes[d] for d in outer]
        if v.get("chunks"):
            da = da.chunk({d: n for d, n in v["chunks"].items() if d in da.dims})
        data[v["n"]] = da
        descr.append(dict(n=v["n"], outer=list(outer), sizes=list(sizes), slices=slices))
    used = {d for v in descr for d in v["outer"]}
    coords, cc = {}, c.get("coords", [])
    for d in sorted(used):
        n = allsizes[d]
        if d in cc:
            coords[d] = {"t": np.array("2020-01-01", "M8[ns]") + np.arange(n) * np.timedelta64(6, "h"), "level": np.array([1000 - 50 * k for k in range(n)]), "number": np.arange(n)[::-1] * 1.5}.get(d, np.array([f"e{k}" for k in range(n)]))
        if "aux_" + d in cc:
            coords["aux_" + d] = (d, np.arange(n) * 10 + 1)
    geo = {}
    if "geo" in cc and names == L:
        geo = {"latitude": latlon[0], "longitude": latlon[1]}
    elif "geo" in cc and names == ["values"]:
        geo = {"latitude": ("values", latlon[0]), "longitude": ("values", latlon[1])}
    kw = dict(c["options"])
    attrs = {"title": "x"}
    if c["where"] == "attrs":
        attrs["gridspec"] = copy.deepcopy(g)
    else:
        kw["grid_spec"] = copy.deepcopy(g)
    if "geodims" in c or any("order" in v for v in c["vars"]):
        kw["in_dims"] = list(names)
    if c["backend"] == "precomputed":
        kw.update(backend="precomputed", inventory=root)
    if c["kind"] == "dataset":
        obj = xr.Dataset(data, attrs=attrs).assign_coords({**coords, **geo})
    else:
        obj = data[c["vars"][0]["n"]]
        obj = obj.assign_attrs(attrs).assign_coords({k: v for k, v in {**coords, **geo}.items()})
    given = {k: coordtext(v) for k, v in obj.coords.items() if k in coords}
    before, kw0, grid = obj.copy(deep=True), copy.deepcopy(kw), copy.deepcopy(GRIDS[dst][0])
    before.attrs = copy.deepcopy(obj.attrs)
    err, res = "", []
    outcoords, isgeo, ty = {}, False, False
    tdims = L if len(GRIDS[dst][1]) == 2 else ["values"]
    # the engine is a library of its own: what it does in several threads at once is judged by what it repeats
    for attempt in range(3 if c["backend"] == "mir" and c.get("scheduler") == "threads" else 1):
        res, err, right = [], "", True
        try:
            with dask.config.set(scheduler=c.get("scheduler", "sync")):
                r = regrid(obj, grid, **kw)
                ty = type(r) is type(obj)
                isgeo = True
                lazy = [any(v.chunks is not None for v in (obj.data_vars.values() if c["kind"] == "dataset" else [obj]))]
                again = r.compute()
                for v in (again.data_vars.values() if c["kind"] == "dataset" else [again]):
                    vals = np.asarray(v.values)
                    n = len(tdims)
                    fl = vals.reshape(-1, int(np.prod(vals.shape[-n:])))
                    own = next((d for d in descr if d["n"] == v.name), descr[0])
                    sl = []
                    for k, x in enumerate(fl):
                        cand = ([own["slices"][k]] if k < len(own["slices"]) else []) + list(range(1, len(refs) + 1))
                        sl.append(next((q for q in cand if refs[q - 1] is not None and matches(x, refs[q - 1])), -1))
                        right = right and sl[-1] == cand[0]
                    res.append(dict(n=v.name if c["kind"] == "dataset" else descr[0]["n"], dims=list(v.dims), sizes=list(v.shape), slices=sl))
                    if "gridspec" in v.attrs and v.attrs["gridspec"] is not None:
                        isgeo = isgeo and M.gridtext({k: x for k, x in dict(v.attrs["gridspec"]).items() if k == "grid"}) == M.gridtext({"grid": grid["grid"]})
                want = GRIDS[dst][2]
                for k, name in enumerate(L):
                    x = again.coords[name] if name in again.coords else None
                    isgeo = isgeo and x is not None and list(x.dims) == ([name] if tdims == L else ["values"]) and x.shape == want[k].shape and np.allclose(x.values, want[k], atol=1e-9)
                outcoords = {k: coordtext(v) for k, v in again.coords.items() if not set(v.dims) & set(tdims) and k not in L and v.dims}
        except Exception as e:
            err = type(e).__name__
        if right and not err:
            break
    M.take()
    kept = obj.identical(before) and kw == kw0 and grid == GRIDS[dst][0] and list(obj.dims) == list(before.dims) and (c["kind"] != "dataset" or list(obj.data_vars) == list(before.data_vars))
    return dict(op="regrid", kind=c["kind"], src=src, backend=c["backend"], vars=descr, coords=given, target=dict(name=dst, dims=tdims, sizes=list(GRIDS[dst][1])), out=res, outcoords=outcoords,
                geo=bool(isgeo), type=bool(ty), kept=bool(kept), err=err, enginerr=bool(enginerr), call=json.dumps(c))


for seq in job["seqs"]:
    out.write(json.dumps(dict(ev=[call(c) for c in seq])) + "\n")
out.close()
