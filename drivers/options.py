"""Calls regrid() and notes what the engine is told: see spec/OptionsTrace.tla."""

import copy
import io
import json
import os
import sys

import mirrec as M
import numpy as np
import xarray as xr

from earthkit.regrid import config, regrid
from earthkit.regrid.array import regrid as regrid_array

job = json.load(open(sys.argv[1]))
out = open(sys.argv[2], "w")
config.autosave = False
rng = np.random.default_rng(job["seed"])
NP = {"float": float, "int": int, "np": np.float64, "text": str}

# data: O32 messages with various values, and arrays on small grids
MSG = [M.message(rng.normal(size=5248) * 10 + 280, shortName=s, level=k) for k, s in enumerate(["t", "u", "v", "q"], 1)]
FL = M.fields(MSG)
LL = {"grid": [30, 30]}
ARR = [(rng.normal(size=(7, 12)), {"grid": [30, 30]}), (rng.normal(size=48), {"grid": "H2", "order": "ring"}), (rng.normal(size=84), {"grid": [30.0, 30]})]


def value(v):
    return NP[v["t"]](v["v"]) if isinstance(v, dict) else v


def same(a, b):
    a, b = np.asarray(a), np.asarray(b)
    return a.size == b.size and np.array_equal(a.reshape(-1), b.reshape(-1), equal_nan=True)


def call(c):
    given = {k: value(v) for k, v in c["given"].items()}
    grid = copy.deepcopy(c["grid"])
    if "tuple" in c:
        grid = {k: tuple(v) if isinstance(v, list) and k == "area" else v for k, v in grid.items()}
    plain = copy.deepcopy(grid)
    area = plain.pop("area", None)
    kind, n = c["kind"], c["n"]
    before = (copy.deepcopy(given), copy.deepcopy(grid))
    inputs, res, err = [], [], ""
    M.take()
    try:
        if kind == "array":
            v, g = ARR[c["item"] % len(ARR)]
            v0, g0 = v.copy(), copy.deepcopy(g)
            inputs = [(v0, g0)]
            try:
                r, spec = regrid_array(v, g, grid, **given)
            finally:
                before += (v0, g0)
                given_now = (v, g)
            res = [r]
        elif kind in ("bytes", "BytesIO"):
            m = MSG[c["item"] % len(MSG)]
            inputs = [m]
            res = [regrid(m if kind == "bytes" else io.BytesIO(m), grid, **given)]
        elif kind == "field":
            inputs = [MSG[c["item"] % len(MSG)]]
            res = [regrid(FL[c["item"] % len(MSG)], grid=grid, **given)]
        elif kind == "fieldlist":
            ks = [(c["item"] + k) % len(MSG) for k in range(n)]
            inputs = [MSG[k] for k in ks]
            res = list(regrid(FL.from_fields([FL[k] for k in ks]), grid, **given))
        else:
            v = rng.normal(size=(n, 7, 12))
            inputs = [(v[k].copy(), LL) for k in range(n)]
            if kind == "dataarray":
                d = xr.DataArray(v, dims=("t", "latitude", "longitude"), attrs={"gridspec": dict(LL)})
                res = list(np.asarray(regrid(d, grid, **given)))
            else:
                d = xr.Dataset({f"v{k}": (("latitude", "longitude"), v[k]) for k in range(n)})
                r = regrid(d, grid, grid_spec=dict(LL), **given)
                res = [r[f"v{k}"].values for k in range(n)]
    except Exception as e:
        err = type(e).__name__
    jobs = M.take()
    kept = M.plain(before[0]) == M.plain(given) and before[1] == grid and list(before[1]) == list(grid) and all(type(before[1][k]) is type(grid[k]) for k in grid) and all(type(before[0][k]) is type(given[k]) for k in given)
    if kind == "array":
        kept = kept and same(before[2], given_now[0]) and before[3] == given_now[1]
    # the engine itself, told the same
    ok, fits, enginerr = True, True, ""
    pool = list(inputs)
    for j in jobs:
        g = j["input"]
        for k, p in enumerate(pool):
            if isinstance(p, bytes) and isinstance(g, bytes) and p == g or not isinstance(p, bytes) and not isinstance(g, bytes) and g is not None and same(p[0], g[0]) and (kind in ("dataset", "dataarray") or M.gridtext(p[1]) == M.gridtext(g[1])):
                del pool[k]
                break
        else:
            fits = False
    told = list(jobs[0]["told"]) if jobs else [("grid", plain)]
    ref = []
    for p in inputs:
        e, r, spec = M.engine(p, told)
        enginerr = enginerr or e
        ref.append(r)
    if not enginerr and not err:
        if len(res) != len(inputs):
            ok = False
        for r, p in zip(res, ref):
            if kind in ("bytes", "BytesIO"):
                ok = ok and r == p
            elif kind in ("field", "fieldlist"):
                ok = ok and same(r.values, M.single(p).values)
            else:
                ok = ok and same(r, p)
    if not err and pool:
        fits = False
    return dict(op="call", kind=kind, given={k: M.text(v) for k, v in before[0].items()}, grid=M.gridtext(plain), area=[] if area is None else M.areatexts(area),
                jobs=[M.told(j) for j in jobs], kept=bool(kept), inputs=bool(fits), err=err, enginerr=enginerr, same=bool(ok))


for seq in job["seqs"]:
    out.write(json.dumps(dict(ev=[call(c) for c in seq])) + "\n")
out.close()
