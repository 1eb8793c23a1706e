"""Calls regrid() with lists, fields, messages and others: see spec/HighLevelTrace.tla."""

import copy
import io
import json
import os
import sys

import mirrec as M
import earthkit.data as ed
import numpy as np
from invlib import Weights, index_entry, npz_path, write_index, write_npz

from earthkit.regrid import config, interpolate, regrid
from earthkit.regrid.utils.memcache import clear_memory_cache

job = json.load(open(sys.argv[1]))
out = open(sys.argv[2], "w")
base = sys.argv[3]
config.autosave = False
rng = np.random.default_rng(job["seed"])

GRIDS = {"O32": ({"grid": "O32"}, [5248]), "LL30": ({"grid": [30, 30]}, [7, 12]), "LLW": ({"grid": [30, 30], "area": [90, 180, -90, 510]}, [7, 12])}
TARGETS = {"LL45": ({"grid": [45, 45]}, [5, 8]), "LL90": ({"grid": [90, 90]}, [3, 4]), "H2": ({"grid": "H2"}, [48]), "O8": ({"grid": "O8"}, [None]), "none": (None, None)}
KEYS = ("shortName", "paramId", "level", "typeOfLevel", "dataDate", "dataTime", "step", "number", "class", "stream", "type", "centre", "experimentVersionNumber", "edition")

# the pool of fields: (values, metadata, grid)
LLT = M.single(M.engine(M.message(np.zeros(5248)), [("grid", {"grid": [30, 30]})])[1])
POOL = []
MDS = [dict(shortName="t", typeOfLevel="isobaricInhPa", level=500), dict(shortName="t", typeOfLevel="isobaricInhPa", level=850), dict(shortName="u", typeOfLevel="isobaricInhPa", level=500, date=20200229, time=600),
       dict(shortName="2t", step=6), dict(shortName="q", level=3, step=12, bitsPerValue=24), dict(shortName="v", level=1, date=19991231), dict(shortName="msl"),
       dict(shortName="u", level=2, productDefinitionTemplateNumber=1, number=3), dict(shortName="t", level=7), dict(shortName="t", level=8)]
LLW = M.single(M.message(np.zeros(84), template=LLT, longitudeOfFirstGridPointInDegrees=180, longitudeOfLastGridPointInDegrees=150))
for k, md in enumerate(MDS):
    g = "O32" if k in (0, 1, 2, 4, 7) else "LL30" if k < 8 else "LLW"
    v = rng.normal(size=int(np.prod(GRIDS[g][1]))) * 10 ** (k % 3) + 100 * k
    if k == 2:
        v = V0.copy()  # the values of another field, other metadata
    if k == 1:
        V0 = v.copy()
    POOL.append(dict(m=M.message(v, template={"O32": None, "LL30": LLT, "LLW": LLW}[g], **md), g=g))
FIELDS = M.fields([p["m"] for p in POOL])
for k, p in enumerate(POOL):
    p["f"] = FIELDS[k]
    p["values"] = FIELDS[k].values.copy()
    p["md"] = tuple(FIELDS[k].metadata(x, default=None) for x in KEYS)
    p["mid"] = [q["md"] for q in POOL[: k + 1]].index(p["md"])
    p["vid"] = next(j for j, q in enumerate(POOL[: k + 1]) if q["g"] == p["g"] and np.array_equal(q["values"], p["values"]))
assert len({p["mid"] for p in POOL}) == len(POOL), [p["md"] for p in POOL]
ARRAYS = FIELDS.to_fieldlist()
ODD = ed.from_source("list-of-dicts", [dict(param="t", levelist=500, values=np.arange(84.0), valid_datetime="2020-01-01T00:00:00", latitudes=np.repeat(np.arange(90.0, -91, -30), 12), longitudes=np.tile(np.arange(0.0, 360, 30), 7))])[0]

# the inventories
INV = {}
for name, ws in job["inventories"].items():
    root = os.path.join(base, "inv-" + name)
    entries = {}
    for w in ws:
        (ig, ish), (og, osh) = GRIDS[w["i"]], TARGETS[w["o"]]
        w["mat"] = Weights(int(np.prod(osh)), int(np.prod(ish)), 30, w["code"])
        e = index_entry(dict(ig), ish, dict(og), osh, method=w["m"])
        entries[f"w{w['code']}"] = e
        write_npz(npz_path(root, f"w{w['code']}", e), w["mat"].matrix(w["code"]))
    write_index(root, entries)
    INV[name] = root

REF = {}
DOC = [("interpolation", "linear"), ("distance", 1.0), ("distance_tolerance", 1.0), ("nclosest", 4)]


def reference(k, target, options):
    """The engine's results for a field of the pool: documented defaults or the engine's own."""
    key = (POOL[k]["vid"], k, target, json.dumps(options, sort_keys=True))
    if key not in REF:
        o = {a: (float(b) if a.startswith("distance") else b.replace("_", "-") if a == "nearest_method" else b) for a, b in options.items()}
        if o.get("nearest_method") == "automatic":
            o.pop("nearest_method")
        r = []
        for opts in (dict(DOC, **o), o):
            e, m, _ = M.engine(POOL[k]["m"], [("grid", TARGETS[target][0]), *opts.items()])
            f = M.single(m) if not e else None
            r.append((e, m, None if e else (f.values, f.metadata().gridspec, f.shape)))
        REF[key] = r
    return REF[key]


def identify(f, call, ks, message=None):
    """Of which field of the pool, by what weights, on which grid a result is."""
    try:
        v = np.asarray(f.values).reshape(-1)
        md = tuple(f.metadata(x, default=None) for x in KEYS)
        gs = f.metadata().gridspec
    except Exception as e:
        return dict(v=-1, m=-1, w=-1, g=f"{type(e).__name__}")
    r = dict(v=-1, m=-1, w=-1, g="?")
    for p in POOL:
        if p["md"] == md:
            r["m"] = p["mid"]
    for k in dict.fromkeys([*ks, *range(len(POOL))]):
        if call["backend"] == "mir":
            for e, m, ref in reference(k, call["target"], call["options"]):
                if not e and ref[0].size == v.size and np.array_equal(ref[0].reshape(-1), v, equal_nan=True) and r["v"] < 0:
                    r.update(v=POOL[k]["vid"], w=0)
                    if M.gridtext(dict(ref[1])) == M.gridtext(dict(gs)) and tuple(ref[2]) == tuple(f.shape):
                        r["g"] = call["target"]
        else:
            for w in [w for ws in job["inventories"].values() for w in ws]:
                if w["i"] == POOL[k]["g"] and TARGETS[w["o"]][1][0] and int(np.prod(TARGETS[w["o"]][1])) == v.size and r["v"] < 0:
                    x = w["mat"].matrix(w["code"]) @ POOL[k]["values"]
                    if np.allclose(x, v, rtol=1e-9, atol=0):
                        r.update(v=POOL[k]["vid"], w=w["code"])
                        d = dict(gs)
                        if [float(x) for x in d.get("grid", [])] == [float(x) for x in TARGETS[w["o"]][0]["grid"]] and tuple(f.shape) == tuple(TARGETS[w["o"]][1]):
                            r["g"] = w["o"]
    return r


def call(c):
    ks = c["items"]
    kind, backend, target = c["kind"], c["backend"], c["target"]
    grid = copy.deepcopy(TARGETS[target][0])
    options = dict(c["options"])
    kw = dict(options)
    if backend == "missing":
        kw["backend"] = c.get("how")
    elif backend != "mir" or c.get("say"):
        kw["backend"] = backend
    if backend == "precomputed":
        kw["inventory"] = INV[c["inv"]]
    if target != "none" or c.get("say"):
        kw["grid"] = grid
    before = copy.deepcopy(kw)
    fs = [(ODD if k < 0 else ARRAYS[k] if c.get("array") else POOL[k]["f"]) for k in ks]
    err, res, data = "", None, None
    if kind == "list":
        data = FIELDS.from_fields(fs)
        if fs and c.get("sel"):  # a selection of a longer list
            data = FIELDS.from_fields([POOL[0]["f"], *fs, POOL[1]["f"]])[1 : len(fs) + 1]
    elif kind == "field":
        data = fs[0]
    elif kind == "bytes":
        data = POOL[ks[0]]["m"]
    elif kind == "stream":
        data = io.BytesIO(POOL[ks[0]]["m"])
        data.read(c.get("read", 0))
    else:
        data = {"ndarray": np.ones(5248), "sequence": list(FIELDS), "None": None, "str": "field", "bytearray": bytearray(POOL[0]["m"]), "dict": {"values": 1}, "int": 5,
                "memoryview": memoryview(POOL[0]["m"]), "tuple": (POOL[0]["f"],), "path": POOL[0]["m"].__class__}[kind]
    if c.get("forget"):
        clear_memory_cache()
    M.take()
    try:
        if c.get("api") == "interpolate":
            kw2 = {k: v for k, v in kw.items() if k not in ("backend", "interpolation", "inventory", "grid")}
            if "interpolation" in kw:
                kw2["method"] = kw["interpolation"]
            res = interpolate(data, out_grid=grid, matrix_source=kw["inventory"], **kw2)
        elif c.get("pos") and "grid" in kw:
            kw2 = dict(kw)
            res = regrid(data, kw2.pop("grid"), **kw2)
        else:
            res = regrid(data, **kw)
    except Exception as e:
        err = type(e).__name__
    kept = M.plain(before) == M.plain(kw) and list(before) == list(kw)
    if kind in ("list", "field"):
        now = list(data) if kind == "list" else [data]
        kept = kept and len(now) == len(fs)
        for f, k in zip(now, ks):
            if k >= 0:
                kept = kept and np.array_equal(f.values, POOL[k]["values"]) and tuple(f.metadata(x, default=None) for x in KEYS) == POOL[k]["md"]
    elif kind == "stream":
        kept = kept and data.getvalue() == POOL[ks[0]]["m"] and data.tell() == c.get("read", 0)
    got, ty, enginerr = [], "", ""
    if not err:
        if isinstance(res, ed.FieldList):
            ty, fl = "list", list(res)
        elif isinstance(res, ed.Field):
            ty, fl = "field", [res]
        elif isinstance(res, bytes):
            ty, fl = "bytes", list(ed.from_source("memory", res))
        else:
            ty, fl = type(res).__name__, []
        for n, f in enumerate(fl):
            got.append(identify(f, c, ks[n : n + 1] if n < len(ks) and ks[n] >= 0 else []))
    if backend == "mir" and target != "none":
        for k in ks:
            if k >= 0:
                enginerr = enginerr or reference(k, target, options)[0][0]
    items = [dict(v=-2, m=-2, g="odd", ok=False) if k < 0 else dict(v=POOL[k]["vid"], m=POOL[k]["mid"], g=POOL[k]["g"], ok=True) for k in ks]
    ws = [dict(i=w["i"], o=w["o"], m=w["m"], code=w["code"]) for w in job["inventories"][c["inv"]]] if backend == "precomputed" else []
    return dict(op="call", kind=kind, items=items, backend=backend, inv=c["inv"], target=dict(name=target, ll=target.startswith("LL")), weights=ws, method=options.get("interpolation", "linear"),
                options=c["options"], out=got, err=err, enginerr=enginerr, type=ty, kept=bool(kept))


for seq in job["seqs"]:
    out.write(json.dumps(dict(ev=[call(c) for c in seq])) + "\n")
out.close()
