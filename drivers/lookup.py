"""Drives regridding with synthetic local inventories: see spec/RegridTrace.tla."""

import copy
import json
import os
import sys
import warnings

warnings.simplefilter("ignore")
import logging

logging.disable(logging.CRITICAL)
import numpy as np
from invlib import Weights, index_entry, npz_path, write_index, write_npz

import earthkit.regrid
from earthkit.regrid import config
from earthkit.regrid.array import regrid
from earthkit.regrid.utils.memcache import clear_memory_cache

job = json.load(open(sys.argv[1]))
out = open(sys.argv[2], "w")
base = sys.argv[3]
config.autosave = False

# number -> (spellings, shape); the first spelling is the one in the index
H = lambda **k: dict(k)
GRIDS = {
    1: ([{"grid": "H1", "order": "nested"}, {"grid": "h1", "order": "nested"}, {"grid": "H1", "ordering": "nested"}, {"grid": "H1", "order": "nested", "type": "healpix"}], [12]),
    2: ([{"grid": "H1", "order": "ring"}, {"grid": "H1"}, {"grid": "h1"}, {"grid": "H1", "ordering": "ring"}], [12]),
    3: ([{"grid": [60, 60]}, {"grid": (60.0, 60)}, {"grid": [60, 60], "area": [90, 0, -90, 300]}, {"grid": [60, 60], "area": (90, 0, -90, 360), "shape": (4, 6)}, {"grid": [60, 60], "i_scans_negatively": 0}], [4, 6]),
    4: ([{"grid": "O2"}, {"grid": "o2"}, {"grid": "O2", "type": "reduced_gg"}, {"grid": "O2", "shape": [88]}], [88]),
    5: ([{"grid": [90, 90]}, {"grid": (90, 90)}, {"grid": [90.0, 90.0], "area": [90, 0, -90, 270]}, {"grid": [90, 90], "j_points_consecutive": 0, "j_scans_positively": 0}], [3, 4]),
    6: ([{"grid": [60, 60], "area": [90, -180, -90, 120]}, {"grid": [60.0, 60], "area": [90, -180, -90, 180]}, {"grid": [60, 60], "area": (90, 180, -90, 480)}], [4, 6]),
    7: ([{"grid": [10, 10], "area": [60, 0, 30, 20]}, {"grid": (10, 10), "area": (60.0, 0, 30, 20)}], [4, 3]),
    8: ([{"grid": "N2"}, {"grid": "n2"}], [28]),
    9: ([{"grid": "eORCA025_T"}], [3, 5]),
    10: ([{"grid": "eORCA025_U"}], [3, 5]),
    11: ([{"grid": [90, 90], "i_scans_negatively": 1}, {"grid": (90, 90), "i_scans_negatively": 1, "j_scans_positively": 0}], [3, 4]),
    12: ([{"grid": "H1", "order": "ring"}], [12]),  # as 2 (not used together)
}


def size(shape):
    return int(np.prod(shape))


WEIGHTS = {}


def weights(code, o, i):
    if code not in WEIGHTS:
        r, c = size(GRIDS[o][1]), size(GRIDS[i][1])
        WEIGHTS[code] = Weights(r, c, min(r * c, 2 * r + code % 7), code)
    return WEIGHTS[code]


def build(n, inv):
    root = os.path.join(base, f"inv{n}")
    entries = {}
    for k, e in enumerate(inv["entries"]):
        i, o, m = e["i"], e["o"], e["m"]
        w = weights(e["code"], o, i)
        x = index_entry(GRIDS[i][0][0], GRIDS[i][1], GRIDS[o][0][0], GRIDS[o][1], m, memory=w.bytes)
        e["mem"], e["shape"] = w.bytes, GRIDS[o][1]
        name = f"w{e['code']}"
        c = e["c"]
        if c in ("ok", "methoddict"):
            if c == "methoddict":
                x["interpolation"]["method"] = {"type": m, "pruneEpsilon": 1e-10}
            write_npz(npz_path(root, name, x), w.matrix(e["code"]))
        elif c == "intype":
            x["input"] = {"type": "sh", "grid": "T63"}
        elif c == "outtype":
            x["output"] = {"grid": "F32", "shape": [8192]}
        elif c == "noinput":
            del x["input"]
        elif c == "nooutput":
            del x["output"]
        elif c == "nogrid":
            del x["input"]["grid"]
        elif c == "nomethod":
            del x["interpolation"]["method"]
        elif c == "methodlist":
            x["interpolation"]["method"] = ["linear"]
        elif c == "nointer":
            del x["interpolation"]
        elif c == "text":
            x = "text"
        elif c == "null":
            x = None
        entries[name] = x
    v = inv["version"]
    write_index(root, entries, version=v)
    if v == 0:  # no version at all
        with open(os.path.join(root, "index.json"), "w") as f:
            json.dump(dict(matrix=entries), f)
    elif v == 3:
        with open(os.path.join(root, "index.json"), "w") as f:
            json.dump(dict(version="1", matrix=entries), f)
    return root


roots = [build(n, inv) for n, inv in enumerate(job["invs"])]
allcodes = [(e["code"], e["o"], e["i"]) for inv in job["invs"] for e in inv["entries"] if e["c"] in ("ok", "methoddict")]


def values(shape, kind, salt):
    n = size(shape)
    v = (np.arange(n) * 7 + salt * 3) % 23 + 1.0
    if kind == "f4":
        v = v.astype(np.float32)
    elif kind == "i4":
        v = v.astype(np.int32)
    elif kind == "2d":
        v = v.reshape(shape)
    elif kind == "fortran":
        v = np.asfortranarray(v.reshape(shape))
    elif kind == "strided":
        b = np.zeros(2 * n)
        b[::2] = v
        v = b[::2]
    elif kind == "reversed":
        v = v[::-1].copy()[::-1]
    elif kind == "readonly":
        v.setflags(write=False)
    return v


def decode(r, vals, i, o, expect):
    flat = np.asarray(vals).reshape(-1).astype(float)
    for code in expect + [c for c, co, ci in allcodes if size(GRIDS[ci][1]) == flat.size]:
        if WEIGHTS[code].shape[1] == flat.size and WEIGHTS[code].code(r, flat) == code:
            return code
    return -1


def do(op, e):
    inv = job["invs"][op["inv"] - 1]
    si, so = GRIDS[op["i"]][0], GRIDS[op["o"]][0]
    gi, go = copy.deepcopy(si[op["si"] % len(si)]), copy.deepcopy(so[op["so"] % len(so)])
    gi0, go0 = repr(gi), repr(go)
    v = values(GRIDS[op["i"]][1], op["vals"], op["salt"])
    v0 = v.copy()
    root = roots[op["inv"] - 1]
    try:
        if op["api"] == "interpolate":
            r = earthkit.regrid.interpolate(v, gi, go, method=op["m"], matrix_source=root)
        else:
            r, g = regrid(v, gi, go, interpolation=op["m"], backend="precomputed", inventory=root)
            if repr(g) != go0:
                e["mut"] = True
        e["shape"] = list(r.shape)
        want = [x["code"] for x in inv["entries"] if x["c"] in ("ok", "methoddict") and x["i"] == op["i"] and x["o"] == op["o"]]
        e["got"] = decode(r, v0, op["i"], op["o"], want)
        if r.flags.writeable:
            r[...] = -1  # what the caller does with the result must not matter later
    except Exception as x:
        e["res"], e["err"] = "err", type(x).__name__
    if repr(gi) != gi0 or repr(go) != go0 or not np.array_equal(v, v0) or v.dtype != v0.dtype or v.shape != v0.shape:
        e["mut"] = True


for t in job["seqs"]:
    config.set({"weights-memory-cache-policy": "largest", "maximum-weights-memory-cache-size": 100000000, "weights-memory-cache-strict-mode": False})
    clear_memory_cache()
    ev = []
    for op in t:
        e = dict(op, res="ok", err="", got=0, shape=[], mut=False)
        if op["op"] == "regrid":
            do(op, e)
        elif op["op"] == "clear":
            clear_memory_cache()
        elif op["op"] == "conf":
            config.set({"weights-memory-cache-policy": op["p"], "maximum-weights-memory-cache-size": op["l"], "weights-memory-cache-strict-mode": op["s"]})
        ev.append(e)
    out.write(json.dumps(dict(ev=ev)) + "\n")
out.write(json.dumps(dict(invs=job["invs"])) + "\n")
out.close()
