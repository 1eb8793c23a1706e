"""Drives the in-memory weights cache through regrid(): see spec/MemCacheTrace.tla."""

import json
import os
import sys
import warnings

warnings.simplefilter("ignore")
import logging

logging.disable(logging.CRITICAL)
import numpy as np
from invlib import Weights, index_entry, npz_path, write_index, write_npz

from earthkit.regrid import config
from earthkit.regrid.array import regrid
from earthkit.regrid.utils.memcache import clear_memory_cache, memory_cache_info

job = json.load(open(sys.argv[1]))
out = open(sys.argv[2], "w")
root = os.path.join(sys.argv[3], "inv")

config.autosave = False
METHODS = ["linear", "nearest-neighbour", "grid-box-average"]
keys = []
entries = {}
for n, k in enumerate(job["keys"]):
    rows, cols = k["rows"], 12
    w = Weights(rows[0] * rows[1], cols, k["nnz"], n)
    assert w.bytes == k["bytes"], (w.bytes, k)
    out_grid = {"grid": [k["d"], k["d"]]}
    in_grid = {"grid": "H1", "order": "nested" if n % 2 else "ring"}
    method = METHODS[(n // 2) % 3]
    e = index_entry(in_grid, [12], out_grid, rows, method, memory=k["est"] if k["est"] >= 0 else None)
    name = f"w{n}"
    entries[name] = e
    keys.append(dict(w=w, i=in_grid, o=out_grid, m=method, path=npz_path(root, name, e), vals=np.arange(3.0 + n, 15.0 + n)))
write_index(root, entries)
ver = 0


def size(v):
    return None if v == -1 else v


def info():
    i = memory_cache_info()
    return dict(h=i.hits, m=i.misses, cur=i.currsize, cnt=i.count, max=-1 if i.maxsize is None else i.maxsize, pol=i.policy)


def configure(p, l, s):
    config.set(
        {
            "weights-memory-cache-policy": p,
            "maximum-weights-memory-cache-size": size(l),
            "weights-memory-cache-strict-mode": s,
        }
    )


def look(k, e):
    d = keys[k - 1]
    try:
        r, g = regrid(d["vals"], d["i"], d["o"], interpolation=d["m"], backend="precomputed", inventory=root)
        e["res"], e["err"] = "ok", ""
        e["got"] = d["w"].code(r, d["vals"])
        if list(r.shape) != list(entries[f"w{k-1}"]["output"]["shape"]):
            e["got"] = -2
    except Exception as x:
        e["res"], e["err"], e["got"] = "err", type(x).__name__, 0


for t in job["seqs"]:
    configure(*job["init"])
    clear_memory_cache()
    ev = []
    for o in t:
        e = dict(op=o["op"], k=o.get("k", 0), ver=0, res="ok", err="", got=0, p="", l=0, s=False)
        if o["op"] == "look":
            ver += 1
            d = keys[o["k"] - 1]
            write_npz(d["path"], d["w"].matrix(ver))
            e["ver"] = ver
            look(o["k"], e)
        elif o["op"] == "fail":
            p = keys[o["k"] - 1]["path"]
            if os.path.exists(p):
                os.remove(p)
            look(o["k"], e)
        elif o["op"] == "none":
            e["k"] = 0
            d = keys[o["k"] - 1]
            try:
                regrid(d["vals"], d["i"], {"grid": [7.5, 7.5]}, interpolation=d["m"], backend="precomputed", inventory=root)
            except Exception as x:
                e["res"], e["err"] = "err", type(x).__name__
        elif o["op"] == "clear":
            clear_memory_cache()
        elif o["op"] == "conf":
            e.update(p=o["p"], l=o["l"], s=o["s"])
            configure(o["p"], o["l"], o["s"])
        e.update(info())
        ev.append(e)
    out.write(json.dumps(dict(ev=ev)) + "\n")
out.close()
