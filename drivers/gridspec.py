"""Compares grid specifications pairwise: see spec/GridSpecTrace.tla."""

import copy
import json
import os
import sys
import warnings

warnings.simplefilter("ignore")
import logging

logging.disable(logging.CRITICAL)
import numpy as np
from invlib import write_index

from earthkit.regrid.backends.db import MatrixDb
from earthkit.regrid.gridspec import GridSpec

job = json.load(open(sys.argv[1]))
out = open(sys.argv[2], "w")


def number(v, num):
    x = v / 1000
    if num == "int" and x == int(x):
        return int(x)
    if num == "numpy":
        return np.float64(x)
    return float(x)


def realise(r):
    sp = r["sp"]
    seq = tuple if sp["seq"] == "tuple" else list
    d = {}
    if r["kind"] == "ll":
        d["grid"] = seq([number(r["dx"], sp["num"]), number(r["dy"], sp["num"])])
    else:
        d["grid"] = r["name"].lower() if sp["case"] == "lower" else r["name"]
    if r["area"]:
        d["area"] = seq([number(x, sp["num"]) for x in r["area"]])
    if r["order"]:
        d["ordering" if sp["old"] else "order"] = r["order"]
    if r["shape"]:
        d["shape"] = seq(r["shape"])
    for n, v in zip(["i_scans_negatively", "j_points_consecutive", "j_scans_positively"], r["flags"]):
        if v or sp["dflt"]:
            d[n] = v
    if sp["typ"]:
        d["type"] = {"ll": "regular_ll", "gg": "reduced_gg"}.get(r["kind"], r["kind"])
    if sp["glob"]:
        d["global"] = 1
    return d


specs = [realise(r) for r in job["specs"]]
if "bad" in job:
    for b in job["bad"]:
        e = dict(op="bad", i=1, spec=repr(b), err="")
        try:
            x = GridSpec.from_dict(b)
            e["got"] = repr(x)
        except Exception as x:
            e["err"] = type(x).__name__
        out.write(json.dumps(dict(ev=[e], id=repr(b))) + "\n")
for i in job["cmp"]:
    m, r, mut = [], [], False
    a0 = copy.deepcopy(specs[i - 1])
    for j in range(1, len(specs) + 1):
        a, b = copy.deepcopy(specs[i - 1]), copy.deepcopy(specs[j - 1])
        ga, gb = GridSpec.from_dict(a), GridSpec.from_dict(b)
        k0 = dict(ga), dict(gb)
        x, y = bool(ga == gb), bool(gb == ga)
        if a != a0 or type(a["grid"]) is not type(a0["grid"]) or b != specs[j - 1] or k0 != (dict(ga), dict(gb)):
            mut = True
        # comparing again gives the same
        if bool(ga == gb) != x:
            mut = True
        if x:
            m.append(j)
        if y:
            r.append(j)
    out.write(json.dumps(dict(ev=[dict(op="cmp", i=i, m=m, r=r, mut=mut)], id=a0), default=str) + "\n")

n = 0
for i, js in job["find"]:
    # an inventory with specification i as input (output) grid, looked up with each j
    m, mut = [], False
    for side in ("input", "output"):
        root = os.path.join(sys.argv[3], f"i{n}")
        n += 1
        fixed = {"grid": "O8", "shape": [544]}
        e = dict(input=fixed, output=fixed, interpolation=dict(engine="mir", version=16, method="linear"))
        e[side] = json.loads(json.dumps(specs[i - 1]))
        write_index(root, {"a": e})
        db = MatrixDb.from_path(root)
        found = set()
        for j in js:
            q = copy.deepcopy(specs[j - 1])
            args = [{"grid": "O8"}, {"grid": "O8"}]
            args[0 if side == "input" else 1] = q
            if db.find_entry(GridSpec.from_dict(args[0]), GridSpec.from_dict(args[1]), "linear") is not None:
                found.add(j)
            if q != specs[j - 1]:
                mut = True
        out.write(json.dumps(dict(ev=[dict(op="find", i=i, js=js, m=sorted(found), mut=mut)], id=[side, specs[i - 1]]), default=str) + "\n")
out.close()
