"""Builds, subsets and merges inventories: see spec/BuilderTrace.tla."""

import contextlib
import importlib.util
import io
import json
import logging
import os
import shutil
import sys

logging.disable(logging.CRITICAL)
import yaml
from buildlib import CODES, GRIDS, SETTINGS, look, observe, size, write_mat
from invlib import Weights

from earthkit.regrid import config
from earthkit.regrid.backends.db import MatrixDb
from earthkit.regrid.utils.builder import make_matrix

job = json.load(open(sys.argv[1]))
SCR = sys.argv[3]
config.autosave = False
config.set({"weights-memory-cache-policy": "off"})


def tool(path, name):
    s = importlib.util.spec_from_file_location(name, path)
    m = importlib.util.module_from_spec(s)
    s.loader.exec_module(m)
    return m


subset_tool = tool("/repo/tools/subset/subset_remote_db.py", "subset_remote_db")
merge_tool = tool("/repo/tools/manage/merge_index.py", "merge_index")


def run(op, d):
    root = {k: os.path.join(d, f"inv{k}") for k in range(1, 5)}
    if op["op"] == "add":
        r, code = root[op["k"]], op["code"]
        os.makedirs(r, exist_ok=True)
        ix = os.path.join(r, "index.json")
        if op["bad"]:
            with open(ix) as f:
                keep = f.read()
            with open(ix, "w") as f:
                f.write(keep.replace('"version": 1', '"version": 2', 1))
        i, o = op["i"], op["o"]
        rows, cols = size(GRIDS[o][2]), size(GRIDS[i][2])
        w = Weights(rows, cols, min(rows * cols, 2 * rows + code % 5), code)
        CODES[code] = (w, (i, o))
        mat, js = os.path.join(d, "w.mat"), os.path.join(d, "w.json")
        write_mat(mat, w.matrix(code))
        with open(js, "w") as f:
            json.dump(dict(input=GRIDS[i][0], output=GRIDS[o][0], interpolation=SETTINGS[op["s"]], matrix=dict(cache_file=mat, nnz=w.nnz)), f)
        kw = {}
        if op["glob"]:
            kw = dict(global_input=GRIDS[i][3], global_output=GRIDS[o][3])
        if op["explicit"]:
            kw["index_file"] = ix
        try:
            make_matrix(js, r, **kw)
        finally:
            if op["bad"]:
                with open(ix) as f:
                    assert f.read() == keep.replace('"version": 1', '"version": 2', 1) or "\"version\": 1" not in keep, "the index was changed"
                with open(ix, "w") as f:
                    f.write(keep)
    elif op["op"] == "subset":
        if not op["used"]:
            shutil.rmtree(root[3], ignore_errors=True)
        subset_tool.DB = MatrixDb.from_path(root[op["k"]])
        conf = os.path.join(d, "conf.yaml")
        items = []
        for n, f in enumerate(op["fs"]):
            x = dict(input=dict(GRIDS[f["i"]][1]), output=dict(GRIDS[f["o"]][1]), method=f["m"])
            if f["m"] == "linear" and n % 2:
                del x["method"]
            items.append(x)
        with open(conf, "w") as f:
            yaml.safe_dump(items, f)
        subset_tool.subset_remote_db(conf, root[3], strict=op["strict"], fail_on_missing=not op["allow"], dry_run=op["dry"])
    elif op["op"] == "merge":
        shutil.rmtree(root[4], ignore_errors=True)
        os.makedirs(root[4])
        merge_tool.merge(root[2], os.path.join(root[4], "index.json"), system_file=os.path.join(root[1], "index.json"), dry_run=op["dry"])
        if not op["dry"]:
            for k in (1, 2):
                for x in os.scandir(root[k]):
                    if x.is_dir():
                        shutil.copytree(x.path, os.path.join(root[4], x.name), dirs_exist_ok=True)
    return root


with open(sys.argv[2], "w") as out:
    for n, s in enumerate(job["seqs"]):
        d = os.path.join(SCR, f"s{n}")
        os.makedirs(d)
        CODES.clear()
        ev = []
        for op in s:
            e = dict(op, err="")
            try:
                with contextlib.redirect_stdout(io.StringIO()):
                    run(op, d)
            except BaseException as x:
                e["err"] = type(x).__name__
            roots = [os.path.join(d, f"inv{k}") for k in range(1, 5)]
            e["obs"] = [observe(r) for r in roots]
            e["looks"] = [look(SCR, roots[q[0] - 1], q[1:], q[0]) for q in op.get("ask", [])]
            e.pop("ask", None)
            ev.append(e)
        shutil.rmtree(d)
        out.write(json.dumps(dict(ev=ev, id=n)) + "\n")
