"""Synthetic inventories for the drivers (runs in the code under test's interpreter)."""

import json
import os

import numpy as np
import scipy.sparse as sp

LLS = {90: (3, 4), 60: (4, 6), 45: (5, 8), 36: (6, 10), 30: (7, 12), 20: (10, 18), 18: (11, 20), 15: (13, 24), 10: (19, 36)}


class Weights:
    """A matrix pattern whose non-zero values all equal a code, so that the code of the
    matrix which produced a result can be read off the result."""

    def __init__(self, rows, cols, nnz, seed):
        rng = np.random.default_rng(seed)
        assert nnz <= rows * cols
        idx = np.sort(rng.choice(rows * cols, size=nnz, replace=False))
        self.r, self.c = idx // cols, idx % cols
        self.mult = rng.integers(1, 5, nnz)
        self.shape = (rows, cols)
        self.nnz = nnz
        self.bytes = 8 * nnz + 4 * nnz + 4 * (rows + 1)

    def matrix(self, code):
        return sp.csr_matrix((code * self.mult.astype(float), (self.r, self.c)), shape=self.shape)

    def apply(self, values):
        return sp.csr_matrix((self.mult.astype(float), (self.r, self.c)), shape=self.shape) @ values

    def code(self, result, values):
        """Code of the matrix that gave `result`, or -1."""
        base = self.apply(values)
        result = np.asarray(result)
        if result.size != base.size:
            return -1
        result = result.reshape(-1)
        k = np.argmax(np.abs(base))
        code = result[k] / base[k]
        if not np.isfinite(code) or code != round(code) or not np.array_equal(result, base * round(code)):
            return -1
        return int(round(code))


def ll_area(d):
    return [90, 0, -90, 360 - d]


def index_entry(in_grid, in_shape, out_grid, out_shape, method="linear", memory=None, **inter):
    i = dict(in_grid, shape=list(in_shape))
    o = dict(out_grid, shape=list(out_shape))
    for g in (i, o):
        if isinstance(g["grid"], list) and "area" not in g:
            g["area"] = ll_area(g["grid"][0])
            g["global"] = 1
    e = dict(input=i, output=o, interpolation=dict(dict(engine="mir", version=16, method=method), **inter))
    if memory is not None:
        e["memory"] = memory
    return e


def npz_path(root, name, entry):
    i = entry["interpolation"]
    m = i["method"]
    if isinstance(m, dict):
        m = m["type"]
    return os.path.join(root, f"{i['engine']}_{i['version']}_{m}", name + ".npz")


def write_npz(path, m, atomic=False):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    if atomic:
        sp.save_npz(path + ".new.npz", m, compressed=False)
        os.replace(path + ".new.npz", path)
    else:
        sp.save_npz(path, m, compressed=False)


def write_index(root, entries, version=1):
    os.makedirs(root, exist_ok=True)
    with open(os.path.join(root, "index.json"), "w") as f:
        json.dump(dict(version=version, matrix=entries), f)
