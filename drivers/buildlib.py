"""Grids, settings and weights for building inventories, and what is in an inventory."""

import copy
import json
import os
import struct

import numpy as np
from scipy.sparse import load_npz

from earthkit.regrid.array import regrid
from earthkit.regrid.gridspec import GridSpec


def ll(d, nj, ni, bbox):
    return dict(type="regular_ll", increments=dict(west_east=d, south_north=d), nj=nj, ni=ni, bbox=dict(zip(("north", "west", "south", "east"), bbox)))


def gg(N, pl, bbox):
    return dict(type="reduced_gg", N=N, pl=pl, bbox=dict(zip(("north", "west", "south", "east"), bbox)))


# number -> (as the engine describes it, as the user asks for it, shape, global)
GRIDS = {
    1: (dict(type="healpix", grid="H1", order="nested"), {"grid": "H1", "order": "nested"}, [12], True),
    2: (dict(type="healpix", grid="H1", order="ring"), {"grid": "H1"}, [12], True),
    3: (ll(60, 4, 6, (90, 0, -90, 300)), {"grid": [60, 60]}, [4, 6], True),
    4: (gg(2, [20, 24, 24, 20], (62.3, 0, -62.3, 345)), {"grid": "O2"}, [88], True),
    5: (ll(90, 3, 4, (90.0, 0.0, -90.0, 270.0)), {"grid": [90, 90]}, [3, 4], True),
    6: (ll(60, 4, 6, (90, -180, -90, 120)), {"grid": [60, 60], "area": [90, -180, -90, 180]}, [4, 6], True),
    7: (ll(10, 4, 3, (60, 0, 30, 20)), {"grid": [10, 10], "area": [60, 0, 30, 20]}, [4, 3], False),
    8: (gg(2, [4, 10, 10, 4], (59.4, 0, -59.4, 315)), {"grid": "N2"}, [28], True),
    9: (dict(type="orca", unstructuredGridType="eORCA025", unstructuredGridSubtype="T"), {"grid": "eORCA025_T"}, [15], True),
    10: (dict(type="orca", unstructuredGridType="eORCA025", unstructuredGridSubtype="U"), {"grid": "eORCA025_U"}, [15], True),
    11: (ll(10, 4, 3, (60, 10, 30, 30)), {"grid": [10, 10], "area": [60, 10, 30, 30]}, [4, 3], False),
    12: (gg(3, [20, 24, 28, 28, 24, 20], (62.3, 0, -62.3, 347.14285714285716)), {"grid": "O3"}, [144], True),
}
GBOX = {"type": "grid-box-average", "nonLinear": [{"type": "missing-if-heaviest-missing"}], "solver": {"type": "multiply"}, "cropping": False,
        "lsmWeightAdjustment": 0.2, "pruneEpsilon": 1e-10, "poleDisplacement": 0}
SETTINGS = {
    1: dict(engine="mir", version=16, method="linear"),
    2: dict(engine="mir", version=16, method="linear", lsmWeightAdjustment=0.2),
    3: dict(engine="mir", version=17, method="linear"),
    4: dict(engine="mir", version=16, method="nearest-neighbour"),
    5: dict(engine="mir", version=16, method="grid-box-average"),
    6: dict(engine="mir", version=16, method=GBOX),
    7: dict(engine="mir", version=16, method=dict(GBOX, pruneEpsilon=1e-5)),
    8: dict(engine="mir", version=16, method="nearest-neighbour", distance=[1, 2]),
}
size = lambda s: int(np.prod(s))
CODES = {}


def write_mat(path, m):
    m = m.tocsr()
    b = b"".join(bytes([t]) + struct.pack("!L", v) for t, v in zip((10, 10, 10, 5, 10, 10, 10), (m.shape[0], m.shape[1], m.nnz, 1, 4, 8, 8)))
    for x in (m.indptr.astype("<i4"), m.indices.astype("<i4"), m.data.astype("<f8")):
        b += bytes([21]) + struct.pack("!Q", x.nbytes) + x.tobytes()
    with open(path, "wb") as f:
        f.write(b)


def gridno(d):
    g = GridSpec.from_dict(copy.deepcopy(d))
    r = [k for k, (_, q, _, _) in GRIDS.items() if GridSpec.from_dict(dict(q)) == g]
    return r[0] if len(r) == 1 else -1


def observe(root, rec=False):
    p = os.path.join(root, "index.json")
    if not os.path.exists(p):
        return ["none"]
    with open(p) as f:
        try:
            ix = json.load(f)
        except ValueError:
            return ["damaged"]
    if ix.get("version") != 1:
        return ["version"]
    r = []
    for name, e in ix["matrix"].items():
        i, o = gridno(e["input"]), gridno(e["output"])
        m = e["interpolation"]["method"]
        m = m["type"] if isinstance(m, dict) else m
        v = e["interpolation"]["version"]
        code, mem, shape = -1, False, False
        try:
            z = load_npz(os.path.join(root, f"mir_{v}_{m}", name + ".npz"))
            code = next((c for c, (w, _) in CODES.items() if z.shape == w.shape and (z != w.matrix(c)).nnz == 0), -1)
            mem = e["memory"] == z.data.nbytes + z.indptr.nbytes + z.indices.nbytes and e["nnz"] == z.nnz
            shape = list(e["output"]["shape"]) == GRIDS[o][2]
        except Exception:
            pass
        r.append(dict(i=i, o=o, m=m, v=v, code=code, mem=mem, shape=shape))
        if rec:
            # the size that is recorded may be that of other weights
            mem = code > 0 and e["memory"] == e["nnz"] * (z.data.itemsize + z.indices.itemsize) + z.indptr.nbytes
            r[-1].update(mem=mem, rec=e["nnz"])
    return r


ALIASES = {"nearest-neighbour": ["nn", "nearest-neighbor", "nearest-neighbour"]}
count = 0


def look(scratch, root, q, k):
    """Regrids with the inventory, through a new name so that nothing known of it matters."""
    global count
    count += 1
    link = os.path.join(scratch, f"link{count}")
    os.symlink(root, link)
    i, o, m = q
    v = np.arange(size(GRIDS[i][2])) % 7 + 1.0
    try:
        ms = ALIASES.get(m, [m])
        r, _ = regrid(v, dict(GRIDS[i][1]), dict(GRIDS[o][1]), interpolation=ms[count % len(ms)], backend="precomputed", inventory=link)
        got = next((c for c, (w, n) in CODES.items() if n == (i, o) and w.code(r, v) == c), -1)
        if list(r.shape) != GRIDS[o][2]:
            got = -2
    except ValueError as e:
        got = 0 if "found" in str(e).lower() else -3
    except FileNotFoundError:
        got = 0 if not os.path.exists(os.path.join(root, "index.json")) else -4
    except Exception:
        got = -5
    finally:
        os.unlink(link)
    return dict(k=k, i=i, o=o, m=m, got=got)
