"""Writes weights files item by item and has them read; grid definition files: see spec/CodecTrace.tla."""

import json
import os
import struct
import sys
from pathlib import Path

import numpy as np

job = json.load(open(sys.argv[1]))
SCR = sys.argv[3]
from scipy.sparse import load_npz  # noqa: E402

from earthkit.regrid.utils import mir as um  # noqa: E402

ULONG, INT, BLOB, END, DOUBLE = 10, 5, 21, 2, 14


def write(c):
    f, e = c["f"], "<" if c["le"] else ">"
    fmt = {4: "f", 8: "d", 2: "e"}[c["ssz"]]
    ints = [f["rows"], f["cols"], len(f["data"]), 1 if c["le"] else 0, 4, c["ssz"], 8]
    blobs = [struct.pack(f"{e}{len(x)}I", *x) for x in (f["outer"], f["inner"])] + [struct.pack(f"{e}{len(f['data'])}{fmt}", *[float.fromhex(x) for x in f["data"]])]
    items = [struct.pack("!L", x) for x in ints] + [struct.pack("!Q", len(b)) + b for b in blobs]
    out, k = b"", 0
    for t in c["tags"]:
        out += bytes([t])
        if t != END or c["mutated"] == k:
            out += items[k]
            k += 1
    return out if c["cut"] < 0 else out[: c["cut"]]


def triples(z):
    z = z.tocsr()
    r = []
    for i in range(z.shape[0]):
        for k in range(z.indptr[i], z.indptr[i + 1]):
            r.append([i, int(z.indices[k]), float(z.data[k]).hex()])
    return r


def weights(c, n):
    p = os.path.join(SCR, f"w{n}.mat")
    with open(p, "wb") as f:
        f.write(write(c))
    r = dict(err="", rows=0, cols=0, trip=[])
    try:
        if c["how"] == "array":
            z = um.mir_cached_matrix_to_array(p if n % 2 else Path(p))
        else:
            t = os.path.join(SCR, f"w{n}.npz")
            um.mir_cached_matrix_to_file(p, t if c["how"] == "str" else Path(t))
            z = load_npz(t)
            os.unlink(t)
        # the values are those of the matrix in any arithmetic
        x = np.ones(z.shape[1])
        s = z @ x
        assert s.shape == (z.shape[0],)
        r.update(rows=z.shape[0], cols=z.shape[1], trip=triples(z))
    except Exception as e:
        r["err"] = type(e).__name__
        if c["how"] != "array" and os.path.exists(t):
            r["err"] = ""
            r["trip"] = "a file was left behind"
    os.unlink(p)
    return dict(c, **r)


def decode(p):
    b = open(p, "rb").read()
    items = [[b[0], struct.unpack("!L", b[1:5])[0]], [b[5], struct.unpack("!L", b[6:10])[0]]]
    pos, coords = 10, []
    while pos + 9 <= len(b):
        lo, hi = struct.unpack("!LL", b[pos + 1 : pos + 9])
        coords.append([b[pos], struct.unpack("!d", struct.pack("!LL", hi, lo))[0].hex()])
        pos += 9
    return dict(items=items, coords=coords, rest=len(b) - pos)


def conv(v, kind):
    v = [float.fromhex(x) for x in v]
    if kind == "array":
        return np.array(v)
    if kind == "f4":
        return np.array(v, dtype="f4")
    if kind == "tuple":
        return tuple(v)
    return v


def griddef(c, n):
    r = dict(err="", items=[], coords=[], rest=0)
    p = os.path.join(SCR, f"g{n}")
    try:
        if c["op"] == "named":
            d = Path(SCR) / "named"
            d.mkdir(exist_ok=True)
            p = um._griddef_from_latlon(conv(c["lats"], c["kind"]), conv(c["lons"], c["kind"]), d)
            r["path"] = str(p)
        else:
            um.mir_write_latlon_to_griddef(p, conv(c["lats"], c["kind"]), conv(c["lons"], c["kind"]))
        r.update(decode(p))
    except Exception as e:
        r["err"] = type(e).__name__
    return dict(c, **r)


def engine(c, n):
    """In a process of its own: the engine writes the weights of a pair of grids only once."""
    t = os.path.join(SCR, f"e{n}.{c['ext']}")
    pid = os.fork()
    if pid == 0:
        rc = 1
        try:
            lat = [90.0 - c["step"] * (k // (360 // c["step"])) for k in c["nodes"]]
            lon = [float(c["step"] * (k % (360 // c["step"]))) for k in c["nodes"]]
            um.mir_make_matrix(in_grid={"grid": [c["step"], c["step"]]}, out_lat=lat, out_lon=lon, output=t, interpolation="nn")
            rc = 0
        except BaseException:
            import traceback

            traceback.print_exc()
        finally:
            os._exit(rc)
    if os.waitpid(pid, 0)[1]:
        return dict(c, err="failed", rows=0, cols=0, trip=[])
    z = um.mir_cached_matrix_to_array(t) if c["ext"] == "mat" else load_npz(t)
    return dict(c, err="", rows=z.shape[0], cols=z.shape[1], trip=triples(z))


fn = dict(weights=weights, griddef=griddef, named=griddef, badgriddef=griddef, engine=engine)
with open(sys.argv[2], "w") as out:
    n = 0
    for k, s in enumerate(job["seqs"]):
        ev = []
        for c in s:
            n += 1
            ev.append(fn[c["op"]](c, n))
        out.write(json.dumps(dict(ev=ev, id=k)) + "\n")
