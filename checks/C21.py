import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import main

TWO = ["LL30", "LL45", "LL90"]
ONE = ["H2", "H2N", "O8", "O4"]
DIMS = ["t", "level", "number", "zz"]
MIRT = ["f8", "f8", "f4"]
PRET = ["f8", "f4", "i2", "i4", "i8", "u1", "bool"]


def check(c):
    r = c.rng
    m = c.tlc("XArrayMC", f"SPECIFICATION Spec\nINVARIANT Complete Once\nCONSTRAINT Emit\nCHECK_DEADLOCK FALSE\nCONSTANT MaxChunks = {9 if c.thorough else 6}\nCONSTANT MaxDims = 3\nCONSTANT MaxSize = 4\nCONSTANT MaxFields = {12 if c.thorough else 6}\n",
              workers=8, mem="6g")
    found = [(tuple(x["sizes"]), tuple(x["chunks"])) for x in m.printed("SHAPE")]
    found = sorted(set(found) | {(s, ()) for s, _ in found})
    c.say(len(found), "shapes with chunkings")

    def options(backend):
        return r.choice([{}, {}, {"interpolation": "nearest-neighbour"}, {"interpolation": "grid-box-average"}]) if backend == "mir" else r.choice([{}, {"interpolation": "linear"}])

    def grids(backend):
        src, dst = r.choice(TWO + ONE[:3]), r.choice(TWO + ONE)
        while backend == "precomputed" and src == dst:
            dst = r.choice(TWO + ONE)
        return src, dst

    def call(kind, sizes, chunks, backend, nvars=1):
        src, dst = grids(backend)
        dims = r.sample(DIMS, len(sizes))
        x = dict(kind=kind, backend=backend, src=src, target=dst, options=options(backend), where=r.choice(["attrs", "attrs", "kwarg"]), dims=dict(zip(dims, sizes)), vars=[])
        types = MIRT if backend == "mir" else PRET
        for k in range(nvars):
            outer = list(dims) if k == 0 else r.sample(dims, r.randrange(len(dims) + 1))
            v = dict(n=["b", "a", "c", "d"][k], outer=outer, dtype=r.choice(types))
            if chunks and (k == 0 or r.random() < 0.6):
                v["chunks"] = dict(zip(dims, chunks))
                if r.random() < 0.25:
                    v["chunks"]["latitude" if src in TWO else "values"] = r.choice([2, 3])
            if v["dtype"] in ("f4", "f8") and r.random() < 0.1:
                v["nan"] = 1
            if r.random() < 0.2:
                v["twin"] = 1
            x["vars"].append(v)
        r.shuffle(x["vars"])
        x["coords"] = [d for d in dims if r.random() < 0.6] + ["aux_" + d for d in dims if r.random() < 0.3] + (["geo"] if r.random() < 0.6 else [])
        if src in TWO and r.random() < 0.15:
            x["geodims"] = r.choice([["y", "x"], ["lat", "lon"]])
        elif kind == "dataarray" and r.random() < 0.2:
            n = len(x["vars"][0]["outer"]) + (2 if src in TWO else 1)
            x["vars"][0]["order"] = r.sample(range(n), n)
        if chunks and r.random() < 0.3:
            x["scheduler"] = "threads"
        return x

    calls = []
    for sizes, chunks in found:
        for backend in ("mir", "precomputed"):
            calls += [call("dataarray", sizes, chunks, backend) for _ in range(6 if c.thorough else 2)]
            calls += [call("dataset", sizes, chunks, backend, n) for n in ((1, 2, 3, 4) if c.thorough else (2, 3))]
    r.shuffle(calls)
    seqs = [calls[k : k + 6] for k in range(0, len(calls), 6)]
    jobs = [dict(seqs=seqs[k::8], seed=c.seed * 100 + k) for k in range(8)]
    cache = c.dir("mir")
    traces = [t for ts in c.parallel(lambda j: c.drive("xr.py", j, env=c.env(extra={"MIR_CACHE_PATH": os.path.join(cache, str(j["seed"]))})), jobs) for t in ts]
    rej = c.validate("XArrayTrace", traces, jobs=8)
    c.report_rejects("XArray", rej)
    ev = [e for t in traces for e in t["ev"]]
    ok = sum(1 for e in ev if not e["err"])
    c.say(len(ev), "calls,", ok, "with a result")
    c.assumptions = ["what the engine gives for a field alone is the reference", "no dimension is empty; the geographical dimensions are the last ones or are named by the caller"]
    return c.finish(states=c.states, transitions=c.transitions, traces_validated_against_impl=len(traces), calls=len(ev), calls_with_result=ok, shapes_and_chunkings=len(found),
                    fields=sum(len(v["slices"]) for e in ev for v in e["vars"]), samples=[ev[0], ev[-1]])


main("C21", "model_checking", check)
