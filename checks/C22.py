import os
import struct
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import main

EXPECTED = [10, 10, 10, 5, 10, 10, 10, 21, 21, 21]


def f4(x):
    return struct.unpack("f", struct.pack("f", x))[0]


def case(f, le, ssz, how="array", tags=None, cut=-1, mutated=-1):
    data = [(f4(x) if ssz == 4 else float(x)).hex() if ssz != 2 else "0x1.0p+0" for x in f["data"]]
    return dict(op="weights", f=dict(f, data=data), le=le, ssz=ssz, how=how, tags=tags or list(EXPECTED), cut=cut, mutated=mutated)


def size(f, ssz):
    return 7 * 5 + 27 + 4 * (f["rows"] + 1) + (4 + ssz) * len(f["data"])


def random_matrix(rng, rows, cols, nnz):
    cells = sorted(rng.sample(range(rows * cols), min(nnz, rows * cols)))
    outer, inner = [0] * (rows + 1), []
    for x in cells:
        outer[x // cols + 1] += 1
        inner.append(x % cols)
    for r in range(rows):
        outer[r + 1] += outer[r]
    vals = [rng.choice([rng.random(), rng.uniform(-1e30, 1e30), 0.0, 1.0, 1e-30, 0.1, -0.0]) for _ in cells]
    return dict(rows=rows, cols=cols, outer=outer, inner=inner, data=vals)


def check(c):
    t, rng = c.thorough, c.rng
    r = c.tlc("CodecMC", f"SPECIFICATION MCSpec\nCONSTANT MaxRows = 3\nCONSTANT MaxCols = {4 if t else 3}\nINVARIANT RoundTrip OuterInv ReaderInv\nCONSTRAINT Out\nCHECK_DEADLOCK FALSE\n", workers=4)
    fs = r.printed("CASE")
    c.say(f"{len(fs)} matrices")
    hows = ["array", "str", "path"]
    cases = []
    for k, f in enumerate(fs):
        f = dict(f, data=[x / 8 for x in f["data"]])
        for le in (True, False):
            for ssz in (4, 8):
                cases.append(case(f, le, ssz, hows[(k + le + ssz // 4) % 3]))
    for _ in range(4000 if t else 300):
        rows, cols = rng.choice([(1, 1), (5, 40), (40, 5), (300, 7), (1, 500), (17, 17), (64, 3)])
        f = random_matrix(rng, rows, cols, rng.choice([0, 1, 2, rows, rows * 3, rows * cols]) if rows * cols < 600 else rng.choice([0, rows, 2 * rows]))
        cases.append(case(f, rng.random() < 0.5, rng.choice([4, 8]), rng.choice(hows)))
    # cut off at every byte
    some = [f for f in fs if f["data"]]
    for f in rng.sample(some, 40 if t else 6) + [random_matrix(rng, 4, 3, 5), dict(rows=2, cols=2, outer=[0, 0, 0], inner=[], data=[])]:
        for ssz in (4, 8):
            for cut in range(size(f, ssz) + 2):
                cases.append(case(f, rng.random() < 0.5, ssz, rng.choice(hows), cut=cut))
    # unexpected markers, and harmless ones
    for f in rng.sample(some, 10 if t else 2):
        for n in range(10):
            for tag in list(range(0, 24)) + [255]:
                tags = list(EXPECTED)
                tags[n] = tag
                cases.append(case(f, rng.random() < 0.5, rng.choice([4, 8]), rng.choice(hows), tags=tags, mutated=n if tag == 2 else -1))
            tags = list(EXPECTED)
            tags[n:n] = [2] * rng.choice([1, 2])
            cases.append(case(f, rng.random() < 0.5, rng.choice([4, 8]), rng.choice(hows), tags=tags))
        cases.append(case(f, True, 2))
    # an end-of-object mark in place of an item shifts what follows: the reader may meet anything
    cases = [x for x in cases if not (x["mutated"] >= 0)]
    # grid definitions
    xs = [0.0, -0.0, 90.0, -90.0, 359.99999999999994, 0.1, 1e-12, 45.0, -179.5, 5.0]
    for _ in range(400 if t else 60):
        n = rng.choice([1, 2, 3, 5, 50, 400])
        cases.append(dict(op="griddef", lats=[rng.choice(xs + [rng.uniform(-90, 90)]).hex() for _ in range(n)], lons=[rng.choice(xs + [rng.uniform(-180, 360)]).hex() for _ in range(n)],
                          kind=rng.choice(["list", "tuple", "array"])))
    for a, b in ((0, 0), (1, 0), (0, 1), (2, 3), (3, 2)):
        for kind in ("list", "array"):
            cases.append(dict(op="badgriddef", lats=[1.0.hex()] * a, lons=[2.0.hex()] * b, kind=kind))
    rng.shuffle(cases)
    seqs = [cases[k : k + 40] for k in range(0, len(cases), 40)]
    # names
    for _ in range(60 if t else 8):
        s = []
        n = rng.choice([1, 3, 1500, 2500])
        base = ([rng.uniform(-90, 90) for _ in range(n)], [rng.uniform(0, 360) for _ in range(n)])
        for _ in range(8):
            la, lo = [list(x) for x in base]
            how = rng.randrange(5)
            k = rng.randrange(n)
            if how == 1:
                la[k] += 1e-9 if rng.random() < 0.5 else 1
            elif how == 2:
                lo[k] = rng.uniform(0, 360)
            elif how == 3:
                la, lo = lo, la
            elif how == 4 and n > 1:
                la, lo = la[:-1] , lo[:-1]
            kinds = ["list", "array", "tuple"]
            s.append(dict(op="named", lats=[x.hex() for x in la], lons=[x.hex() for x in lo], kind=rng.choice(kinds)))
        seqs.append(s)
    # by the engine itself
    eng = []
    for _ in range(12 if t else 3):
        step = rng.choice([10, 15, 30])
        n = (180 // step + 1) * (360 // step)
        inner = list(range(360 // step, n - 360 // step))
        eng.append(dict(op="engine", step=step, ncols=n, nodes=rng.sample(inner, 9), ext=rng.choice(["npz", "mat"])))
    for e in eng:
        seqs.append([e])
    rng.shuffle(seqs)
    jobs = [dict(seqs=seqs[k::8]) for k in range(8)]
    traces = [x for ts in c.parallel(lambda j: c.drive("codec.py", j), jobs) for x in ts]
    c.report_rejects("Codec", c.validate("CodecTrace", traces, jobs=8))
    n = lambda op: sum(e["op"] == op for x in traces for e in x["ev"])
    return c.finish(states=c.states, transitions=c.transitions, traces_validated_against_impl=len(traces), weights_files=n("weights"),
                    damaged_files=sum(e["op"] == "weights" and e["err"] != "" for x in traces for e in x["ev"]),
                    grid_definitions=n("griddef") + n("named"), engine_runs=n("engine"), samples=[x for x in traces[0]["ev"][:1]])


main("C22", "model_checking", check)
