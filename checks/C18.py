import itertools
import json
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import canon, main

NAMES = ["linear", "nearest-neighbour", "nn", "nearest-neighbor", "grid-box-average", "nosuch"]
INS = {1: 1, 2: 3}
OUTS = {1: 5, 2: 4}


def check(c):
    r = c.tlc("InventoryMC", "SPECIFICATION Spec\nCONSTANT MaxLen = 3\nINVARIANT SkipInv\nINVARIANT OneInv\nCONSTRAINT PrintInv\nCHECK_DEADLOCK FALSE\n", workers=8)
    invs = sorted({canon(x) for x in r.printed("INV")})
    invs = [json.loads(x) for x in invs]
    total = len(invs)
    small = [x for x in invs if len(x["entries"]) <= 2]
    big = [x for x in invs if len(x["entries"]) > 2]
    c.rng.shuffle(big)
    invs = small + (big if c.thorough else big[:500])
    # larger ones at random: all grids of the driver, many entries
    for _ in range(60 if c.thorough else 12):
        pairs = [(i, o, m) for i in (1, 2, 3, 4, 6, 7, 8, 9, 10, 5, 11) for o in (5, 3, 4, 1, 2, 6, 7, 8, 9, 10, 11) for m in ("linear", "nearest-neighbour", "grid-box-average")]
        ents = [dict(c="methoddict" if m[0] == "g" else "ok", i=i, o=o, m=m) for i, o, m in c.rng.sample(pairs, 40)]
        junk = [dict(c=k, i=1, o=5, m="linear") for k in ("intype", "outtype", "noinput", "nooutput", "nogrid", "nomethod", "nointer", "text", "null", "methodlist")]
        # methods of a later version
        junk += [dict(c="ok", i=1, o=5, m="later"), dict(c="methoddict", i=2, o=5, m="later")]
        for j in junk:
            ents.insert(c.rng.randrange(len(ents) + 1), j)
        invs.append(dict(version=1, entries=ents, real=True))
    code = 0
    jobs = [dict(invs=[], seqs=[]) for _ in range(8)]
    for n, inv in enumerate(invs):
        for e in inv["entries"]:
            code += 1
            e["code"] = code % 30000 + 1
            if not inv.get("real"):
                e["i"], e["o"] = INS[e["i"]], OUTS[e["o"]]
        j = jobs[n % 8]
        j["invs"].append(inv)
        k = len(j["invs"])
        r = c.rng
        call = lambda i, o, m: dict(op="regrid", inv=k, i=i, o=o, m=m, si=r.randrange(5), so=r.randrange(5), api=r.choice(["array", "array", "interpolate"]), vals="f8", salt=r.randrange(20))
        if inv.get("real"):
            looks = [call(e["i"], e["o"], r.choice(NAMES[1:4]) if e["m"][0] == "n" else e["m"]) for e in inv["entries"]]
            looks += [call(i, o, m) for i in (1, 2, 3, 4, 6, 7, 8, 9, 10, 5, 11) for o in (5, 3, 4, 1, 2, 6, 7, 8, 9, 10, 11) for m in r.sample(NAMES, 2)]
        else:
            looks = [call(i, o, m) for i in INS.values() for o in OUTS.values() for m in NAMES[:5]] + [call(1, 5, "nosuch")]
        r.shuffle(looks)
        j["seqs"].append(looks)
    traces = 0
    samples = []

    def run(j):
        out = c.drive("lookup.py", j)
        return out[:-1], out[-1]["invs"]

    n = ev = 0
    for ts, iv in c.parallel(run, jobs):
        rej = c.validate("RegridTrace", ts, files={"invs.ndjson": "\n".join(map(json.dumps, iv)) + "\n"}, jobs=6)
        c.report_rejects("Inventory", rej)
        n += len(ts)
        ev += sum(len(t["ev"]) for t in ts)
        samples = samples or [iv[5], ts[5]["ev"][:3]]
    return c.finish(states=c.states, transitions=c.transitions, traces_validated_against_impl=n, indexes=len(invs), indexes_in_model=total,
                    lookups=ev, samples=samples)


main("C18", "model_checking", check)
