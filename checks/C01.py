import json
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import Graph, main

METHODS = ["linear", "nearest-neighbour"]
VALS = ["f8", "f4", "i4", "2d", "fortran", "strided", "reversed", "readonly"]


def inventories(ins, outs, full):
    """A and B hold weights for the same pairs, C and D for some of them only."""
    invs, code = [], 0
    for n in range(4):
        ents = []
        for a, i in enumerate(ins):
            for b, o in enumerate(outs):
                for d, m in enumerate(METHODS + ["grid-box-average"]):
                    code += 1
                    if n == 2 and (a + b + d) % 2 or n == 3 and (a + b + d) % 3 == 0:
                        continue
                    ents.append(dict(c="methoddict" if d == 2 else "ok", i=i, o=o, m=m, code=code))
        invs.append(dict(version=1, entries=ents))
    return invs


def check(c):
    r = c.rng
    # histories from the model: every set of up to two retained keys, then every lookup
    g = Graph(c.tlc("RegridMC", "SPECIFICATION Spec\nVIEW View\nCHECK_DEADLOCK FALSE\nCONSTRAINT Bound\nACTION_CONSTRAINT Edge\nINVARIANT KeyInv\n"
                    "CONSTANTS\n NInv = 2\n NIn = 2\n NOut = 2\n Methods = {\"linear\", \"nearest-neighbour\"}\n"
                    " MaxKept = 2\n Policies = {\"unlimited\", \"off\", \"lru\"}\n", mem="4g"))
    c.say(f"model: {len(g.edges)} states, {g.n} transitions")
    alias = {"nearest-neighbour": ["nearest-neighbour", "nn", "nearest-neighbor"]}
    jobs = []
    sets = [((2, 3), (5, 1)), ((4, 6), (3, 6)), ((1, 2), (5, 11)), ((5, 7), (4, 7)), ((3, 6), (1, 2)), ((8, 4), (9, 10)), ((3, 6), (6, 3)), ((2, 1), (1, 2))]
    seqs = g.tour(r, maxlen=150)
    for n, (ins, outs) in enumerate(sets):
        mine = seqs if c.thorough else seqs[n :: len(sets)]
        invs = inventories(ins, outs, True)
        lims = [100000000, 1500, 400]
        ss = []

        def call(inv, i, o, m):
            return dict(op="regrid", inv=inv, i=i, o=o, m=r.choice(alias.get(m, [m])), si=r.randrange(5), so=r.randrange(5),
                        api=r.choice(["array", "array", "interpolate"]), vals=r.choice(VALS), salt=r.randrange(20))

        for s in mine:
            # which two of the four inventories stand for the two of the model
            iv = r.choice([(1, 2), (2, 1), (1, 3), (4, 2)])
            t = []
            for o in s:
                if o["op"] == "regrid":
                    k = o["k"]
                    t.append(call(iv[k["inv"] - 1], ins[k["i"] - 1], outs[k["o"] - 1], k["m"]))
                elif o["op"] == "conf":
                    t.append(dict(op="conf", p=o["p"], l=100000000, s=False))
                else:
                    t.append(o)
            ss.append(t)
        for _ in range(60 if c.thorough else 6):
            t = []
            for _ in range(300):
                x = r.random()
                if x < 0.06:
                    t.append(dict(op="conf", p=r.choice(["lru", "largest", "unlimited", "off"]), l=r.choice(lims), s=r.random() < 0.3))
                elif x < 0.08:
                    t.append(dict(op="clear"))
                else:
                    t.append(call(r.randrange(1, 5), r.choice(ins), r.choice(outs), r.choice(METHODS + ["grid-box-average", "nosuch"])))
            ss.append(t)
        jobs.append(dict(invs=invs, seqs=ss))

    def run(j):
        out = c.drive("lookup.py", j)
        rej = c.validate("RegridTrace", out[:-1], files={"invs.ndjson": "\n".join(map(json.dumps, out[-1]["invs"])) + "\n"}, jobs=2)
        return out[:-1], rej

    n = ev = 0
    samples = []
    for ts, rej in c.parallel(run, jobs, 6):
        c.report_rejects("Inventory", rej)
        n += len(ts)
        ev += sum(len(t["ev"]) for t in ts)
        samples = samples or [ts[0]["ev"][:3]]
    c.assumptions = ["weights with integer values, so that results are exact and identify the weights they came from"]
    return c.finish(states=c.states, transitions=c.transitions, traces_validated_against_impl=n, calls=ev, model_transitions_replayed=g.covered,
                    samples=samples)


main("C01", "model_checking", check)
