import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import MachineryError, main

METHOD = {1: "linear", 2: "linear", 3: "linear", 4: "nearest-neighbour", 5: "grid-box-average", 6: "grid-box-average", 7: "grid-box-average", 8: "nearest-neighbour"}


def cfg(adds, deaths, atomic=True, first=True):
    b = lambda x: "TRUE" if x else "FALSE"
    return (f"SPECIFICATION Spec\nCONSTANTS\n Keys = {{1, 2}}\n Adds = {adds}\n Deaths = {deaths}\n Atomic = {b(atomic)}\n WeightsFirst = {b(first)}\n"
            "INVARIANT Usable Kept Recorded\nPROPERTY Others\nCHECK_DEADLOCK FALSE\n")


def additions(rng, t):
    code = 0
    gs = rng.sample(range(1, 13), rng.choice([2, 2, 3]))
    keys = []

    def add(key=None):
        nonlocal code
        code += 1
        key = key or (rng.choice(gs), rng.choice(gs), rng.randint(1, 8))
        keys.append(key)
        ask = [[x[0], x[1], METHOD[x[2]]] for x in rng.sample(sorted(set(keys)), min(2, len(set(keys))))]
        return dict(op="add", i=key[0], o=key[1], s=key[2], code=code, ask=ask)

    before = [add() for _ in range(rng.choice([0, 1, 2, 3]))]
    op = add(rng.choice(keys) if keys and rng.random() < 0.5 else None)
    after = [add(rng.choice(keys) if rng.random() < 0.6 else None) for _ in range(rng.choice([1, 2]))]
    return dict(before=before, op=op, after=after)


def makings(rng, t):
    code = 0

    def make(x=None):
        nonlocal code
        code += 1
        return dict(op="make", code=code, coords=x or rng.randrange(3), points=p, grids=rng.choice([1, 2]))

    p = rng.choice([3, 8, 40])
    before = [make() for _ in range(rng.choice([0, 0, 1]))]
    op = make()
    return dict(before=before, op=op, after=[dict(make(), coords=op["coords"]) for _ in range(rng.choice([1, 2]))])


def check(c):
    t, rng = c.thorough, c.rng
    c.parallel(lambda x: c.tlc("BuilderCrash", x, workers=2), [cfg(5, 3), cfg(7, 4)] if t else [cfg(4, 2)], 2)
    for x in c.parallel(lambda x: c.tlc("BuilderCrash", x, expect_ok=False), [cfg(3, 1, atomic=False), cfg(3, 1, first=False)], 2):
        if x.ok:
            raise MachineryError("a broken protocol is not refused")
    seqs = [dict(f(rng, t), every=1 if t else 5, limits=60 if t else 10, seed=rng.randrange(10**9)) for f, n in ((additions, 32), (makings, 16)) for _ in range(n * (5 if t else 1))]
    rng.shuffle(seqs)
    traces = [x for ts in c.parallel(lambda s: c.drive("buildcrash.py", dict(seqs=s)), [seqs[k::8] for k in range(8)]) for x in ts]
    c.report_rejects("BuilderCrash", c.validate("BuilderCrashTrace", traces, jobs=8))
    n = lambda r: sum(e["res"] == r for x in traces for e in x["ev"])
    return c.finish(states=c.states, transitions=c.transitions, traces_validated_against_impl=len(traces), sequences=len(seqs), completed=n("done"), failed=n("failed"), died=n("died"),
                    samples=traces[0]["ev"][-1:])


main("C28", "model_checking", check)
