"""Checks C02, C03, C04: the in-memory weights cache (spec/MemCache*.tla)."""

import itertools

from vlib import Graph, main, tla

# rows/cols of the target grids and increments
LL = [((3, 4), 90), ((4, 6), 60), ((5, 8), 45), ((6, 10), 36), ((7, 12), 30), ((10, 18), 20)]


def make_keys(nnzs, est):
    keys = []
    for n, nnz in enumerate(nnzs):
        rows, d = LL[n]
        b = 12 * nnz + 4 * (rows[0] * rows[1] + 1)
        keys.append(dict(rows=rows, d=d, nnz=nnz, bytes=b, est=b if est[n] is None else (est[n] if est[n] < 2 else b + est[n])))
    sums = [sum(k["bytes"] for k in c) for r in range(len(keys) + 1) for c in itertools.combinations(keys, r)]
    assert len(set(sums)) == len(sums)
    return keys


def inst(keys, fail):
    n = range(1, len(keys) + 1)
    return (
        "---- MODULE MemCacheInst ----\nEXTENDS Integers\n"
        f"IKeys == 1..{len(keys)}\nISize == {tla([k['bytes'] for k in keys])}\n"
        f"IEst == {tla([max(k['est'], 0) for k in keys])}\nFailKeys == {tla(set(fail))}\n"
        f"Right == {tla({i for i in n if keys[i-1]['est'] == keys[i-1]['bytes']})}\n====\n"
    )


CONST = "CONSTANTS\n Keys <- IKeys\n Size <- ISize\n Est <- IEst\n Limits = {%s}\n Enforce = {%s}\n"
PROPS = """INVARIANT LimitInv
INVARIANT OffInv
INVARIANT NoDupInv
PROPERTY PLru
PROPERTY PLargest
PROPERTY PUnlimited
PROPERTY PRoom
PROPERTY PStrict
PROPERTY PLooseServed
PROPERTY PKept
"""


def explore(c, keys, limits, fail, enforce):
    lims = ", ".join(map(str, limits))
    i = inst(keys, fail)
    cfg = "SPECIFICATION MCSpec\nVIEW View\nCHECK_DEADLOCK FALSE\n" + CONST % (lims, '"victims", "strict", "reuse"')
    r = c.tlc("MemCacheMC", cfg + PROPS + "ACTION_CONSTRAINT Edge\n", files={"MemCacheInst.tla": i}, mem="4g")
    g = Graph(r)
    c.say(f"model: {r.distinct} states, {g.n} transitions")
    return g, i, CONST % (lims, ", ".join(f'"{e}"' for e in enforce))


def random_ops(c, keys, limits, n, fail, conf=0.12):
    r, ops = c.rng, []
    st = ["largest", max(limits), False]
    hot = None
    for _ in range(n):
        x = r.random()
        if x < conf:
            k = r.randrange(4)
            if k == 0 or st[0] in ("off",):
                st[0] = r.choice(["lru", "largest", "lru", "largest", "unlimited", "off"])
            elif k == 1:
                st[1] = r.choice(limits)
            elif k == 2:
                st[2] = not st[2]
            else:
                st = [r.choice(["lru", "largest"]), r.choice(limits), r.random() < 0.4]
            ops.append(dict(op="conf", p=st[0], l=st[1], s=st[2]))
        elif x < conf + 0.01:
            ops.append(dict(op="clear"))
        elif x < conf + 0.03 and fail:
            ops.append(dict(op="fail", k=r.choice(fail)))
        elif x < conf + 0.05:
            ops.append(dict(op="none", k=1))
        else:
            if hot is None or r.random() < 0.3:
                hot = r.sample(range(1, len(keys) + 1), min(3, len(keys)))
            ops.append(dict(op="look", k=r.choice(hot) if r.random() < 0.8 else r.randrange(1, len(keys) + 1)))
    return ops


def run_seqs(c, keys, limits, seqs, i, const):
    init = ["largest", max(limits), False]
    parts = [seqs[k::8] for k in range(8) if seqs[k::8]]
    traces = []
    for t in c.parallel(lambda s: c.drive("memcache.py", dict(keys=keys, init=init, seqs=s)), parts):
        traces += t
    rej = c.validate("MemCacheTrace", traces, const, files={"MemCacheInst.tla": i}, jobs=6)
    c.report_rejects("MemCache", rej)
    return traces


def family(pid, enforce):
    def check(c):
        total = [0, 0]
        samples = []

        def go(keys, limits, fail, tour_limit, nrand, lrand):
            g, i, const = explore(c, keys, limits, fail, enforce)
            seqs = g.tour(c.rng, maxlen=120, limit=tour_limit)
            seqs += [random_ops(c, keys, limits, lrand, fail) for _ in range(nrand)]
            t = run_seqs(c, keys, limits, seqs, i, const)
            total[0] += len(t)
            total[1] += sum(len(x["ev"]) for x in t)
            samples.append(t[0]["ev"][:4])
            return g.covered, g.n

        # right estimates, limits around the interesting sums
        k3 = make_keys([5, 9, 20], [None, None, None])
        a, b, d = (k["bytes"] for k in k3)
        cov1 = go(k3, [a + b, d - 4, a + b + d, a, d], [2], None, 8, 150)
        # missing (-1), too small and too large estimates
        k4 = make_keys([5, 9, 20, 16], [None, -1, None, 300])
        s = [k["bytes"] for k in k4]
        cov2 = go(k4, [s[0] + s[1], s[3] + s[0], sum(s) - 1], [1], None if c.thorough else 2500, 8, 150)
        if c.thorough:
            k5 = make_keys([5, 9, 20, 16, 31], [None, 1, None, None, -1])
            s = [k["bytes"] for k in k5]
            go(k5, [s[0] + s[1] + s[2], s[4] - 1], [5], 40000, 100, 400)
            k6 = make_keys([4, 8, 17, 13, 30, 50], [None] * 6)
            s = [k["bytes"] for k in k6]
            lim = [s[0] + s[1] + s[2], s[4] + s[5], sum(s) - s[0], s[3]]
            i = inst(k6, [3])
            const = CONST % (", ".join(map(str, lim)), ", ".join(f'"{e}"' for e in enforce))
            t = run_seqs(c, k6, lim, [random_ops(c, k6, lim, 600, [3]) for _ in range(120)], i, const)
            total[0] += len(t)
            total[1] += sum(len(x["ev"]) for x in t)
        c.assumptions = [
            "weights sizes are distinct, so that the retained ones follow from the reported total",
            "the memory cache is observed through regrid() and memory_cache_info() only",
        ]
        return c.finish(
            states=c.states, transitions=c.transitions, traces_validated_against_impl=total[0], events_validated=total[1],
            model_transitions_replayed=cov1[0] + cov2[0], model_transitions=cov1[1] + cov2[1], samples=samples,
        )

    main(pid, "model_checking", check)
