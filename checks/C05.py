import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from memcache_family import CONST, inst, make_keys
from vlib import MachineryError, main


def scenarios(rng, sizes, n, bad, every, random, nt):
    a, b, d = sizes
    lims = [a + b, d - 4, a + b + d, a]
    out = []
    L = lambda k: dict(op="fail" if k in bad else "look", k=k)

    def op(rng, conf):
        x = rng.random()
        if x < 0.55:
            return L(rng.choice([1, 2, 3]))
        if x < 0.63:
            return dict(op="info")
        if x < 0.71:
            return dict(op="clear")
        if x < 0.76:
            return dict(op="none")
        if not conf:
            return L(1)
        return rng.choice([dict(op="conf", p=rng.choice(["lru", "largest", "unlimited", "off"]), l=rng.choice(lims), s=rng.random() < 0.4), dict(op="setpol", p=rng.choice(["lru", "largest", "unlimited", "off"])),
                           dict(op="setlim", l=rng.choice(lims)), dict(op="setstrict", s=rng.random() < 0.6), dict(op="badconf", s=rng.random() < 0.5, k=rng.randrange(2))])

    for _ in range(n):
        init = [rng.choice(["lru", "largest", "unlimited", "lru", "largest", "off"]), rng.choice(lims), rng.random() < 0.3]
        t = rng.choice(nt)
        threads = [[op(rng, True) for _ in range(rng.choice([1, 1, 2, 3]))] for _ in range(t)]
        out.append(dict(init=init, setup=[L(rng.choice([1, 2, 3])) for _ in range(rng.randrange(3))], threads=threads, bad=bad, probe=[1, 2, 3], every=every, random=random, seed=rng.randrange(10**9)))
    return out


def fixed(sizes, every, random, rng):
    """The pairs of calls that matter most."""
    a, b, d = sizes
    L = lambda k: dict(op="look", k=k)
    C = lambda p, l, s=False: dict(op="conf", p=p, l=l, s=s)
    T = [
        ([L(1)], [L(1)]), ([L(1)], [L(2)]), ([L(1)], [L(1)], [L(1)]), ([L(1), L(1)], [dict(op="clear")]), ([L(1)], [dict(op="setpol", p="off")]),
        ([L(3)], [dict(op="setlim", l=a)]), ([L(3), L(1)], [L(2), L(3)]), ([dict(op="setlim", l=a)], [dict(op="setstrict", s=True)]),
        ([dict(op="setpol", p="lru")], [dict(op="badconf", s=True, k=0)]), ([dict(op="setpol", p="lru")], [dict(op="setpol", p="largest")], [L(2)]),
        ([L(1)], [dict(op="info"), dict(op="info")]), ([L(3)], [dict(op="setstrict", s=True)]), ([dict(op="none")], [L(1)]), ([C("off", a)], [C("lru", a + b)], [L(1)]),
        ([C("unlimited", a + b), L(3)], [L(1), L(2)]), ([dict(op="clear")], [C("largest", a + b + d)], [L(1), dict(op="info")]),
    ]
    r = []
    for k, th in enumerate(T):
        for init in ([["lru", a + b, False], ["largest", a + b + d, False], ["unlimited", a + b, False], ["off", a + b, False], ["largest", d - 4, True]]):
            r.append(dict(init=init, setup=[L(2)] if k % 2 else [], threads=[list(x) for x in th], bad=[], probe=[1, 2, 3], every=every, random=random, seed=rng.randrange(10**9)))
    return r


def check(c):
    t, rng = c.thorough, c.rng
    # the protocol of the locks refines the sequential cache
    cfg = "SPECIFICATION Spec\nCONSTANTS\n Procs = {%s}\n Ops <- COps\n Locked = %s\n Keys = {1, 2, 3}\n Size <- CSize\n Est <- CEst\n Limits = {4, 5}\nINVARIANT ReadOnce Fits InStep NoDup\nPROPERTY Refines OwnerOnly\n"
    c.tlc("MemCacheConcMC", cfg % ("1, 2, 3, 4" if t else "1, 2, 3", "TRUE"), workers=8)
    if c.tlc("MemCacheConcMC", cfg % ("1, 2", "FALSE"), expect_ok=False).ok:
        raise MachineryError("the model does not see that the lock is needed")
    keys = make_keys([5, 9, 20], [None, None, None])
    sizes = [k["bytes"] for k in keys]
    a, b, d = sizes
    i = inst(keys, [2])
    const = CONST % (", ".join(map(str, [a + b, d - 4, a + b + d, a])), '"victims", "strict", "reuse"')
    every, rnd = (1, 400) if t else (11, 45)
    scs = fixed(sizes, every, rnd, rng)
    if not t:
        scs = rng.sample(scs, 40)
    scs += scenarios(rng, sizes, 200 if t else 30, [], every, rnd, [2, 2, 3]) + scenarios(rng, sizes, 60 if t else 10, [2], every, rnd, [2, 3]) + scenarios(rng, sizes, 40 if t else 4, [1, 3], every, rnd, [3, 4])
    out = [x for ts in c.parallel(lambda s: c.drive("conc.py", dict(keys=keys, scenarios=s)), [scs[k::8] for k in range(8)]) for x in ts]
    info = [x["info"] for x in out if "info" in x]
    traces = [x for x in out if "ev" in x]
    c.say(f"{len(scs)} scenarios, {sum(x['schedules'] for x in info)} schedules, {sum(x['steps'] for x in info)} steps, {len(traces)} different histories")
    c.report_rejects("MemCache (linearizability)", c.validate("MemCacheLinTrace", traces, const, files={"MemCacheInst.tla": i}, jobs=8))
    return c.finish(states=c.states, transitions=c.transitions, traces_validated_against_impl=len(traces), scenarios=len(scs), schedules=sum(x["schedules"] for x in info), scheduling_points=sum(x["steps"] for x in info), samples=traces[0]["ev"][:6])


main("C05", "model_checking", check)
