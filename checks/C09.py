import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import main


def G(c, k=1, force=False, kind="file", slow=False, fail=False):
    return dict(op="get", c=c, k=k, force=force, kind=kind, slow=slow, fail=fail)


P = lambda c: dict(op="purge", c=c, k=0)
L = lambda c: dict(op="look", c=c, k=0)


def fixed():
    T = [
        [[G(1)], [G(2)]], [[G(1)], [G(2)], [G(3)]], [[G(1, force=True)], [G(2, force=True)], [G(3, force=True)]], [[G(1), G(1, force=True)], [G(2)]],
        [[G(1), G(1, force=True)], [G(2), G(2, force=True)], [G(3), G(3, force=True)]], [[G(1), G(1, force=True)], [G(2), G(2, force=True)], [G(3), P(3)]],
        [[G(1), G(1, force=True)], [G(2, force=True)]], [[G(1, fail=True), G(1)], [G(2)]], [[G(1, fail=True)], [G(2, fail=True)], [G(3)]],
        [[G(1, kind="dir")], [G(2, kind="dir")]], [[G(1), G(1, 2)], [G(2, 2), G(2)]], [[G(1), G(1)], [P(2)]], [[G(1, slow=True)], [P(2), P(2)]],
        [[G(1), G(1, force=True, slow=True)], [P(2), P(2)]], [[G(1)], [L(2), L(2)]], [[G(1, force=True), G(1, force=True)], [G(2), P(2)], [G(3, force=True)]],
    ]
    return T


def rand(rng):
    def op(c):
        x = rng.random()
        if x < 0.1:
            return P(c)
        if x < 0.15:
            return L(c)
        return G(c, k=rng.choice([1, 1, 1, 2]), force=rng.random() < 0.4, fail=rng.random() < 0.15, slow=rng.random() < 0.15)

    return [[op(c) for _ in range(rng.choice([1, 1, 2, 3]))] for c in range(1, rng.choice([2, 3, 3, 4]) + 1)]


def cfg(callers, forced, calls=2, deaths=1, purges=1, held=True, atomic=True, recheck=True, live=False):
    b = lambda x: "TRUE" if x else "FALSE"
    st = lambda x: "{" + ", ".join(map(str, x)) + "}"
    return (f"SPECIFICATION {'FairSpec' if live else 'Spec'}\nCONSTANTS\n Callers = {st(callers)}\n Forced = {st(forced)}\n Calls = {calls}\n Deaths = {deaths}\n Purges = {purges}\n"
            f" UnlinkHeld = {b(held)}\n Atomic = {b(atomic)}\n Recheck = {b(recheck)}\nCHECK_DEADLOCK FALSE\n" + ("PROPERTY Served\n" if live else "INVARIANT OneCreator OnlyComplete Answer Once\n"))


def model(c):
    """The protocol holds; without one of its parts it does not"""
    t = c.thorough
    good = [cfg([1, 2, 3], [], 1 if not t else 2), cfg([1, 2, 3], [1, 2, 3], 1), cfg([1, 2], [1], 2), cfg([1, 2], [1, 2], 1, live=True), cfg([1, 2, 3], [3], 1 if not t else 2)]
    if t:
        good += [cfg([1, 2, 3], [1, 2, 3], 2), cfg([1, 2, 3, 4], [3, 4], 1), cfg([1, 2, 3], [2], 1, live=True)]
    bad = [cfg([1, 2, 3], [1, 2, 3], 1, held=False), cfg([1, 2], [], 1, atomic=False), cfg([1, 2], [], 1, deaths=0, purges=0, recheck=False)]
    n = 0
    for x in c.parallel(lambda x: c.tlc("CacheFile", x, workers=2), good):
        n += x.distinct
    for x in c.parallel(lambda x: c.tlc("CacheFile", x, expect_ok=False), bad):
        assert not x.ok, "a broken protocol is not refused"
    c.say(f"the protocol: {len(good)} configurations, {n} states; {len(bad)} broken ones refused")


def check(c):
    model(c)
    t, rng = c.thorough, c.rng
    scs = []
    for th in fixed() + [rand(rng) for _ in range(60 if t else 8)]:
        for mode in ("processes", "threads"):
            p = mode == "processes"
            scs.append(dict(mode=mode, procs=th, every=(1 if t else 53) if p else (2 if t else 97), kill=1 if t else 29, random=(600 if t else 8) if p else (400 if t else 10), files=1500 if t else 30, seed=rng.randrange(10**9)))
    scs += [dict(mode="keys", keys=30, seed=rng.randrange(10**9)) for _ in range(80 if t else 10)]
    rng.shuffle(scs)
    out = [x for ts in c.parallel(lambda s: c.drive("cachefile.py", dict(scenarios=s)), [scs[k::16] for k in range(16)]) for x in ts]
    info = [x["info"] for x in out if "info" in x]
    traces = [x for x in out if "ev" in x]
    c.say(f"{len(scs)} groups of callers, {sum(x['schedules'] for x in info)} schedules, {sum(x['steps'] for x in info)} steps, {len(traces)} different histories")
    c.report_rejects("CacheFile", c.validate("CacheFileTrace", traces, jobs=8))
    return c.finish(states=c.states, transitions=c.transitions, traces_validated_against_impl=len(traces), groups=len(scs), schedules=sum(x["schedules"] for x in info),
                    scheduling_points=sum(x["steps"] for x in info), kills=sum(x["kills"] for x in info), samples=traces[0]["ev"][:6])


main("C09", "model_checking", check)
