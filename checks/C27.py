import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import MachineryError, main

T, K, D, P = "url-download-timeout", "check-out-of-date-urls", "maximum-cache-size", "weights-memory-cache-policy"
DEFAULTS = {T: "s:30s", K: "b:False", D: "s:5GB", P: "s:largest"}
VALUES = {T: ["i:10", "s:1m", "s:2h", "s:45"], K: ["b:True"], D: ["i:2048", "n:", "s:3 k"], P: ["s:lru", "s:off"]}
FILE = "# mine\nurl-download-timeout: 2h\ncheck-out-of-date-urls: true\nversion: '9'\n"


def put(*x):
    return dict(op="set", items=[dict(o=o, v=v) for o, v in x])


def reset(o):
    return dict(op="reset", o=o)


def fixed():
    return [
        (False, [[], []]), (False, [[put((T, "i:10"))], [put((K, "b:True"))]]), (True, [[put((T, "i:10"))], [put((T, "s:1m"))], [put((D, "n:"))]]),
        (True, [[put((T, "i:10"), (P, "s:lru"))], []]), (False, [[put((T, "i:10"))], [], []]), (True, [[reset("*")], [put((K, "b:False"))]]),
        (True, [[put((T, "i:10")), put((T, "s:1m"))], [put((P, "s:off")), reset(T)]]), (False, [[put((T, "s:45"))], [put((T, "s:1m"))], [reset("*")]]),
    ]


def rand(rng):
    def op():
        if rng.random() < 0.2:
            return reset(rng.choice([T, K, D, P, "*"]))
        return put(*((o, rng.choice(VALUES[o])) for o in rng.sample(list(VALUES), rng.choice([1, 1, 2, 3]))))

    return rng.random() < 0.5, [[op() for _ in range(rng.choice([0, 1, 1, 2]))] for _ in range(rng.choice([2, 3, 3, 4]))]


def cfg(procs, saves, deaths, lock=True, atomic=True, held=True, recheck=True, live=False):
    b = lambda x: "TRUE" if x else "FALSE"
    return (f"SPECIFICATION {'FairSpec' if live else 'Spec'}\nCONSTANTS\n Procs = {{{procs}}}\n Saves = {saves}\n Deaths = {deaths}\n Lock = {b(lock)}\n Atomic = {b(atomic)}\n UnlinkHeld = {b(held)}\n Recheck = {b(recheck)}\nCHECK_DEADLOCK FALSE\n"
            + ("PROPERTY Served\n" if live else "INVARIANT OnlyWhole Kept OneWriter Tidy\nPROPERTY Stays NoneLost\n"))


def check(c):
    t, rng = c.thorough, c.rng
    good = [cfg("1, 2", 2, 1), cfg("1, 2", 1, 1, live=True), cfg("1, 2, 3", 1, 0)]
    if t:
        good += [cfg("1, 2, 3", 1, 1), cfg("1, 2, 3", 1, 2), cfg("1, 2", 2, 2, live=True)]
    bad = [cfg("1, 2", 1, 1, lock=False), cfg("1, 2", 1, 0, atomic=False), cfg("1, 2, 3", 1, 0, held=False), cfg("1, 2", 1, 0, recheck=False)]
    c.parallel(lambda x: c.tlc("ConfigFile", x, workers=2), good, 4)
    for x in c.parallel(lambda x: c.tlc("ConfigFile", x, expect_ok=False), bad, 4):
        if x.ok:
            raise MachineryError("a broken protocol is not refused")
    scs = []
    for first, procs in fixed() + [rand(rng) for _ in range(60 if t else 8)]:
        scs.append(dict(first=first, procs=procs, every=1 if t else 7, kill=1 if t else 5, random=400 if t else 20, files=600 if t else 25, seed=rng.randrange(10**9)))
    rng.shuffle(scs)
    out = [x for ts in c.parallel(lambda s: c.drive("conffile.py", dict(options=list(DEFAULTS), defaults=DEFAULTS, file=FILE, scenarios=s)), [scs[k::16] for k in range(16)]) for x in ts]
    info = [x["info"] for x in out if "info" in x]
    traces = [x for x in out if "ev" in x]
    c.say(f"{len(scs)} groups of processes, {sum(x['schedules'] for x in info)} schedules, {sum(x['steps'] for x in info)} steps, {len(traces)} different histories")
    c.report_rejects("ConfigFile", c.validate("ConfigFileTrace", traces, jobs=8))
    return c.finish(states=c.states, transitions=c.transitions, traces_validated_against_impl=len(traces), groups=len(scs), schedules=sum(x["schedules"] for x in info),
                    scheduling_points=sum(x["steps"] for x in info), kills=sum(x["kills"] for x in info), samples=traces[0]["ev"][:6])


main("C27", "model_checking", check)
