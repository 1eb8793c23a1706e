import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import MachineryError, main

P, M, S = "weights-memory-cache-policy", "maximum-weights-memory-cache-size", "weights-memory-cache-strict-mode"
T, K, D = "url-download-timeout", "check-out-of-date-urls", "maximum-cache-size"
OPTIONS = [P, M, S, T, K, D]
GOOD = {P: ["s:lru", "s:largest", "s:unlimited", "s:off"], M: ["i:2048", "s:1K", "s:1T", "i:1400"], S: ["b:True", "s:off"], T: ["i:10", "s:1m", "s:2h", "s:45"], K: ["b:True", "s:yes", "b:False"], D: ["i:2048", "s:3 k", "n:"]}
BAD = {P: ["s:bad"], M: ["n:", "i:0"], S: ["s:maybe"], T: ["s:soon"], K: ["s:perhaps"], D: ["s:many"]}
FLAGS = ["Locked", "Own", "Whole", "CopyLocked", "NoGap", "Snapshot"]


def item(o, v):
    return dict(o=o, v=v)


def put(*x, form=0):
    return dict(op="set", items=[item(*y) for y in x], form=form)


def get(o):
    return dict(op="get", o=o)


def reset(o):
    return dict(op="reset", o=o)


class Ids:
    def __init__(self):
        self.n = 0

    def block(self, items, body):
        self.n += 1
        return [dict(op="enter", id=self.n, items=items)] + body + [dict(op="exit", id=self.n)]

    def crossed(self, items, items2):
        """Two temporary configurations of one thread which are not left innermost first."""
        self.n += 2
        return [dict(op="enter", id=self.n - 1, items=items), dict(op="enter", id=self.n, items=items2), dict(op="exit", id=self.n - 1), get(items[0]["o"] if items else T), dict(op="exit", id=self.n)]


def fixed():
    ids = Ids()
    B = lambda items, *body: ids.block([item(*x) for x in items], list(body))
    L = [
        (B([(T, "i:10")], get(T)), B([(T, "s:1m")], get(T), get(T))),
        (B([(T, "i:10")], get(T)), [get(T), get(T), get(T)]),
        (B([(M, "n:")]), [put((T, "s:2h")), get(T)]),
        (B([(M, "n:")]), [get(M), put((P, "s:lru")), get(P)]),
        (B([(P, "s:off"), (M, "n:")], put((T, "i:10"))), B([], put((T, "s:1m")), get(T), get(P))),
        ([put((T, "s:1m"))], [reset(T)], [get(T), get(T)]),
        ([put((T, "s:1m")), reset("*")], [get(T), get(P)], [put((T, "s:2h"), (P, "s:lru"))]),
        ([put((T, "s:1m"), (M, "n:"))], B([], get(T))),
        ([put((T, "s:1m"), (P, "s:bad"))], B([(P, "s:off")], get(T), put((T, "i:10")))),
        ([put((T, "s:1m"), (M, "i:0"))], [put((T, "s:2h"))], [get(T), get(T)]),
        ([put((T, "s:1m")), get(T)], [put((K, "b:True")), get(K)], [put((D, "i:2048")), get(D)]),
        (B([(T, "i:10")]), B([(T, "s:1m")]), B([(T, "s:2h")], get(T))),
        (B([(T, "i:10"), (P, "s:bad")]), B([(T, "s:1m")], reset(T), get(T))),
        (B([(P, "s:off")], reset("*"), get(P)), B([(P, "s:lru")], get(P), reset(P))),
        (B([], *B([(T, "i:10")], get(T))), [put((T, "s:1m")), put((T, "s:2h"))]),
        ([reset(P), get(P)], [put((P, "s:unlimited"), (M, "n:"))], [put((P, "s:lru"))]),
    ]
    return [dict(threads=list(th), setup=[], env={}) for th in L]


def random_thread(rng, k, n):
    def items(m, bad):
        os_ = rng.sample(OPTIONS, m)
        return [item(o, rng.choice(BAD[o] if rng.random() < bad else GOOD[o])) for o in os_]

    ids = Ids()
    ids.n = 100 * k

    def ops(n, depth):
        r = []
        while n > 0:
            n -= 1
            x = rng.random()
            if x < 0.3:
                r.append(get(rng.choice(OPTIONS)))
            elif x < 0.55:
                r.append(dict(op="set", items=items(rng.choice([1, 1, 2, 3]), 0.2), form=rng.randrange(3)))
            elif x < 0.68:
                r.append(reset(rng.choice(OPTIONS + ["*"])))
            elif x < 0.75 and depth == 0:
                r += ids.crossed(items(1, 0), items(1, 0))
            elif depth < 2:
                r += ids.block(items(rng.choice([0, 1, 2]), 0.15), ops(rng.choice([0, 1, 2]), depth + 1))
        return r

    return ops(n, 0)


def check(c):
    t, rng = c.thorough, c.rng
    cfg = "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS\n Procs = {%s}\n Progs <- %s\n" + "".join(f" {f} = %s\n" for f in FLAGS) + "INVARIANT InStep Fine Over\nPROPERTY Refines\n"
    c.tlc("ConfigConcMC", cfg % (("1, 2", "Many") + ("TRUE",) * 6), workers=4)
    c.tlc("ConfigConcMC", cfg % (("1, 2, 3", "Few" if not t else "Many") + ("TRUE",) * 6), workers=8, mem="12g")
    for f in FLAGS:
        if c.tlc("ConfigConcMC", cfg % (("1, 2", "Few") + tuple("FALSE" if f == x else "TRUE" for x in FLAGS)), workers=4, expect_ok=False).ok:
            raise MachineryError(f"the model does not see that {f} is needed")
    every, rnd = (1, 400) if t else (3, 50)
    scs = fixed()
    for _ in range(120 if t else 16):
        n = rng.choice([2, 2, 3])
        scs.append(dict(threads=[random_thread(rng, k, rng.choice([1, 2, 3])) for k in range(1, n + 1)], setup=[put((T, "s:45"))] if rng.random() < 0.3 else [], env={T: "s:2h"} if rng.random() < 0.15 else {}))
    for k, s in enumerate(scs):
        s["env"] = {**s["env"], "cache-policy": "s:off"}
        s.update(auto=k % 4 == 3, every=min(every, 2) if k < 16 else every, random=rnd, seed=rng.randrange(10**9))
    out = [x for ts in c.parallel(lambda s: c.drive("confconc.py", dict(options=OPTIONS, scenarios=s)), [scs[k::8] for k in range(8)]) for x in ts]
    info = [x["info"] for x in out if "info" in x]
    traces = [x for x in out if "ev" in x]
    c.say(f"{len(scs)} scenarios, {sum(x['schedules'] for x in info)} schedules, {sum(x['steps'] for x in info)} steps, {len(traces)} different histories")
    const = "CONSTANTS\n Options = {%s}\n" % ", ".join(f'"{o}"' for o in OPTIONS)
    c.report_rejects("Config (linearizability)", c.validate("ConfigLinTrace", traces, const, jobs=8))
    return c.finish(states=c.states, transitions=c.transitions, traces_validated_against_impl=len(traces), scenarios=len(scs), schedules=sum(x["schedules"] for x in info), scheduling_points=sum(x["steps"] for x in info), samples=traces[0]["ev"][:6])


main("C26", "model_checking", check)
