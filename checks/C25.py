import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import main

BAD = ["missing", "forbidden", "error", "cut", "cut", "cut", "gone"]


def random_history(rng, length, faults, deaths):
    us = rng.choice([[1], [1], [1, 2], [1, 2, 3, 4, 5, 6]])
    v = {u: 1 for u in us}
    ops = []

    def pub(u, ok=False):
        st = "ok" if ok or rng.random() >= faults else rng.choice(BAD)
        # gone: neither HEAD nor GET
        ops.append(dict(op="pub", u=u, v=v[u], st=st, head=rng.random() < 0.85, tag=rng.random() < 0.8))

    for u in us:
        pub(u)
    for _ in range(length):
        x, u = rng.random(), rng.choice(us)
        if x < 0.5:
            how = rng.choice(["die", "stop"]) if rng.random() < deaths else ""
            ops.append(dict(op="get", u=u, force=rng.random() < 0.15, upd=rng.random() < 0.4, how=how, at=rng.randint(1, 10)))
        elif x < 0.75:
            if rng.random() < 0.6:
                v[u] += 1
            pub(u)
        elif x < 0.9:
            ops.append(dict(op="conf", chk=rng.random() < 0.7, dl=rng.random() < 0.5))
        elif x < 0.96:
            ops.append(dict(op="session"))
        else:
            ops.append(dict(op="lose", u=u))
    return dict(ops=ops, seed=rng.randrange(10**9))


def table():
    """Every combination of what decides about a download."""
    hs = []
    for chk in (False, True):
        for dl in (False, True):
            for upd in (False, True):
                for force in (False, True):
                    for st in ("ok", "missing", "cut", "gone"):
                        for changed in (0, 1, 2):
                            for head, tag in ((True, True), (False, True), (True, False)):
                                ops = [dict(op="pub", u=1, v=1, st="ok", head=True, tag=True), dict(op="get", u=1, force=False, upd=False, how="", at=1), dict(op="conf", chk=chk, dl=dl),
                                       dict(op="pub", u=1, v=1 + changed, st=st, head=head, tag=tag), dict(op="get", u=1, force=force, upd=upd, how="", at=3),
                                       dict(op="pub", u=1, v=1 + changed, st="ok", head=True, tag=True), dict(op="get", u=1, force=False, upd=upd, how="", at=2), dict(op="get", u=1, force=False, upd=False, how="", at=2)]
                                hs.append(ops)
    return hs


def check(c):
    t, rng = c.thorough, c.rng
    c.tlc("DownloadMC", f"SPECIFICATION MCSpec\nCONSTANT Parts = {3 if t else 2}\nCONSTANT MaxV = {4 if t else 3}\nCONSTANT Racy = FALSE\nINVARIANT Whole PartInv\nPROPERTY ReplaceProp Abstract\nCHECK_DEADLOCK FALSE\n", workers=8)
    tab = table()
    if not t:
        tab = rng.sample(tab, 150)
    hs = [dict(ops=x, seed=rng.randrange(10**9)) for x in tab]
    # interrupted at every chunk, then again, with and without a new version in between
    for how in ("die", "stop", "cut"):
        for at in range(1, 11):
            for new in (0, 1, 2, 4):
                for cached in (False, True):
                    ops = []
                    P = lambda v, st="ok": ops.append(dict(op="pub", u=1, v=v, st=st, head=True, tag=True))
                    G = lambda how="", force=False: ops.append(dict(op="get", u=1, force=force, upd=False, how=how, at=at))
                    if cached:
                        P(1)
                        G()
                    if how == "cut":
                        P(1, "cut")
                        G("", cached)
                    else:
                        P(1)
                        G(how, cached)
                    if new == 4:
                        G(how if how != "cut" else "", cached)
                        new = 1
                    P(1 + new)
                    G("", cached and at % 2 == 0)
                    G()
                    hs.append(dict(ops=ops, seed=rng.randrange(10**9)))
    for _ in range(2500 if t else 150):
        hs.append(random_history(rng, rng.choice([5, 12, 25]), rng.choice([0, 0.3, 0.6]), rng.choice([0, 0.2, 0.5])))
    # death at the executed lines of the code
    for cached in (False, True):
        for new in (0, 1):
            for line in range(1, 420, 1 if t else 7):
                ops = [dict(op="pub", u=1, v=1, st="ok", head=True, tag=True)]
                if cached:
                    ops.append(dict(op="get", u=1, force=False, upd=False, how="", at=1))
                if line % 3 == 0:
                    ops.append(dict(op="conf", chk=True, dl=True))
                ops += [dict(op="get", u=1, force=cached, upd=False, how="die", at=99, line=line), dict(op="pub", u=1, v=1 + new, st="ok", head=True, tag=True),
                        dict(op="conf", chk=line % 2 == 0, dl=True), dict(op="get", u=1, force=cached, upd=False, how="", at=1), dict(op="get", u=1, force=False, upd=False, how="", at=1)]
                hs.append(dict(ops=ops, seed=rng.randrange(10**9)))
    rng.shuffle(hs)
    traces = [x for ts in c.parallel(lambda j: c.drive("download.py", j), [dict(seqs=hs[k::8]) for k in range(8)]) for x in ts]
    c.report_rejects("Download", c.validate("DownloadTrace", traces, jobs=8))
    ev = [e for x in traces for e in x["ev"]]
    g = [e for e in ev if e["op"] == "get"]
    return c.finish(states=c.states, transitions=c.transitions, traces_validated_against_impl=len(traces), requests=len(g), downloads=sum(e["gets"] > 0 for e in g),
                    interrupted=sum(e["err"] in ("die", "stop") for e in g), failed=sum(e["err"] == "fail" for e in g), resumed=sum(e["resumed"] for e in g), samples=traces[0]["ev"][:4])


main("C25", "model_checking", check)
