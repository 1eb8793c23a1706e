import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import remote_family as fam
from vlib import Graph, main


def check(c):
    t, rng = c.thorough, c.rng
    fam.model(c, '{"ok", "bad"}', '{"ok", "bad"}', 5 if t else 4)
    fam.model(c, '{"ok", "bad"}', '{"ok"}', 5 if t else 4, vs="{1, 2}", hurt="TRUE")
    h = Graph(fam.model(c, '{"ok"}', '{"ok"}', 6 if t else 5, vs="{1, 2}", ps='{"a", "b"}', sessions="{1}", props=False, edges=True, hurt="TRUE"))
    g = Graph(fam.model(c, '{"ok", "bad"}', '{"ok", "bad"}', 4 if t else 3, vs="{1, 2}", ps='{"a", "b"}', sessions="{1}", props=False, edges=True))
    hs = fam.from_graph(c, g, 8000 if t else 800) + fam.from_graph(c, h, 8000 if t else 700)
    c.coverage["model_transitions_replayed"] = g.covered + h.covered
    c.coverage["model_transitions"] = g.n + h.n
    # every way for something to be wrong, at every point of a first or a later use, then put right
    good2, good4 = (dict(gz=dict(v=v, st="ok"), sha=dict(v=v, st="ok"), w={}) for v in (2, 4))
    cases = [("gz", x) for x in sorted(set(fam.GZ_BAD))] + [("sha", x) for x in sorted(set(fam.SHA_BAD))] + [("w", x) for x in sorted(set(fam.W_BAD))]
    for what, st in cases:
        for first in (True, False):
            for api in (True, False):
                for k in (1, 3):
                    if k == 3 and (what == "sha" or st in ("forbidden", "error", "garbage", "trunc") or what == "gz" and st == "cut"):
                        continue
                    ops = [dict(op="start", s=1, keep=rng.random() < 0.5), dict(op="start", s=2, keep=False)]
                    good = lambda v: dict(op="pub", k=k, gz=dict(v=v, st="ok"), sha=dict(v=v, st="ok"), w={})
                    bad = good(2)
                    if what == "w":
                        bad["w"] = {f: st for f in fam.FILES}
                    else:
                        bad[what] = dict(v=2, st=st)
                    look = lambda p, s=1: dict(op="look", k=k, s=s, p=p, api=api)
                    if not first:
                        ops += [good(1), look("a")]
                    ops += [bad, look("b"), look("a"), look("b", 2), look("c")]
                    if rng.random() < 0.5:
                        ops.append(dict(op="start", s=1, keep=False))
                    ops += [look("b"), good(2), look("b"), look("b", 2), look("a"), look("c"), good(4), look("c"), look("b"), dict(op="start", s=1, keep=False), look("b"), look("c")]
                    hs.append(dict(ops=ops, seed=rng.randrange(10**9)))
    # files of the cache damaged in every way, found so by a session at any point, and removed or replaced then
    for what in ("hurti", "hurtw"):
        for how in range(4):
            for mend in ("purge", "lose", "pub"):
                for when in range(3):
                    k, api, keep = rng.choice([1, 2]), rng.random() < 0.7, what == "hurti" and rng.random() < 0.5
                    look = lambda p, s=1: dict(op="look", k=k, s=s, p=p, api=api)
                    ops = [dict(op="start", s=1, keep=keep), dict(op="start", s=2, keep=False), look("a", 2)]
                    if when:
                        ops.append(look("a"))
                    if when == 2:
                        ops += [dict(op="pub", k=k, **good2), look("b", 2)]
                    ops += [dict(op=what, k=k, s=2, f="a1", how=how), look("a"), look("b"), look("a")]
                    ops.append(dict(op="purge", s=2) if mend == "purge" else dict(op="lose" + what[-1], k=k, s=2, f="a1") if mend == "lose" else dict(op="pub", k=k, **good4))
                    ops += [look("a"), look("b"), look("c"), look("a", 2), look("b", 2), dict(op="start", s=1, keep=False), look("a"), look("b")]
                    hs.append(dict(ops=ops, seed=rng.randrange(10**9)))
    hs += [fam.random_history(rng, rng.choice([6, 12, 25]), rng.choice([0.3, 0.6, 0.9])) for _ in range(2500 if t else 160)]
    return fam.finish(c, fam.run(c, hs))


main("C16", "model_checking", check)
