import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from diskcache_family import *
from vlib import main


def check(c):
    t = c.thorough
    ops = ("force",) if t else ()
    graphs = [
        (model(c, "abf" if not t else "abcf"[:3], [1, 3], limits=(0, 2, 4)), 40000 if t else 1500),
        (model(c, "abf", [1, 2], limits=(3,), pcts=(2, 4)), 40000 if t else 1500),
        (model(c, "ab", [0, 1, 2], limits=(0, 2), udirs=("u1", "u2"), ops=ops), 40000 if t else 700),
        (model(c, "ab", [1, 2], limits=(2,), policies=("user", "temporary"), ops=("lose",)), 40000 if t else 700),
    ]
    seqs = []
    for g, limit in graphs:
        seqs += g.tour(c.rng, 60, limit)
    seqs = finish_ops(c.rng, seqs)
    w = dict(req=30, fail=1, limit=4, move=0.7, policy=0.7, session=0.7, lose=0.7, purge=0.7)
    seqs += [random_history(c.rng, 70, w, keys=8, forces=["none"] * 6 + ["true", "fn1"]) for _ in range(600 if t else 60)]
    traces = run(c, seqs, ["C10"])
    return c.finish(states=c.states, transitions=c.transitions, traces_validated_against_impl=len(traces), operations=sum(len(x["ev"]) for x in traces),
                    model_edges=sum(g.n for g, _ in graphs), model_edges_replayed=sum(g.covered for g, _ in graphs), samples=[traces[0]["ev"][1], traces[-1]["ev"][-1]])


main("C10", "model_checking", check)
