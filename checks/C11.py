import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from diskcache_family import *
from vlib import main


def check(c):
    t = c.thorough
    graphs = [
        (model(c, "abf", [0, 2], ops=("purge", "lose", "fail")), 40000 if t else 1500),
        (model(c, "ab", [0, 1, 2], limits=(2,), ops=("purge", "lose", "force", "fail")), 40000 if t else 1500),
        (model(c, "ab", [1], policies=("user", "temporary", "off"), udirs=("u1", "u2"), ops=("purge", "lose", "session")), 40000 if t else 1000),
    ]
    seqs = []
    for g, limit in graphs:
        seqs += g.tour(c.rng, 60, limit)
    seqs = finish_ops(c.rng, seqs, ods=("", "x", "y"))
    w = dict(req=30, fail=3, limit=1, move=0.7, policy=0.5, session=0.7, lose=4, purge=3, die=0.5)
    seqs += [random_history(c.rng, 70, w, keys=8) for _ in range(600 if t else 60)]
    traces = run(c, seqs, ["C11"])
    return c.finish(states=c.states, transitions=c.transitions, traces_validated_against_impl=len(traces), operations=sum(len(x["ev"]) for x in traces),
                    model_edges=sum(g.n for g, _ in graphs), model_edges_replayed=sum(g.covered for g, _ in graphs), samples=[traces[0]["ev"][1], traces[-1]["ev"][-1]])


main("C11", "model_checking", check)
