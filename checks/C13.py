import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from diskcache_family import *
from vlib import main


def check(c):
    t = c.thorough
    graphs = [
        (model(c, "ab", [1], policies=("user", "temporary", "off"), udirs=("u1", "u2"), ops=("root", "session", "fail")), 40000 if t else 2500),
        (model(c, "a", [1, 3], limits=(2,), policies=("user", "temporary", "off"), udirs=("u1", "u2"), ops=("root", "session", "force", "purge")), 40000 if t else 2500),
    ]
    seqs = []
    for g, limit in graphs:
        seqs += g.tour(c.rng, 60, limit)
    seqs = finish_ops(c.rng, seqs)
    w = dict(req=20, fail=1, limit=1, move=2, policy=5, root=3, other=2, session=2, lose=0.5, purge=1)
    seqs += [random_history(c.rng, 60, w, keys=4, ods=("", "x")) for _ in range(600 if t else 60)]
    traces = run(c, seqs, ["C13"])
    return c.finish(states=c.states, transitions=c.transitions, traces_validated_against_impl=len(traces), operations=sum(len(x["ev"]) for x in traces),
                    model_edges=sum(g.n for g, _ in graphs), model_edges_replayed=sum(g.covered for g, _ in graphs), samples=[traces[0]["ev"][1], traces[-1]["ev"][-1]])


main("C13", "model_checking", check)
