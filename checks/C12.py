import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from diskcache_family import *
from vlib import main


def check(c):
    t = c.thorough
    graphs = [
        (model(c, "ab", [0, 1, 2], ops=("fail", "force", "purge")), 40000 if t else 1500),
        (model(c, "abf", [1, 2], limits=(2,), ops=("fail", "force")), 40000 if t else 1000),
        (model(c, "ab", [1], limits=(1,), ops=("fail", "force", "die", "lose")), 40000 if t else 1000),
    ]
    seqs = []
    for g, limit in graphs:
        seqs += g.tour(c.rng, 60, limit)
    seqs = finish_ops(c.rng, seqs, ods=("", "x", "y"))
    w = dict(req=30, fail=7, die=4, limit=1, move=0.4, policy=0.3, session=0.3, lose=1, purge=1, kill=3)
    seqs += [random_history(c.rng, 70, w, keys=6) for _ in range(600 if t else 60)]
    # death at every point of a request which creates, creates again by force, and evicts
    for at in range(1, 330, 1 if t else 3):
        seqs.append(crash_history(c.rng, at))
    traces = run(c, seqs, ["C12"])
    return c.finish(states=c.states, transitions=c.transitions, traces_validated_against_impl=len(traces), operations=sum(len(x["ev"]) for x in traces),
                    model_edges=sum(g.n for g, _ in graphs), model_edges_replayed=sum(g.covered for g, _ in graphs), crash_points=sum(e["op"] == "kill" for x in traces for e in x["ev"]), samples=[traces[0]["ev"][1], traces[-1]["ev"][-1]])


main("C12", "model_checking", check)
