import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from config_family import *
from vlib import main


def check(c):
    t = c.thorough
    graphs = [
        (model(c, {URL: ["s:1m", "s:x"], CHECK: ["b:True", "s:no"]}, {URL: ["s:45"], CHECK: ["s:yes", "s:"]}, 2), 12000 if t else 2500),
        (model(c, {MEM: ["s:lru", "s:unlimited"], LIM: ["s:1K", "n:"]}, {LIM: ["s:2000000"]}, 2), 12000 if t else 1500),
        (model(c, {DL: ["s:1"], SIZE: ["s:1K", "n:"]}, {SIZE: ["s:1K"], DL: ["s:0"]}, 2, pairs=True), 12000 if t else 1500),
    ]
    seqs = []
    for g, limit in graphs:
        seqs += g.tour(c.rng, 60, limit)
    seqs += [random_history(c.rng, 50) for _ in range(1500 if t else 150)]
    seqs = [finish_ops(c.rng, s) for s in seqs]
    traces = run(c, seqs, ["C06"], False)
    return c.finish(states=c.states, transitions=c.transitions, traces_validated_against_impl=len(traces), operations=sum(len(x["ev"]) for x in traces),
                    model_edges=sum(g.n for g, _ in graphs), model_edges_replayed=sum(g.covered for g, _ in graphs), samples=[traces[0]["ev"][3]["items"] if "items" in traces[0]["ev"][3] else traces[0]["ev"][3], traces[-1]["ev"][-1]])


main("C06", "model_checking", check)
