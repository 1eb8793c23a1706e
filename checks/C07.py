import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from config_family import *
from vlib import main


def check(c):
    t = c.thorough
    graphs = [
        (model(c, {MEM: ["s:lru", "s:off", "s:nosuch"], LIM: ["s:1K", "n:", "s:abc"], STRICT: ["b:True"]}, {}, 1, pairs=False), 15000 if t else 1500),
        (model(c, {MEM: ["s:lru", "s:unlimited"], LIM: ["s:1K", "n:"]}, {LIM: ["s:2000000"]}, 1, pairs=True), 15000 if t else 2000),
        (model(c, {DISK: ["s:user", "s:temporary", "s:off"], UDIR: ["s:ROOT/d1", "s:ROOT/FILE/z"], CTROOT: ["s:ROOT/t1", "s:ROOT/FILE/z"]}, {}, 1), 15000 if t else 1500),
        (model(c, {DISK: ["s:temporary", "s:off"], SIZE: ["s:1K", "n:", "i:-1"], TROOT: ["s:ROOT/t1"]}, {SIZE: ["s:1K"]}, 1), 15000 if t else 1200),
        (model(c, {URL: ["s:1m", "s:x"], CHECK: ["b:True", "s:maybe"], DISK: ["s:nosuch"]}, {CHECK: ["s:yes"]}, 1, pairs=True), 15000 if t else 1200),
    ]
    seqs = []
    for g, limit in graphs:
        seqs += g.tour(c.rng, 60, limit)
    seqs += [random_history(c.rng, 50, bad=0.4) for _ in range(1500 if t else 150)]
    seqs = [finish_ops(c.rng, s, probe=0.15) for s in seqs]
    traces = run(c, seqs, ["C07"], True)
    return c.finish(states=c.states, transitions=c.transitions, traces_validated_against_impl=len(traces), operations=sum(len(x["ev"]) for x in traces),
                    rejected_changes=sum(bool(e["err"]) for x in traces for e in x["ev"]),
                    model_edges=sum(g.n for g, _ in graphs), model_edges_replayed=sum(g.covered for g, _ in graphs), samples=[traces[0]["ev"][1], traces[-1]["ev"][-1]])


main("C07", "model_checking", check)
