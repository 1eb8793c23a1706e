import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from diskcache_family import *
from vlib import main


# dictionaries with a text, and any other value that can be stored
ODS = ("", "x", "y", "\u00e9 '", "0", "", "x", "y", *("raw " + x for x in ("{}", "[]", "0", "false", '""', "1.5", '["a", {"b": null}]', '"null"', '{"a": {"b": [1, 2]}}')))


def check(c):
    t = c.thorough
    graphs = [
        (model(c, "ab", [1, 2], limits=(2,), ops=("force", "fail", "lose")), 40000 if t else 2000),
        (model(c, "abf", [1], ops=("force", "purge", "fail")), 40000 if t else 1500),
        (model(c, "ab", [1], policies=("user", "temporary", "off"), ops=("force", "session")), 40000 if t else 1000),
    ]
    seqs = []
    for g, limit in graphs:
        seqs += g.tour(c.rng, 60, limit)
    seqs = finish_ops(c.rng, seqs, ods=ODS)
    w = dict(req=30, fail=4, limit=0.5, move=0.5, policy=0.5, session=1, lose=1, purge=1)
    seqs += [random_history(c.rng, 70, w, keys=5, ods=ODS, forces=("none", "true", "false", "fn1", "fn0")) for _ in range(600 if t else 60)]
    traces = run(c, seqs, ["C14"])
    return c.finish(states=c.states, transitions=c.transitions, traces_validated_against_impl=len(traces), operations=sum(len(x["ev"]) for x in traces),
                    model_edges=sum(g.n for g, _ in graphs), model_edges_replayed=sum(g.covered for g, _ in graphs), samples=[traces[0]["ev"][1], traces[-1]["ev"][-1]])


main("C14", "model_checking", check)
