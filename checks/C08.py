import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from config_family import *
from vlib import main


def check(c):
    t = c.thorough
    r = c.rng
    graphs = [
        (model(c, {URL: ["s:1m"], CHECK: ["b:True"]}, {CHECK: ["s:yes"]}, 1, session=True), 12000 if t else 1500),
        (model(c, {MEM: ["s:lru", "s:unlimited"], LIM: ["s:1K", "n:"]}, {}, 1, session=True), 12000 if t else 1000),
    ]
    seqs = []
    for g, limit in graphs:
        seqs += g.tour(r, 60, limit)
    seqs += [random_history(r, 40, session=True) for _ in range(1500 if t else 150)]
    seqs = [finish_ops(r, s) for s in seqs]
    # every crash point of some changes: the session before, the crash at point k, the session after
    points = 0
    big = [dict(op="set", form="dict", items=[dict(o=UDIR, v="s:ROOT/d 3: #y"), dict(o=URL, v="s:2h"), dict(o=CHECK, v="b:True"), dict(o=SIZE, v="i:2048")])]
    changes = [([], dict(kind="set", form="pos", items=[dict(o=URL, v="s:1m")], o="")),
               (big, dict(kind="set", form="pos", items=[dict(o=DL, v="b:True")], o="")),
               (big, dict(kind="reset", form="pos", items=[], o="*")),
               (big, dict(kind="reset", form="pos", items=[], o=URL)),
               (big, dict(kind="set", form="kw", items=[dict(o=URL, v="i:10"), dict(o=USAGE, v="s:100%"), dict(o=DL, v="s:1")], o="")),
               ([dict(op="auto", v=False)] + big, dict(kind="set", form="pos", items=[dict(o=URL, v="s:1m")], o=""))]
    for pre, ch in changes:
        for k in range(1, 1300 if len(ch["items"]) > 1 else 800, 1 if t else r.choice([5, 6, 7])):
            seqs.append(pre + [dict(op="crash", k=k, **ch), dict(op="set", form="pos", items=[dict(o=CHECK, v="s:yes")]), dict(op="restart", **{"from": "file"})])
            points += 1
    traces = run(c, seqs, ["C08"], False)
    done = sum(e.get("done", False) for x in traces for e in x["ev"])
    crashes = sum(e["op"] == "crash" for x in traces for e in x["ev"])
    return c.finish(states=c.states, transitions=c.transitions, traces_validated_against_impl=len(traces), operations=sum(len(x["ev"]) for x in traces),
                    crashes=crashes - done, changes_completed_before_the_crash_point=done, restarts=sum(e["op"] == "restart" for x in traces for e in x["ev"]),
                    model_edges=sum(g.n for g, _ in graphs), model_edges_replayed=sum(g.covered for g, _ in graphs), samples=[traces[0]["ev"][1], traces[-1]["ev"][-1]])


main("C08", "model_checking", check)
