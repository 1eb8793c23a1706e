import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import remote_family as fam
from vlib import Graph, main


def check(c):
    t, rng = c.thorough, c.rng
    fam.model(c, '{"ok"}', '{"ok"}', 6 if t else 5, vs="{1, 2, 3, 4}", ps='{"a", "b", "c"}')
    fam.model(c, '{"ok", "bad"}', '{"ok"}', 5 if t else 4)
    g = Graph(fam.model(c, '{"ok"}', '{"ok"}', 6 if t else 5, vs="{1, 2, 3}", ps='{"a", "b"}', sessions="{1}", props=False, edges=True))
    hs = fam.from_graph(c, g, 6000 if t else 700)
    c.coverage["model_transitions_replayed"] = g.covered
    c.coverage["model_transitions"] = g.n
    hs += [fam.random_history(rng, rng.choice([6, 12, 25]), rng.choice([0, 0, 0.15])) for _ in range(2500 if t else 200)]
    hs += [fam.watching_history(rng, rng.choice([8, 15, 25])) for _ in range(600 if t else 60)]
    return fam.finish(c, fam.run(c, hs))


main("C15", "model_checking", check)
