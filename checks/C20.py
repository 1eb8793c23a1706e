import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import main, tla

KINDS = ["array", "bytes", "BytesIO", "field", "fieldlist", "dataarray", "dataset"]
METHODS = ["distance", "nclosest", "distance_and_nclosest", "distance_or_nclosest", "nclosest_or_nearest", "sample", "sorted_sample",
           "nearest_neighbour_with_lowest_index", "automatic", "distance-and-nclosest", "nclosest-or-nearest"]
VALUES = {
    "interpolation": ["linear", "nearest-neighbour", "grid-box-average", "k-nearest-neighbours", "bilinear", "voronoi-statistics", "automatic"],
    "nearest_method": METHODS,
    "distance": [1, 2, 1000, 500000, 2.5, dict(t="np", v=3000.5), 0.25, 1e6],
    "distance_tolerance": [1, 3, 10, 0.5, dict(t="np", v=20), 100.0],
    "nclosest": [1, 2, 3, 4, 5, 8, 12],
}
GRIDS = [{"grid": [30, 30]}, {"grid": [45, 45]}, {"grid": [90, 90]}, {"grid": "H2"}, {"grid": "H2", "order": "ring"}, {"grid": "O8"}, {"grid": "N32"}, {"grid": [20.0, 30.0]}]
AREAS = [[60, 0, -60, 330], [90, 0, -90, 330], [60.0, 30.5, 0, 120], "90/0/0/180", "60.5/0/-30/90", [90, -180, -90, 150], [45, 315, -45, 405], [30, -30, -30, 30]]


def check(c):
    r = c.rng
    m = c.tlc("OptionsMC", "SPECIFICATION Spec\nINVARIANT Served Kept AllFields\nACTION_CONSTRAINT Edge\nCHECK_DEADLOCK FALSE\n"
              + f"CONSTANT MaxFields = {3 if c.thorough else 2}\nCONSTANT Kinds = {tla(set(KINDS))}\n", workers=8, mem="6g")
    # calls by what the call before gave: a tour through all of them
    todo, seen = {}, set()
    for e in m.printed("CALL"):
        k = (frozenset(e["s"]), e["kind"], frozenset(e["given"]), e["area"], e["n"])
        if k not in seen:
            seen.add(k)
            todo.setdefault(k[0], []).append(e)
    limit = None if c.thorough else 5600
    for v in todo.values():
        v.sort(key=lambda e: (e["kind"], sorted(e["given"]), e["area"], e["n"]))
        r.shuffle(v)
    if limit:
        todo = {s: v[: limit // len(todo)] for s, v in todo.items()}

    def call(kind, given, area, n):
        g = dict(r.choice(GRIDS if not area else [g for g in GRIDS if isinstance(g["grid"], list)]))
        x = dict(kind=kind, n=n, item=r.randrange(4))
        o = {k: r.choice(VALUES[k]) for k in sorted(given)}
        if r.random() < 0.6 and "nearest_method" in o and "interpolation" in o:
            o["interpolation"] = r.choice(["nearest-neighbour", "k-nearest-neighbours"])
        keys = list(o)
        r.shuffle(keys)
        x["given"] = {k: o[k] for k in keys}
        if area:
            g["area"] = r.choice(AREAS)
            if kind in ("array", "dataarray", "dataset"):  # MIR ends the process for other areas of arrays
                g = {"grid": [30, 30], "area": r.choice([[90, 0, -90, 330], [90, 0, -90, 330.0], "90/0/-90/330"])}
            if r.random() < 0.3:
                g = {k: g[k] for k in reversed(g)}
            if r.random() < 0.3:
                x["tuple"] = 1
        x["grid"] = g
        return x

    seqs, cur, seq, calls = [], frozenset(), [], 0
    while any(todo.values()):
        if not todo.get(cur):
            nxt = r.choice(sorted((s for s in todo if todo[s]), key=sorted))
            seq.append(call(r.choice(KINDS), nxt, r.random() < 0.3, 1))
            cur = nxt
            continue
        e = todo[cur].pop()
        seq.append(call(e["kind"], e["given"], e["area"], e["n"]))
        calls += 1
        cur = frozenset(e["given"])
        if len(seq) >= 60:
            seqs.append(seq)
            seq, cur = [], frozenset()
    if seq:
        seqs.append(seq)
    c.say(len(seqs), "sequences,", calls, "transitions of the model of", len(seen))
    jobs = [dict(seqs=seqs[k::8], seed=c.seed * 100 + k) for k in range(8)]
    cache = c.dir("mir")
    traces = [t for ts in c.parallel(lambda j: c.drive("options.py", j, env=c.env(extra={"MIR_CACHE_PATH": os.path.join(cache, str(j["seed"]))})), jobs) for t in ts]
    rej = c.validate("OptionsTrace", traces, jobs=8)
    c.report_rejects("Options", rej)
    ev = [e for t in traces for e in t["ev"]]
    ok = sum(1 for e in ev if not e["err"])
    c.say(ok, "of", len(ev), "calls gave a result")
    c.assumptions = ["the engine is the installed MIR, observed through subclasses of its job and inputs",
                     "an option that is not given may be left to the engine; what its own default does is not compared"]
    return c.finish(states=c.states, transitions=c.transitions, traces_validated_against_impl=len(traces), calls=len(ev), calls_with_result=ok,
                    transitions_replayed=calls, transitions_of_model=len(seen), samples=[ev[0], ev[-1]])


main("C20", "model_checking", check)
