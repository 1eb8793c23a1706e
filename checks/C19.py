import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import main, tla

POOL = {"O32": [0, 1, 2, 4, 7], "LL30": [3, 5, 6], "LLW": [8, 9], "odd": [-1]}
INV = {
    "a": [dict(i="O32", o="LL45", m="linear", code=1), dict(i="LL30", o="LL45", m="linear", code=2), dict(i="O32", o="LL45", m="nearest-neighbour", code=3), dict(i="LLW", o="LL45", m="linear", code=6)],
    "b": [dict(i="O32", o="LL45", m="linear", code=4), dict(i="LL30", o="LL90", m="linear", code=5), dict(i="LLW", o="LL90", m="linear", code=7)],
    "none": [],
}
OTHERS = ["ndarray", "sequence", "None", "str", "bytearray", "dict", "int", "memoryview", "tuple"]
MIROPTS = [{}, {}, {"interpolation": "nearest-neighbour"}, {"interpolation": "grid-box-average"}, {"interpolation": "k-nearest-neighbours", "nearest_method": "nclosest", "nclosest": 2},
           {"interpolation": "k-nearest-neighbours", "nearest_method": "distance_and_nclosest", "distance": 2000000, "nclosest": 9}, {"interpolation": "linear", "distance": 3, "nclosest": 2},
           {"interpolation": "nearest-neighbour", "nearest_method": "nearest_neighbour_with_lowest_index", "distance_tolerance": 5}, {"interpolation": "bilinear"}]


def check(c):
    r = c.rng
    m = c.tlc("HighLevelMC", f"SPECIFICATION Spec\nINVARIANT Gives AsAlone\nACTION_CONSTRAINT Edge\nCHECK_DEADLOCK FALSE\nCONSTANT MaxItems = {3 if c.thorough else 2}\n", workers=8, mem="6g")
    todo, seen = {}, set()
    for e in m.printed("CALL"):
        k = (frozenset(e["s"]), e["kind"], tuple(e["items"]), e["backend"], e["inv"], e["target"], e["method"], e["ok"])
        if k not in seen:
            seen.add(k)
            todo.setdefault(k[0], []).append(k)
    for v in todo.values():
        v.sort(key=lambda k: k[1:])
        r.shuffle(v)
        v.sort(key=lambda k: not k[-1])  # those with a result first
    # every call of the model; what was made before is followed in quick for a sample
    total = len(seen)
    if not c.thorough:
        todo = {s: v[: 4000 // len(todo)] for s, v in todo.items()}
    T = {"LL60": "LL45", "LL90": "LL90", "H2": "H2", "none": "none"}

    def call(kind, items, backend, inv, target, method):
        x = dict(kind=kind if kind != "other" else r.choice(OTHERS), items=[r.choice(POOL[g]) for g in items], backend=backend, inv=inv, target=T.get(target, target))
        if x["target"] == "H2" and r.random() < 0.3:
            x["target"] = "O8"
        x["options"] = {"interpolation": method} if method != "linear" or r.random() < 0.5 else {}
        if backend == "mir":
            x["options"] = dict(r.choice(MIROPTS)) if method == "linear" else x["options"]
        if backend == "missing":
            x["how"] = None
        if backend == "unknown":
            x["backend"] = r.choice(["unknown", "db", "Mir", "matrix"])
        for f, p in (("array", 0.3), ("sel", 0.3), ("pos", 0.5), ("say", 0.5), ("forget", 0.2)):
            if r.random() < p:
                x[f] = 1
        # the deprecated call for the same thing
        if kind == "list" and backend == "precomputed" and target != "none" and r.random() < 0.4:
            x["api"] = "interpolate"
        if kind == "stream" and r.random() < 0.4:
            x["read"] = 10
        return x

    # what was made stays in a process: a sequence of calls per process is too dear, so the sequences of a driver go up the lattice
    names = sorted({x for s in todo for x in s})
    seqs, n = [], 0
    for k in range(8):
        order = [x for x in names]
        r.shuffle(order)
        made, part = frozenset(), []
        def flush(s):
            nonlocal n
            v = todo.get(s, [])
            # calls which do not add to what was made
            keep = [e for e in v if e[3] in ("unknown", "missing") or (e[3] + e[4]) in s]
            take = keep if k == 7 else keep[: max(1, len(keep) // 2)]
            for e in take:
                v.remove(e)
                part.append(call(*e[1:-1]))
            n += len(take)
        flush(made)
        for x in order:
            add = [e for e in todo.get(made, []) if e[3] + e[4] == x]
            if add:
                e = r.choice(add)
                todo[made].remove(e)
                part.append(call(*e[1:-1]))
                n += 1
            made = made | {x}
            flush(made)
        seqs.append([part])
    # random histories, with long lists
    for k in range(8):
        for _ in range(40 if c.thorough else 12):
            h = []
            for _ in range(30):
                kind = r.choice(["list", "list", "list", "field", "bytes", "stream", "other"])
                backend, inv = r.choice([("mir", "none")] * 3 + [("precomputed", "a"), ("precomputed", "b"), ("precomputed", "none"), ("unknown", "none"), ("missing", "none")])
                g = r.choice([["O32", "LL30"], ["LL30", "LLW"], ["O32", "LL30", "LLW"]])
                ln = 0 if kind == "other" else 1 if kind != "list" else r.choice([0, 1, 2, 3, 5, 8, 12])
                items = [r.choice(g) for _ in range(ln)]
                if kind in ("list", "field") and items and r.random() < 0.15:
                    items[r.randrange(ln)] = "odd"
                h.append(call(kind, items, backend, inv, r.choice(["LL60", "LL60", "LL90", "H2", "none"]), r.choice(["linear", "linear", "nearest-neighbour"])))
            seqs[k].append(h)
    jobs = [dict(seqs=[q for q in s if q], seed=c.seed * 100 + k, inventories=INV) for k, s in enumerate(seqs)]
    cache = c.dir("mir")
    traces = [t for ts in c.parallel(lambda j: c.drive("highlevel.py", j, env=c.env(extra={"MIR_CACHE_PATH": os.path.join(cache, str(j["seed"]))})), jobs) for t in ts]
    rej = c.validate("HighLevelTrace", traces, jobs=8)
    c.report_rejects("HighLevel", rej)
    ev = [e for t in traces for e in t["ev"]]
    ok = sum(1 for e in ev if not e["err"])
    c.say(len(ev), "calls,", ok, "with a result,", n, "transitions of", total)
    c.assumptions = ["what the engine itself gives for a message is the reference", "fields come from GRIB; the weights of the inventories are encoded"]
    return c.finish(states=c.states, transitions=c.transitions, traces_validated_against_impl=len(traces), calls=len(ev), calls_with_result=ok, transitions_replayed=n,
                    transitions_of_model=total, samples=[ev[0], ev[-1]])


main("C19", "model_checking", check)
