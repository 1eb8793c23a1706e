"""Checks of the disk cache (C10-C14): histories of spec/DiskCacheMC.tla run by drivers/diskcache.py and
validated by spec/DiskCacheTrace.tla."""

from vlib import Graph, tla

KEYS = list("abcdefgh")


def model(c, keys, sizes, limits=(-1,), pcts=(-1,), policies=("user",), udirs=("u1",), ops=(), workers=4):
    cfg = f"""SPECIFICATION MCSpec
CONSTANT Keys = {tla(set(keys))}
CONSTANT UserDirs = {tla(set(udirs))}
CONSTANT Sizes = {tla(set(sizes))}
CONSTANT Limits = {{{", ".join(map(str, sorted(x for x in limits if x >= 0)))}}}
CONSTANT Pcts = {{{", ".join(map(str, sorted(x for x in pcts if x >= 0)))}}}
CONSTANT Policies = {tla(set(policies))}
CONSTANT Ops = {tla(set(ops))}
INVARIANT TypeInv LimitInv PctInv TrimInv
PROPERTY HitKeeps OthersKeep
CONSTRAINT First
ACTION_CONSTRAINT Edge
VIEW View
CHECK_DEADLOCK FALSE
"""
    r = c.tlc("DiskCacheMC", cfg, workers=workers)
    g = Graph(r)
    c.say(f"model keys={keys} ops={ops}: {r.distinct} states, {g.n} edges")
    return g


def finish_ops(rng, seqs, ods=("",), rename=True):
    out = []
    for seq in seqs:
        ren = dict(zip(KEYS, rng.sample(KEYS, len(KEYS)))) if rename else {k: k for k in KEYS}
        s = []
        for o in seq:
            o = dict(o)
            if "k" in o:
                o["k"] = ren[o["k"]]
            if "ks" in o:
                o["ks"] = [ren[k] for k in o["ks"]]
            if o["op"] == "req":
                o["odd"] = rng.randrange(2)
                o["od"] = rng.choice(ods)
                if o["how"] == "raise" and rng.random() < 0.3:
                    o["how"] = "stop"
            if o["op"] in ("limit", "policy", "root", "move"):
                o["via"] = rng.choice(["single", "dict"])
            s.append(o)
        out.append(s)
    return out


def random_history(rng, n, w, keys=6, sizes=(0, 1, 2, 3, 5), limits=(-1, 0, 2, 4, 7, 12), pcts=(-1, 0, 3, 6, 11), ods=("", "x", "y"),
                   policies=("user", "temporary", "off"), forces=("none", "none", "true", "false", "fn1", "fn0"), policy="user"):
    """w: weights of the kinds of operations."""
    ops, pol, present = [], "user", set()
    udir = "u1"
    here = {"u1": set(), "u2": set(), "t": set()}
    kinds = sorted(w)
    for _ in range(n):
        op = rng.choices(kinds, [w[k] for k in kinds])[0]
        k = rng.choice(KEYS[:keys])
        if op == "req":
            ops.append(dict(op="req", k=k, f=rng.choice(forces), size=rng.choice(sizes), how="ok", od=rng.choice(ods)))
        elif op == "fail":
            ops.append(dict(op="req", k=k, f=rng.choice(forces), size=rng.choice(sizes), how=rng.choice(["raise", "stop"]), od=""))
        elif op == "die":
            if pol == "user":
                ops.append(dict(op="req", k=k, f=rng.choice(forces), size=rng.choice(sizes), how="die", od=""))
        elif op == "kill":
            if pol == "user":
                ops.append(dict(op="kill", k=k, f=rng.choice(["none", "true"]), size=rng.choice(sizes) or 1, how="ok", od=rng.choice(ods), at=rng.randrange(1, 330)))
        elif op == "purge":
            m = rng.choice(["all", "keys", "keys", "big", "none"])
            ops.append(dict(op="purge", m=m, **(dict(ks=rng.sample(KEYS[:keys], rng.randrange(1, 3))) if m == "keys" else dict(size=rng.choice(sizes)) if m == "big" else {})))
        elif op == "lose":
            ops.append(dict(op="lose", k=k))
        elif op == "limit":
            ops.append(dict(op="limit", l=rng.choice(limits), q=rng.choice(pcts)))
        elif op == "policy":
            pol = rng.choice([p for p in policies if p != pol] or [pol])
            ops.append(dict(op="policy", p=pol))
        elif op == "move":
            udir = "u2" if udir == "u1" else "u1"
            ops.append(dict(op="move", u=udir))
        else:
            ops.append(dict(op=op))
    return [dict(o, via=rng.choice(["single", "dict"]), odd=rng.randrange(2)) for o in ops]


def crash_history(rng, at):
    """A few entries, then a request that dies at the at-th line, then ordinary life."""
    ops = []
    if rng.random() < 0.5:
        ops.append(dict(op="limit", l=rng.choice([3, 5]), q=rng.choice([-1, -1, 4])))
    for k in rng.sample("abcdfh", 3):
        ops.append(dict(op="req", k=k, f="none", size=rng.choice([1, 2]), how="ok", od=rng.choice(["", "x"])))
    ops.append(dict(op="kill", k=rng.choice("abcdfh"), f=rng.choice(["none", "true"]), size=rng.choice([1, 2, 3]), how="ok", od="y", at=at))
    for _ in range(8):
        x = rng.random()
        if x < 0.75:
            ops.append(dict(op="req", k=rng.choice("abcdfh"), f=rng.choice(["none", "none", "true"]), size=rng.choice([1, 2, 3]), how="ok", od=""))
        elif x < 0.85:
            ops.append(dict(op="limit", l=rng.choice([2, 4, -1]), q=-1))
        else:
            ops.append(dict(op="purge", m="all"))
    ops += [dict(op="purge", m="all"), dict(op="req", k="a", f="none", size=1, how="ok", od="")]
    return [dict(o, via="dict", odd=rng.randrange(2)) for o in ops]


def run(c, seqs, enforce, n=8):
    """Runs the histories and validates them."""
    seqs = [s for s in seqs if s]
    jobs = [dict(seqs=seqs[k::n]) for k in range(n)]
    traces = [t for ts in c.parallel(lambda j: c.drive("diskcache.py", j), [j for j in jobs if j["seqs"]]) for t in ts]
    consts = f'CONSTANT Keys = {tla(set(KEYS))}\nCONSTANT UserDirs = {{"u1", "u2"}}\nCONSTANT Enforce = {tla(set(enforce))}\n'
    rej = c.validate("DiskCacheTrace", traces, jobs=8, consts=consts)
    c.report_rejects("DiskCache", rej)
    return traces
