"""Checks of the configuration (C06, C07, C08): histories of spec/ConfigMC.tla run by drivers/config.py
and validated by spec/ConfigTrace.tla."""

import json

from vlib import Graph, tla

SIZE, DISK, MEM = "maximum-cache-size", "cache-policy", "weights-memory-cache-policy"
USAGE, URL, CHECK, DL = "maximum-cache-disk-usage", "url-download-timeout", "check-out-of-date-urls", "download-out-of-date-urls"
LIM, STRICT = "maximum-weights-memory-cache-size", "weights-memory-cache-strict-mode"
UDIR, CTROOT, TROOT = "user-cache-directory", "temporary-cache-directory-root", "temporary-directory-root"
OPTIONS = [SIZE, DISK, MEM, USAGE, URL, CHECK, DL, LIM, STRICT, UDIR, CTROOT, TROOT]

GOOD = {
    UDIR: ["s:ROOT/d1", "s:ROOT/d2/x", "s:ROOT/d 3: #y"],
    CTROOT: ["n:", "s:ROOT/t1", "s:ROOT/t2/x"],
    TROOT: ["n:", "s:ROOT/t1", "s:ROOT/t2/x"],
    DISK: ["s:user", "s:temporary", "s:off"],
    SIZE: ["s:5GB", "s:1K", "i:2048", "s:3 k", "n:", "i:1400", "s:1T", "i:0"],
    USAGE: ["n:", "s:100%", "i:100", "s:101"],
    URL: ["s:30s", "s:1m", "i:10", "s:2h", "s:45"],
    CHECK: ["b:True", "b:False", "s:yes", "s:off", "i:1", "i:0", "s:no", "s:on", "s:TRUE"],
    DL: ["b:True", "b:False", "s:yes", "s:off", "s:0", "s:1", "s:False"],
    LIM: ["s:500MB", "s:1K", "i:2048", "s:2000000", "i:1400", "n:", "i:0"],
    MEM: ["s:largest", "s:lru", "s:unlimited", "s:off"],
    STRICT: ["b:True", "b:False", "s:on", "s:0"],
}
BAD = {
    UDIR: ["s:ROOT/FILE/z"], CTROOT: ["s:ROOT/FILE/z"], DISK: ["s:nosuch", "n:", "s:"], SIZE: ["s:abc", "i:-1", "f:1.5", "b:True", "l:x"], USAGE: ["s:5X", "s:-1"],
    URL: ["n:", "s:x", "s:1y"], CHECK: ["s:maybe"], DL: ["s:2"], LIM: ["s:abc", "s:1.5K"], MEM: ["s:nosuch", "n:"], STRICT: ["s:perhaps"],
}
# a variable that is set but empty takes precedence as well
ENVS = {URL: ["s:45", "s:2h", "s:bad", "s:"], CHECK: ["s:yes", "s:no", "s:1", "s:maybe", "s:"], DL: ["s:on", "s:0", "s:"], SIZE: ["s:1K", "s:5GB"], USAGE: ["s:101"],
        STRICT: ["s:on", "s:0", "s:"], UDIR: ["s:ROOT/d1"], TROOT: ["s:ROOT/t1"]}


def model(c, vals, env, depth, pairs=False, session=False):
    opts = sorted(vals)
    fn = lambda d: "(" + " @@ ".join(f"{tla(o)} :> {tla(set(v))}" for o, v in d.items()) + ")" if d else "<<>>"
    inst = f"""---- MODULE ConfigRun ----
EXTENDS ConfigMC
VV == {fn(vals)}
EE == {fn(env)}
====
"""
    cfg = f"""SPECIFICATION MCSpec
CONSTANT Options = {tla(set(opts))}
CONSTANT Vals <- VV
CONSTANT EnvVals <- EE
CONSTANT MaxDepth = {depth}
CONSTANT Pairs = {tla(pairs)}
CONSTANT Session = {tla(session)}
INVARIANT FileInv StackInv Precedence
PROPERTY Isolation TempFile
CONSTRAINT First
ACTION_CONSTRAINT Edge
VIEW View
CHECK_DEADLOCK FALSE
"""
    if depth == 0:
        pass
    r = c.tlc("ConfigRun", cfg, files={"ConfigRun.tla": inst}, workers=4)
    g = Graph(r)
    c.say(f"model of {opts}: {r.distinct} states, {g.n} edges")
    return g


def finish_ops(rng, seq, probe=0.0, crash=150, once=False):
    out = []
    for o in seq:
        o = dict(o)
        if "items" in o:
            o["items"] = list(o["items"])
            o["form"] = rng.choice(["pos", "dict", "kw"]) if len(o["items"]) == 1 else rng.choice(["dict", "kw"]) if o["items"] else "pos"
        if o["op"] == "crash":
            o["k"] = rng.randrange(1, crash)
            o.setdefault("o", "")
        if rng.random() < probe and o["op"] in ("set", "reset", "enter", "exit"):
            o["probe"] = True
        out.append(o)
    return out


def random_items(rng, n, bad):
    items = []
    for o in rng.sample(OPTIONS, n):
        items.append(dict(o=o, v=rng.choice(GOOD[o])))
    if bad:
        x = rng.choice(items)
        if rng.random() < 0.2:
            x["o"], x["v"] = "no-such-option", "s:1"
        elif x["o"] in BAD:
            x["v"] = rng.choice(BAD[x["o"]])
    return items


def random_history(rng, n, bad=0.15, session=False, env=True):
    depth, ops, e = 0, [], {}
    for _ in range(n):
        x = rng.random()
        if x < 0.40:
            ops.append(dict(op="set", items=random_items(rng, rng.choice([1, 1, 1, 2, 3, 5]), rng.random() < bad)))
        elif x < 0.47:
            ops.append(dict(op="reset", o=rng.choice(OPTIONS + ["*", "*"] + (["no-such-option"] if bad else []))))
        elif x < 0.60 and depth < 4:
            items = random_items(rng, rng.choice([1, 1, 1, 2, 3]), rng.random() < bad) if rng.random() < 0.8 else []
            ops.append(dict(op="enter", items=items, paired=True))
            depth += 1
        elif x < 0.74 and depth:
            ops.append(dict(op="exit", how=rng.choice(["normal", "raise"])))
            depth -= 1
        elif x < 0.84 and env:
            o = rng.choice(sorted(ENVS))
            v = rng.choice(ENVS[o] + ["", ""])
            if v != e.get(o, ""):
                e[o] = v
                ops.append(dict(op="env", o=o, v=v))
        elif session:
            y = rng.random()
            if y < 0.2:
                ops.append(dict(op="auto", v=rng.random() < 0.6))
            elif y < 0.3:
                ops.append(dict(op="saveas"))
            else:
                while depth:
                    ops.append(dict(op="exit", how=rng.choice(["normal", "raise"])))
                    depth -= 1
                if y < 0.55:
                    ops.append(dict(op="restart", **{"from": rng.choice(["file", "file", "saved"])}))
                elif y < 0.65:
                    items = [z for z in random_items(rng, rng.choice([1, 2, 4]), False) if z["o"] not in (LIM, MEM)]
                    ops.append(dict(op="edit", items=items))
                    ops.append(dict(op="restart", **{"from": "file"}))
                elif rng.random() < 0.3:
                    ops.append(dict(op="crash", kind="reset", items=[], o=rng.choice(OPTIONS[5:7] + ["*"])))
                else:
                    items = [z for z in random_items(rng, rng.choice([1, 2, 3]), False) if z["o"] not in (LIM, MEM)] or [dict(o=URL, v="i:10")]
                    ops.append(dict(op="crash", kind="set", items=items))
    return ops


def run(c, seqs, enforce, probes):
    seqs = [s for s in seqs if s]
    jobs = [dict(seqs=seqs[k::8], options=OPTIONS, probes=probes) for k in range(8)]
    traces = [t for ts in c.parallel(lambda j: c.drive("config.py", j), [j for j in jobs if j["seqs"]]) for t in ts]
    rej = c.validate("ConfigTrace", traces, jobs=8, consts=f"CONSTANT Options = {{}}\nCONSTANT Enforce = {tla(set(enforce))}\n")
    c.report_rejects("Config", rej)
    return traces
