"""Runs groups of concurrent calls under controlled schedules: see spec/MemCacheLinTrace.tla."""

import json
import os
import random
import sys
import warnings

warnings.simplefilter("ignore")
import zygote  # noqa: F401  loads the libraries before the locks are replaced
import scipy.sparse  # noqa: F401
import multiurl  # noqa: F401
import sched_co as sched
from invlib import Weights, index_entry, npz_path, write_index, write_npz

job = json.load(open(sys.argv[1]))
SCR = sys.argv[3]
METHODS = ["linear", "nearest-neighbour", "grid-box-average"]


def build(root, ks):
    import numpy as np

    keys, entries = [], {}
    for n, k in enumerate(ks):
        rows = k["rows"]
        w = Weights(rows[0] * rows[1], 12, k["nnz"], n)
        assert w.bytes == k["bytes"]
        out_grid = {"grid": [k["d"], k["d"]]}
        in_grid = {"grid": "H1", "order": "nested" if n % 2 else "ring"}
        method = METHODS[(n // 2) % 3]
        e = index_entry(in_grid, [12], out_grid, rows, method, memory=k["est"] if k["est"] >= 0 else None)
        entries[f"w{n}"] = e
        p = npz_path(root, f"w{n}", e)
        write_npz(p, w.matrix(1))
        keys.append(dict(w=w, i=in_grid, o=out_grid, m=method, path=p, name=os.path.basename(p), vals=np.arange(3.0 + n, 15.0 + n)))
    write_index(root, entries)
    return keys


def scenario(n, sc, out):
    root = os.path.join(SCR, f"s{n}")
    inv = os.path.join(root, "inv")
    os.makedirs(root)
    keys = build(inv, job["keys"])
    for k in sc["bad"]:
        with open(keys[k - 1]["path"], "w") as f:
            f.write("bad")
    os.environ["EARTHKIT_REGRID_CONFIG_FILE"] = os.path.join(root, "conf.yaml")
    S = sched.install()
    loads = {}
    prefix = root + "/"

    def hook(name, args):
        if name == "open" and isinstance(args[0], str) and args[0].endswith(".npz") and args[0].startswith(prefix):
            loads[S.cur.name] = loads.get(S.cur.name, 0) + 1

    sys.addaudithook(hook)
    import importlib
    import pkgutil

    import earthkit.regrid as er

    for m in pkgutil.walk_packages(er.__path__, "earthkit.regrid."):
        try:
            importlib.import_module(m.name)
        except Exception:
            pass
    from earthkit.regrid import config
    from earthkit.regrid.array import regrid
    from earthkit.regrid.utils.memcache import clear_memory_cache, memory_cache_info

    config.autosave = False
    config.set({"cache-policy": "off"})
    state = dict(inv=inv)

    def get(k, o=None):
        d = keys[k - 1]
        return regrid(d["vals"], d["i"], o or d["o"], interpolation=d["m"], backend="precomputed", inventory=state["inv"])[0]

    # how often the file is opened when it is read once
    good = next(k for k in range(1, len(keys) + 1) if k not in sc["bad"])
    config.set("weights-memory-cache-policy", "off")
    get(good)
    unit = loads.get("main", 0)
    assert unit > 0

    def conf(p, l, s):
        config.set({"weights-memory-cache-policy": p, "maximum-weights-memory-cache-size": l, "weights-memory-cache-strict-mode": s})

    ev = []

    def call(t, o):
        e = dict(dict(k=0, p="", l=0, s=False, res="ok", err="", got=0, loads=0, h=0, m=0, cur=0, cnt=0, max=0, pol=""), e="inv", t=t, **o)
        ev.append(e)
        before = loads.get(S.cur.name, 0)
        try:
            op = o["op"]
            if op in ("look", "fail"):
                e["got"] = keys[o["k"] - 1]["w"].code(get(o["k"]), keys[o["k"] - 1]["vals"])
            elif op == "none":
                get(1, {"grid": [7.5, 7.5]})
            elif op == "clear":
                clear_memory_cache()
            elif op == "info":
                i = memory_cache_info()
                e.update(h=i.hits, m=i.misses, cur=i.currsize, cnt=i.count, max=-1 if i.maxsize is None else i.maxsize, pol=i.policy)
            elif op == "cfg":
                e.update(p=config.get("weights-memory-cache-policy"), l=-1 if config.get("maximum-weights-memory-cache-size") is None else config.get("maximum-weights-memory-cache-size"), s=config.get("weights-memory-cache-strict-mode"))
            elif op == "conf":
                conf(o["p"], o["l"], o["s"])
            elif op == "setpol":
                config.set("weights-memory-cache-policy", o["p"])
            elif op == "setlim":
                config.set("maximum-weights-memory-cache-size", o["l"])
            elif op == "setstrict":
                config.set("weights-memory-cache-strict-mode", o["s"])
            elif op == "badconf":
                config.set({"weights-memory-cache-strict-mode": o["s"], "weights-memory-cache-policy": "lru", "maximum-weights-memory-cache-size": 0 if o["k"] else None})
        except Exception as x:
            e.update(res="err", err=type(x).__name__, why=str(x)[:100])
        x = loads.get(S.cur.name, 0) - before
        e["loads"] = x // unit if x % unit == 0 else -1
        if o["op"] == "fail" and e["res"] == "err":
            e["loads"] = 0
        ev.append(dict(e="ret", t=t))

    seen = {}
    info = dict(sc=n, schedules=0, steps=0)

    def stuck(names):
        ev.append(dict(e="stuck", t=0))
        put()
        out.write(json.dumps(dict(ev=ev, id=dict(info, stuck=names))) + "\n")
        for k, c in seen.items():
            out.write(k + "\n")
        out.close()
        os._exit(0)

    def put():
        pass

    S.on_stuck = stuck
    clients = [f"c{t}" for t in range(1, len(sc["threads"]) + 1)]

    def once(policy, opcodes, fresh):
        S.policy = None
        if fresh:
            state["inv"] = os.path.join(root, f"inv{info['schedules']}")
            os.symlink(inv, state["inv"])
        conf(*sc["init"])
        clear_memory_cache()
        loads.clear()
        ev.clear()
        call(0, dict(op="conf", p=sc["init"][0], l=sc["init"][1], s=sc["init"][2]))
        for o in sc["setup"]:
            call(0, o)
        S.opcodes = opcodes

        def body(t, ops):
            for o in ops:
                call(t, o)

        ts = [S.spawn(lambda t=t, ops=ops: body(t, ops), f"c{t}") for t, ops in enumerate(sc["threads"], 1)]
        s0 = S.steps
        S.policy = policy
        S.join(ts)
        S.policy = None
        n = S.steps - s0
        for o in [dict(op="info"), dict(op="cfg")] + [dict(op="fail" if k in sc["bad"] else "look", k=k) for k in sc["probe"]] + [dict(op="info")]:
            call(0, o)
        info["schedules"] += 1
        info["steps"] += n
        x = json.dumps(ev)
        seen.setdefault(x, dict(info, n=n))
        return n

    rng = random.Random(sc["seed"])
    order = lambda: ["main"] + rng.sample(clients, len(clients))
    lines = max(once(sched.preempt([], ["main"] + clients), False, False), once(sched.preempt([], ["main"] + clients), False, True))
    codes = once(sched.preempt([], ["main"] + clients), True, True)
    # every schedule with one preemption
    k = 0
    every = sc["every"]
    for perm in ([clients, clients[::-1]] if len(clients) > 1 else [clients]):
        for at in range(1 + rng.randrange(every), lines + 1, every):
            k += 1
            once(sched.preempt([at], ["main"] + perm), False, k % 3 == 0)
    for _ in range(sc["random"]):
        op = rng.random() < 0.5
        n = codes if op else lines
        if rng.random() < 0.6:
            p = sched.preempt([rng.randrange(1, n + 1) for _ in range(rng.choice([1, 2, 2, 3, 5]))], order())
        else:
            p = sched.walk(rng, rng.choice([0.5, 0.1, 0.02, 0.01] if op else [0.5, 0.2, 0.05]))
        once(p, op, rng.random() < 0.4)
    for k, c in seen.items():
        out.write(json.dumps(dict(ev=json.loads(k), id=c)) + "\n")
    out.write(json.dumps(dict(info=info)) + "\n")


for n, sc in enumerate(job["scenarios"]):
    part = f"{sys.argv[2]}.{n}"
    pid = os.fork()
    if pid == 0:
        rc = 3
        try:
            with open(part, "w") as out:
                scenario(n, sc, out)
            rc = 0
        except BaseException:
            import traceback

            traceback.print_exc()
            sys.stderr.flush()
        finally:
            os._exit(rc)
    rc = os.waitpid(pid, 0)[1]
    if rc:
        raise SystemExit(f"scenario {sc} ended with {rc}")
with open(sys.argv[2], "w") as out:
    for n in range(len(job["scenarios"])):
        with open(f"{sys.argv[2]}.{n}") as f:
            out.write(f.read())
