"""Runs groups of threads that change and read the configuration under controlled schedules:
see spec/ConfigLinTrace.tla."""

import json
import os
import random
import sys
import warnings

warnings.simplefilter("ignore")
import logging

logging.disable(logging.CRITICAL)
import filelock  # noqa: F401
import yaml
import zygote  # noqa: F401  loads the libraries before the locks are replaced
import sched_co as sched

job = json.load(open(sys.argv[1]))
SCR = sys.argv[3]
OPTIONS = job["options"]
# the work of the disk cache when the configuration changes is not looked at line by line
sched.COARSE += ("caching.py",)


def observer(frame):
    """What is read for the caches, which are told of a change, is not looked at either."""
    for _ in range(7):
        frame = frame.f_back
        if frame is None:
            return False
        if frame.f_code.co_name == "_notify":
            return True
    return False


sched.UNTRACED = observer


def env_name(o):
    return "EARTHKIT_REGRID_" + o.upper().replace("-", "_")


def value(tok):
    k, v = tok.split(":", 1)
    return {"s": str, "i": int, "b": lambda v: v == "True", "n": lambda v: None}[k](v)


def token(v):
    return "n:" if v is None else ("b:" if isinstance(v, bool) else "i:" if isinstance(v, int) else "s:") + str(v)


def scenario(n, sc, out):
    root = os.path.join(SCR, f"s{n}")
    os.makedirs(os.path.join(root, "home"))
    os.environ["HOME"] = os.path.join(root, "home")
    path = os.path.join(root, "conf.yaml")
    os.environ["EARTHKIT_REGRID_CONFIG_FILE"] = path
    for o, v in sc["env"].items():
        os.environ[env_name(o)] = v.split(":", 1)[1]
    S = sched.install()
    import importlib
    import pkgutil

    import earthkit.regrid as er

    for m in pkgutil.walk_packages(er.__path__, "earthkit.regrid."):
        try:
            importlib.import_module(m.name)
        except Exception:
            pass
    from earthkit.regrid import config
    from earthkit.regrid.utils.memcache import memory_cache_info

    ev = []

    def call(t, o, live):
        e = dict(dict(items=[], o="", id=0, res="ok", got=""), e="inv", t=t, **o)
        ev.append(e)
        try:
            op = o["op"]
            d = {i["o"]: value(i["v"]) for i in o.get("items", [])}
            if op == "get":
                e["got"] = str(config.get(o["o"]))
            elif op == "set":
                if len(d) == 1 and o.get("form", 0) == 0:
                    config.set(*next(iter(d.items())))
                elif o.get("form", 0) == 1:
                    config.set(**{k.replace("-", "_"): v for k, v in d.items()})
                else:
                    config.set(d)
            elif op == "reset":
                config.reset(*([] if o["o"] == "*" else [o["o"]]))
            elif op == "enter":
                m = config.temporary(*([d] if d else []))
                m.__enter__()
                live[o["id"]] = m
            elif op == "exit":
                live.pop(o["id"]).__exit__(None, None, None)
            elif op == "end":
                i = memory_cache_info()
                e.update(got={x: str(config.get(x)) for x in OPTIONS}, pol=i.policy, max=str(i.maxsize))
                e["file"] = {}
                if sc["auto"]:
                    with open(path) as f:
                        y = yaml.safe_load(f)
                    e["file"] = {x: token(y[x]) for x in OPTIONS if x in y}
                # what is below ROOT
                for x in ("got", "file"):
                    e[x] = {k: v.replace(root, "ROOT") for k, v in e[x].items()}
        except Exception as x:
            e.update(res="err", err=type(x).__name__, why=str(x)[:100])
        ev.append(dict(e="ret", t=t))
        return e["res"] == "ok"

    seen = {}
    info = dict(sc=n, schedules=0, steps=0, env=sc["env"], auto=sc["auto"])

    def stuck(names):
        ev.append(dict(e="stuck", t=0))
        out.write(json.dumps(dict(ev=ev, id=dict(info, stuck=names))) + "\n")
        for k, c in seen.items():
            out.write(json.dumps(dict(ev=json.loads(k), id=c)) + "\n")
        out.close()
        os._exit(0)

    S.on_stuck = stuck
    clients = [f"c{t}" for t in range(1, len(sc["threads"]) + 1)]

    def once(policy, opcodes):
        S.policy = None
        config.autosave = sc["auto"]
        config.reset()
        ev.clear()
        for o in sc["setup"]:
            call(0, o, {})
        S.opcodes = opcodes

        def body(t, ops):
            live, skip = {}, 0
            for o in ops:
                if skip:  # the block of a temporary configuration that was refused
                    skip += (o["op"] == "enter") - (o["op"] == "exit")
                    continue
                if not call(t, o, live) and o["op"] == "enter":
                    skip = 1

        ts = [S.spawn(lambda t=t, ops=ops: body(t, ops), f"c{t}") for t, ops in enumerate(sc["threads"], 1)]
        s0 = S.steps
        S.policy = policy
        S.join(ts)
        S.policy = None
        k = S.steps - s0
        call(0, dict(op="end"), {})
        info["schedules"] += 1
        info["steps"] += k
        del config._stack[:]
        seen.setdefault(json.dumps(ev), dict(info, n=k))
        return k

    rng = random.Random(sc["seed"])
    order = lambda: ["main"] + rng.sample(clients, len(clients))
    lines = once(sched.preempt([], ["main"] + clients), False)
    codes = once(sched.preempt([], ["main"] + clients), True)
    every = sc["every"]
    # every schedule with one preemption
    for perm in ([clients, clients[::-1]] if len(clients) > 1 else [clients]):
        for at in range(1 + rng.randrange(every), lines + 1, every):
            once(sched.preempt([at], ["main"] + perm), False)
    for _ in range(sc["random"]):
        op = rng.random() < 0.5
        n = codes if op else lines
        if rng.random() < 0.6:
            p = sched.preempt([rng.randrange(1, n + 1) for _ in range(rng.choice([1, 2, 2, 3, 5]))], order())
        else:
            p = sched.walk(rng, rng.choice([0.5, 0.1, 0.02, 0.01] if op else [0.5, 0.2, 0.05]))
        once(p, op)
    for k, c in seen.items():
        out.write(json.dumps(dict(ev=json.loads(k), id=c)) + "\n")
    out.write(json.dumps(dict(info=info)) + "\n")


for n, sc in enumerate(job["scenarios"]):
    part = f"{sys.argv[2]}.{n}"
    pid = os.fork()
    if pid == 0:
        rc = 3
        try:
            with open(part, "w") as out:
                scenario(n, sc, out)
            rc = 0
        except BaseException:
            import traceback

            traceback.print_exc()
            sys.stderr.flush()
        finally:
            os._exit(rc)
    rc = os.waitpid(pid, 0)[1]
    if rc:
        raise SystemExit(f"scenario {sc} ended with {rc}")
with open(sys.argv[2], "w") as out:
    for n in range(len(job["scenarios"])):
        with open(f"{sys.argv[2]}.{n}") as f:
            out.write(f.read())
