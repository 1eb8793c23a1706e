"""Processes that share one configuration file under controlled schedules, with kills: see
spec/ConfigFileTrace.tla."""

import json
import logging
import os
import random
import shutil
import signal
import sys
import warnings

warnings.simplefilter("ignore")
logging.disable(logging.CRITICAL)
import filelock  # noqa: F401
import packaging.version  # noqa: F401
import yaml
import zygote  # noqa: F401  loads the libraries

try:
    import deprecation  # noqa: F401
except ImportError:
    pass

job = json.load(open(sys.argv[1]))
SCR = sys.argv[3]
OPTIONS = job["options"]
DEFAULTS = job["defaults"]


def token(v):
    return "n:" if v is None else ("b:" if isinstance(v, bool) else "i:" if isinstance(v, int) else "s:") + str(v)


def value(tok):
    k, v = tok.split(":", 1)
    return {"s": str, "i": int, "b": lambda v: v == "True", "n": lambda v: None}[k](v)


def content(path):
    """What a session would read"""
    none = {o: "" for o in OPTIONS}
    try:
        with open(path) as f:
            text = f.read()
    except OSError:
        return dict(has=False, bad=False, v=none)
    try:
        y = yaml.safe_load(text)
        # the last line of a complete file
        bad = not isinstance(y, dict) or "version" not in y
        return dict(has=True, bad=bad, v=none if bad else {o: token(y[o]) if o in y else DEFAULTS[o] for o in OPTIONS})
    except Exception:
        return dict(has=True, bad=True, v=none)


class Proc:
    """A session that stops at executed lines of the module and at operations on the files"""

    def __init__(self, root, ops, c, lines=True):
        self.c = c
        r1, self.w = os.pipe()
        self.r, w1 = os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            rc = 3
            try:
                self.child(r1, w1, root, ops, lines)
                rc = 0
            except BaseException:
                import traceback

                traceback.print_exc()
                sys.stderr.flush()
            finally:
                os._exit(rc)
        os.close(r1)
        os.close(w1)
        self.rf = os.fdopen(self.r, "rb")
        self.alive, self.sleeping, self.naps, self.at = True, False, 0, b""

    def child(self, r, w, root, ops, lines):
        import threading
        import time

        def send(x):
            os.write(w, x + b"\n")

        def wait():
            if os.read(r, 1) != b"g":
                os._exit(0)

        busy = [False]
        me = threading.get_ident()

        def pause(mark=b"y"):
            if busy[0] or threading.get_ident() != me:
                return
            busy[0] = True
            send(mark)
            wait()
            busy[0] = False

        # each sleep takes a second
        nap, late = time.sleep, [0]

        def sleep(x=0):
            if threading.get_ident() != me:
                return nap(x)
            late[0] += 1
            pause(b"s")

        time.sleep = sleep
        for n in ("time", "monotonic", "perf_counter"):
            setattr(time, n, lambda f=getattr(time, n): f() + late[0])
        os.environ["HOME"] = os.path.join(root, "home")
        d = os.path.join(root, "d", "conf")
        os.environ["EARTHKIT_REGRID_CONFIG_FILE"] = os.path.join(d, "c.yaml")
        os.environ["EARTHKIT_REGRID_CACHE_POLICY"] = "off"
        os.umask(0o022)

        def hook(event, args):
            if event in ("open", "os.remove", "os.rename", "os.rmdir", "os.mkdir", "os.chmod", "os.listdir"):
                if isinstance(args[0], str) and args[0].startswith(root + "/d"):
                    near[0] = 3
                    pause(b"y" + event.encode())
            elif event == "fcntl.flock":
                near[0] = 3
                pause(b"yflock")

        near = [0]  # lines just after an operation on the files
        stat = os.stat

        def looks(path, *a, **k):
            if isinstance(path, str) and path.startswith(root + "/d"):
                near[0] = 3
                pause(b"ystat")
            return stat(path, *a, **k)

        os.stat = looks

        def local(frame, event, arg):
            if event == "line" and near[0] > 0:
                near[0] -= 1
                pause(b"y%d" % frame.f_lineno)
            return local

        def trace(frame, event, arg):
            if frame.f_code.co_filename.endswith("/earthkit/regrid/utils/config.py") and frame.f_code.co_name != "<module>":
                return local

        wait()
        sys.addaudithook(hook)
        say = lambda e: send(json.dumps(e).encode())
        say(dict(e="start", c=self.c))
        if lines:
            sys.settrace(trace)
        pause()
        try:
            from earthkit.regrid.utils.config import CONFIG as config

            sys.settrace(None)
            mask = os.umask(0o022)
            os.umask(mask)
            have = {o: token(config._config[o]) for o in OPTIONS}
            say(dict(e="up", c=self.c, get=have, umask=mask == 0o022))
            pause()
            for op in ops:
                if op["op"] == "set":
                    to = dict(have, **{i["o"]: i["v"] for i in op["items"]})
                else:
                    to = dict(DEFAULTS) if op["o"] == "*" else dict(have, **{op["o"]: DEFAULTS[op["o"]]})
                say(dict(e="set", c=self.c, **{"from": have}, to=to))
                if lines:
                    sys.settrace(trace)
                if op["op"] == "set":
                    config.set({i["o"]: value(i["v"]) for i in op["items"]})
                else:
                    config.reset(*([] if op["o"] == "*" else [op["o"]]))
                sys.settrace(None)
                have = {o: token(config._config[o]) for o in OPTIONS}
                say(dict(e="ret", c=self.c, get=have))
                pause()
        except Exception as x:
            sys.settrace(None)
            say(dict(e="error", c=self.c, why=repr(x)[:200]))
        busy[0] = True
        send(b"q")
        wait()

    def go(self, ev):
        """Lets it run to its next stop; returns what it says"""
        os.write(self.w, b"g")
        while True:
            m = self.rf.readline()
            if m == b"":
                raise SystemExit(f"process ended: {os.waitpid(self.pid, 0)}")
            m = m[:-1]
            if m[:1] in (b"y", b"s"):
                self.sleeping = m == b"s"
                self.at = m[1:] or self.at
                return
            if m == b"q":
                self.alive = False
                os.write(self.w, b"g")
                self.end()
                return
            ev.append(json.loads(m))

    def end(self):
        rc = os.waitpid(self.pid, 0)[1]
        os.close(self.w)
        self.rf.close()
        return rc

    def kill(self, ev):
        os.kill(self.pid, signal.SIGKILL)
        self.end()
        self.alive = False
        ev.append(dict(e="die", c=self.c))


def once(root, sc, pick, kills, nap, lines, info):
    d = os.path.join(root, "d", "conf")
    path = os.path.join(d, "c.yaml")
    os.makedirs(os.path.join(root, "home"))
    os.makedirs(os.path.join(root, "d"))
    if sc["first"]:
        os.makedirs(d)
        with open(path, "w") as f:
            f.write(job["file"])
    first = content(path)
    ev, sig = [], [None]

    def see(c):
        try:
            st = os.stat(path)
            s = (st.st_ino, st.st_mtime_ns, st.st_size)
        except OSError:
            s = None
        if s != sig[0]:
            sig[0] = s
            ev.append(dict(e="see", c=c, **content(path)))

    if sc["first"]:
        see(1)
        ev.clear()
    ps = [Proc(root, ops, c, lines) for c, ops in enumerate(sc["procs"], 1)]
    steps = {p.c: 0 for p in ps}
    cur, idle, total, stuck = None, 0, 0, False
    pick = pick(steps)

    def step(p):
        # the content that appears is seen before what the process says next
        out = []
        p.go(out)
        see(p.c)
        ev.extend(out)

    while any(p.alive for p in ps):
        en = [p for p in ps if p.alive]
        awake = [p for p in en if not p.sleeping or p.sleeping <= total]
        if awake:
            idle = 0
            en = awake
        else:
            idle += 1
            if idle > 60:
                ev.append(dict(e="stuck"))
                stuck = True
                for p in ps:
                    if p.alive:
                        os.kill(p.pid, signal.SIGKILL)
                        p.end()
                break
            for p in en:
                p.sleeping = False
        cur = en[0] if len(en) == 1 else pick(cur, en)
        steps[cur.c] += 1
        total += 1
        if kills.get(cur.c) == steps[cur.c]:
            cur.kill(ev)
        else:
            step(cur)
            if cur.sleeping:
                cur.naps += 1
                cur.sleeping = total + nap + cur.naps
        if total > 20000:
            raise SystemExit("too many steps")
    info["steps"] += total
    info["schedules"] += 1
    info["kills"] += len(kills)
    if not stuck:
        p = Proc(root, [dict(op="set", items=[dict(o=OPTIONS[0], v="i:77")])], 5, False)
        n = 0
        while p.alive and n < 3000:
            n += 1
            step(p)
        if p.alive:
            os.kill(p.pid, signal.SIGKILL)
            p.end()
            ev.append(dict(e="stuck"))
        else:
            ev.append(dict(e="end", left=len(os.listdir(d)) - 1, files=sorted(os.listdir(d))))
    shutil.rmtree(root)
    return ev, steps, first


def rank_policy(points, order):
    def make(steps):
        low, rank, pts = [0], {c: k for k, c in enumerate(order)}, set(points)

        def f(cur, en):
            if cur is not None and (cur.c, steps[cur.c]) in pts:
                low[0] += 1
                rank[cur.c] = 100 + low[0]
            return min(en, key=lambda p: rank[p.c])

        return f

    return make


def walk_policy(rng, q):
    return lambda steps: lambda cur, en: cur if cur in en and rng.random() >= q else rng.choice(en)


def run(sc, n, out):
    info = dict(schedules=0, steps=0, kills=0)
    rng = random.Random(sc["seed"])
    seen = {}
    cs = list(range(1, len(sc["procs"]) + 1))
    naps = [1, 3, 20, 10**9]

    def go(pick, kills={}, nap=3, lines=True):
        k = info["schedules"]
        ev, steps, first = once(os.path.join(SCR, f"p{n}-{k}"), sc, pick, kills, nap, lines, info)
        seen.setdefault(json.dumps(ev), dict(sc=n, no=k, kills=kills, defaults=DEFAULTS, first=dict(has=first["has"], v=first["v"])))
        return steps

    steps = go(rank_policy([], cs))
    for c, x in go(rank_policy([], cs[::-1]), nap=10**9).items():
        steps[c] = max(steps[c], x)
    for order in (cs, cs[::-1]):
        for c in cs:
            for at in range(1 + rng.randrange(sc["every"]), steps[c] + 1, sc["every"]):
                go(rank_policy([(c, at)], order), nap=rng.choice(naps))
    for c in cs:
        for at in range(1 + rng.randrange(sc["kill"]), steps[c] + 1, sc["kill"]):
            go(rank_policy([], [c] + [x for x in cs if x != c]), {c: at})
    for _ in range(sc["random"]):
        x = rng.random()
        if x < 0.5:
            pts = [(c, rng.randint(1, steps[c])) for c in (rng.choice(cs) for _ in range(rng.choice([1, 2, 2, 3, 4])))]
            go(rank_policy(pts, rng.sample(cs, len(cs))), {rng.choice(cs): rng.randint(1, max(steps.values()))} if rng.random() < 0.3 else {}, rng.choice(naps))
        else:
            go(walk_policy(rng, rng.choice([0.5, 0.2, 0.05, 0.02])), {}, rng.choice(naps))
    for _ in range(sc["files"]):
        kills = {rng.choice(cs): rng.randint(1, 25)} if rng.random() < 0.2 else {}
        go(walk_policy(rng, rng.choice([1, 0.7, 0.5, 0.3])), kills, rng.choice([1, 3, 10]), False)
    for k, x in seen.items():
        out.write(json.dumps(dict(ev=json.loads(k), id=x)) + "\n")
    out.write(json.dumps(dict(info=info)) + "\n")


with open(sys.argv[2], "w") as out:
    for n, sc in enumerate(job["scenarios"]):
        run(sc, n, out)
