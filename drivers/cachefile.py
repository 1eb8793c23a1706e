"""Threads and processes that ask for the same cache files under controlled schedules, with kills:
see spec/CacheFileTrace.tla."""

import json
import os
import random
import shutil
import signal
import sys
import threading
import warnings

warnings.simplefilter("ignore")
import zygote  # noqa: F401  loads the libraries

job = json.load(open(sys.argv[1]))
SCR = sys.argv[3]
OLD = 600  # the age given to files of slow creations


def body(n):
    return f"{n}:" + "x" * (20 + n % 7) + ":end"


QUIET = set()  # threads whose operations on files are not to be noticed


def quietly(f):
    def g(*args):
        me = threading.get_ident()
        if me in QUIET:
            return f(*args)
        QUIET.add(me)
        try:
            return f(*args)
        finally:
            QUIET.discard(me)

    return g


@quietly
def content(path):
    """0 nothing, n complete content n, -1 anything else"""
    try:
        if os.path.isdir(path):
            parts = []
            for x in ("a", "b"):
                with open(os.path.join(path, x)) as f:
                    parts.append(f.read())
            t = parts[0] + parts[1]
        else:
            with open(path) as f:
                t = f.read()
    except FileNotFoundError:
        return -1 if os.path.isdir(path) else 0
    try:
        n = int(t.split(":")[0])
        return n if t == body(n) else -1
    except ValueError:
        return -1


def creator(o, n, say, pause):
    """create() for a call: n() gives the number of the content"""

    def create(target, args):
        import time

        cid = n()
        say(dict(e="cs", c=o["c"], k=o["k"], id=cid))
        pause()
        text = body(cid)
        if o["kind"] == "dir":
            os.mkdir(target)
        fd = None
        for part, piece in enumerate((text[:3], text[3:9], text[9:])):
            p = target
            if o["kind"] == "dir":
                p = os.path.join(target, "a" if part == 0 else "b")
            with open(p, "w" if part == 0 or part == 1 and o["kind"] == "dir" else "a") as f:
                f.write(piece)
            if o["slow"]:
                t = time.time() - OLD
                os.utime(target, (t, t))
            pause()
            if o["fail"] and part == 1:
                say(dict(e="ce", c=o["c"], k=o["k"], id=cid, ok=False))
                raise ValueError("no content")
        say(dict(e="ce", c=o["c"], k=o["k"], id=cid, ok=True))
        pause()
        return dict(id=cid)

    return create


def perform(o, er, cache_file, say, pause, n, paths):
    c, k = o["c"], o["k"]
    if o["op"] == "purge":
        say(dict(e="pinv", c=c))
        res = "ok"
        try:
            er.cache.purge()
        except Exception as x:
            res = repr(x)[:100]
        pause()
        say(dict(e="pret", c=c, res=res))
        return
    if o["op"] == "look":
        for f in (er.cache.entries, er.cache.size, er.cache.summary_dump_database):
            f()
        return
    say(dict(e="inv", c=c, k=k, f=o["force"]))
    try:
        p = cache_file(f"owner{k}", creator(o, n, say, pause), dict(k=k), force=True if o["force"] else None, extension=".x")
        say(dict(e="ret", c=c, k=k, got=content(p), path=paths.index(p) + 1 if p in paths else 0))
    except Exception as x:
        say(dict(e="exc", c=c, k=k, why=repr(x)[:100]))


def setup(root):
    os.makedirs(os.path.join(root, "cache"), exist_ok=True)
    from earthkit.regrid import config

    config.autosave = False
    config.set({"cache-policy": "user", "user-cache-directory": os.path.join(root, "cache"), "maximum-cache-size": None, "maximum-cache-disk-usage": None})
    return config


def learn(er, cache_file, root):
    """The paths of the two files"""
    r = []
    for k in (1, 2):
        try:
            p = cache_file(f"owner{k}", lambda t, a: open(t, "w").close(), dict(k=k), extension=".x")
            r.append(os.path.basename(p))
        except Exception:
            r.append(f"unknown{k}")
    er.cache.purge()
    return r


def on_files(root, stop):
    """Calls stop() before every operation on a file of the cache (other than the database)"""
    top = os.path.join(root, "cache") + "/"

    def hit(path):
        me = threading.get_ident()
        if me in QUIET or not isinstance(path, str) or not path.startswith(top) or path.startswith(top + "cache-"):
            return
        QUIET.add(me)
        try:
            stop()
        finally:
            QUIET.discard(me)

    def hook(event, args):
        if event in ("open", "os.remove", "os.rename", "os.rmdir", "os.mkdir"):
            hit(args[0])
        elif event == "fcntl.flock":
            hit(top)

    stat = os.stat

    def new(path, *a, **b):
        hit(path)
        return stat(path, *a, **b)

    os.stat = new
    sys.addaudithook(hook)


# -- processes ----------------------------------------------------------------------------
class Proc:
    """A process that stops at every executed line of the code under test"""

    def __init__(self, root, ops, sched, c, lines=True):
        self.c = c
        self.lines = lines
        r1, self.w = os.pipe()
        self.r, w1 = os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            rc = 3
            try:
                self.child(r1, w1, root, ops, sched)
                rc = 0
            except BaseException:
                import traceback

                traceback.print_exc()
                sys.stderr.flush()
            finally:
                os._exit(rc)
        os.close(r1)
        os.close(w1)
        self.rf = os.fdopen(self.r, "rb")
        self.alive = True
        self.sleeping = False
        self.naps = 0
        self.creating = False
        self.at = b""

    def child(self, r, w, root, ops, names):
        import time

        import earthkit.regrid as er
        from earthkit.regrid.utils.caching import cache_file

        def send(x):
            os.write(w, x + b"\n")

        def wait():
            if os.read(r, 1) != b"g":
                os._exit(0)

        def pause(mark=b"y"):
            send(mark)
            wait()

        def n():
            send(b"n")
            return int.from_bytes(os.read(r, 4), "big")

        main = __import__("threading").get_ident()
        ident = __import__("threading").get_ident
        nap = time.sleep
        time.sleep = lambda x=0: pause(b"s") if ident() == main else nap(x)
        paths = [os.path.join(root, "cache", x) for x in names]
        wait()
        setup(root)

        outer = [None]

        def local(frame, event, arg):
            if event == "line":
                pause(b"y%d" % outer[0].f_lineno)
            return local

        def trace(frame, event, arg):
            if self.lines and "/earthkit/regrid/" in frame.f_code.co_filename and frame.f_code.co_name != "<module>":
                outer[0] = outer[0] or frame
                return local

        say = lambda e: send(json.dumps(e).encode())
        if not self.lines:
            on_files(root, lambda: pause() if ident() == main else None)
        pause()
        for o in ops:
            outer[0] = None
            sys.settrace(trace)
            perform(o, er, cache_file, say, pause, n, paths)
            sys.settrace(None)
            pause()
        er.cache.size()
        send(b"q")
        wait()

    def go(self, ev, ids):
        """Lets it run to its next stop; returns what it says"""
        os.write(self.w, b"g")
        while True:
            m = self.rf.readline()
            if m == b"":
                raise SystemExit(f"process ended: {os.waitpid(self.pid, 0)}")
            m = m[:-1]
            if m == b"n":
                ids[0] += 1
                os.write(self.w, ids[0].to_bytes(4, "big"))
                continue
            if m[:1] in (b"y", b"s"):
                self.sleeping = m == b"s"
                self.at = m[1:] or self.at
                return
            if m == b"q":
                self.alive = False
                os.write(self.w, b"g")
                self.end()
                return
            e = json.loads(m)
            self.creating = e["e"] == "cs" or self.creating and e["e"] != "ce"
            ev.append(e)

    def end(self):
        rc = os.waitpid(self.pid, 0)[1]
        os.close(self.w)
        self.rf.close()
        return rc

    def kill(self, ev):
        os.kill(self.pid, signal.SIGKILL)
        self.end()
        self.alive = False
        ev.append(dict(e="die", c=self.c, creating=self.creating))


def listed(er, paths):
    r = []
    for e in er.cache.entries():
        if e["path"] in paths:
            r.append(paths.index(e["path"]) + 1)
    return r


class Search:
    """Looks for schedules (points of preemption: thread and number of its step) that reach new
    states: where everyone is, and the files there are"""

    def __init__(self, rng):
        self.rng, self.known, self.corpus = rng, set(), []

    def begin(self, order, points, nap):
        self.it = (order, points, nap)
        self.new, self.pts, self.before, self.fresh = [], [], None, 0

    def visit(self, who, n, state):
        if state != self.before:
            self.before = state
            self.pts.append((who, n))
            if state not in self.known:
                self.known.add(state)
                self.new.append((who, n))

    def end(self):
        if self.new or len(self.corpus) < 2:
            self.corpus.append((self.it, self.new, self.pts))

    def next(self):
        rng = self.rng
        (order, points, nap), new, pts = rng.choice(self.corpus[-12:] if rng.random() < 0.5 else self.corpus)
        who, n = rng.choice(new if new and rng.random() < 0.6 else pts)
        p = [x for x in points if rng.random() > 0.1] + [(who, n - rng.choice([0, 0, 1]))]
        return order, p, nap if rng.random() < 0.9 else rng.choice([3, 20, 10**9])


def processes(root, names, procs, pick, kills, info, search=None, nap=10**9, lines=True):
    """One schedule.  pick(cur, enabled) chooses; kills: step of a process -> killed there;
    nap: the number of steps of others a sleep takes"""
    os.makedirs(os.path.join(root, "cache"))
    paths = [os.path.join(root, "cache", x) for x in names]
    ev, ids, sig = [], [0], [None, None]

    def see():
        for k, p in enumerate(paths):
            try:
                st = os.stat(p)
                s = (st.st_ino, st.st_mtime_ns, st.st_size)
                if os.path.isdir(p):
                    s += tuple((x, os.stat(os.path.join(p, x)).st_size) for x in sorted(os.listdir(p)))
            except OSError:
                s = None
            if s != sig[k]:
                sig[k] = s
                x = content(p)
                if x != cont[k]:
                    cont[k] = x
                    ev.append(dict(e="see", k=k + 1, x=x))

    cont = [0, 0]
    ps = [Proc(root, ops, names, c, lines) for c, ops in enumerate(procs, 1)]
    for p in ps:
        p.go(ev, ids)
    steps = {p.c: 0 for p in ps}
    cur, idle, total = None, 0, 0
    stuck = False
    before = None
    pick = pick(steps)
    while any(p.alive for p in ps):
        en = [p for p in ps if p.alive]
        awake = [p for p in en if not p.sleeping or p.sleeping <= total]
        if awake:
            idle = 0
            en = awake
        else:
            idle += 1
            if idle > 60:
                ev.append(dict(e="stuck"))
                stuck = True
                for p in ps:
                    if p.alive:
                        os.kill(p.pid, signal.SIGKILL)
                        p.end()
                break
            for p in en:
                p.sleeping = False
        cur = en[0] if len(en) == 1 else pick(cur, en)
        steps[cur.c] += 1
        total += 1
        if kills.get(cur.c) == steps[cur.c]:
            cur.kill(ev)
        else:
            cur.go(ev, ids)
            if cur.sleeping:
                cur.naps += 1  # longer and longer, so that the others can go on
                cur.sleeping = total + nap + cur.naps
        see()
        if search:
            search.visit(cur.c, steps[cur.c], (*((p.at, bool(p.sleeping)) if p.alive else 0 for p in ps), *sorted(x for x in os.listdir(root + "/cache") if "journal" not in x)))
        if total > 20000:
            raise SystemExit("too many steps")
    info["steps"] += total
    info["schedules"] += 1
    if not stuck:
        # a process that comes later finds the files, or creates them
        p = Proc(root, [dict(op="get", c=5, k=k, force=False, kind="file", slow=False, fail=False) for k in (1, 2)], names, 5)
        n = 0
        while p.alive:
            n += 1
            if n > 5000:
                ev.append(dict(e="stuck"))
                os.kill(p.pid, signal.SIGKILL)
                p.end()
                break
            p.go(ev, ids)
            see()
        else:
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                try:
                    import earthkit.regrid as er

                    setup(root)
                    os.write(w, json.dumps(listed(er, paths)).encode())
                finally:
                    os._exit(0)
            os.close(w)
            with os.fdopen(r) as f:
                ev.append(dict(e="end", listed=json.loads(f.read())))
            os.waitpid(pid, 0)
    shutil.rmtree(root)
    return ev, steps


def rank_policy(points, order):
    """points: (process, number of its step) where it goes to the end of the queue"""

    def make(steps):
        low, rank, pts = [0], {c: k for k, c in enumerate(order)}, set(points)

        def f(cur, en):
            if cur is not None and (cur.c, steps[cur.c]) in pts:
                low[0] += 1
                rank[cur.c] = 100 + low[0]
            return min(en, key=lambda p: rank[p.c])

        return f

    return make


def walk_policy(rng, q):
    return lambda steps: lambda cur, en: cur if cur in en and rng.random() >= q else rng.choice(en)


def run_processes(sc, n, out):
    import earthkit.regrid  # noqa: F401

    info = dict(schedules=0, steps=0, kills=0)
    rng = random.Random(sc["seed"])
    names = None
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            import earthkit.regrid as er
            from earthkit.regrid.utils.caching import cache_file

            root = os.path.join(SCR, f"n{n}")
            setup(root)
            os.write(w, json.dumps(learn(er, cache_file, root)).encode())
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r) as f:
        names = json.loads(f.read())
    os.waitpid(pid, 0)
    seen = {}
    count = [0]
    cs = list(range(1, len(sc["procs"]) + 1))

    search = Search(rng)

    def once(pick, kills, search=None, nap=10**9, lines=True):
        count[0] += 1
        ev, steps = processes(os.path.join(SCR, f"p{n}-{count[0]}"), names, sc["procs"], pick, kills, info, search, nap, lines)
        info["kills"] += len(kills)
        seen.setdefault(json.dumps(ev), dict(sc=n, no=count[0], kills=kills))
        return steps

    def guided(order, points, nap):
        search.begin(order, points, nap)
        r = once(rank_policy(points, order), {}, search, nap)
        search.end()
        return r

    naps = [3, 20, 10**9]
    steps = guided(cs, [], 3)
    for c, x in guided(cs[::-1], [], 10**9).items():
        steps[c] = max(steps[c], x)
    # a preemption at every point
    for order in (cs, cs[::-1]):
        for c in cs:
            for at in range(1 + rng.randrange(sc["every"]), steps[c] + 1, sc["every"]):
                guided(order, [(c, at)], rng.choice(naps))
    # a kill at every point
    for c in cs:
        for at in range(1 + rng.randrange(sc["kill"]), steps[c] + 1, sc["kill"]):
            once(rank_policy([], [c] + [x for x in cs if x != c]), {c: at})
            if rng.random() < 0.3:
                once(walk_policy(rng, rng.choice([0.5, 0.1, 0.03])), {c: at}, None, rng.choice(naps))
    for _ in range(sc["random"]):
        x = rng.random()
        if x < 0.6:
            guided(*search.next())
        elif x < 0.8:
            order, points, nap = search.next()
            c = rng.choice(cs)
            once(rank_policy(points, order), {c: rng.randint(1, steps[c])}, None, nap)
        else:
            once(walk_policy(rng, rng.choice([0.5, 0.2, 0.05, 0.02])), {}, None, rng.choice(naps))
    # at the operations on files
    for _ in range(sc["files"]):
        kills = {rng.choice(cs): rng.randint(1, 60)} if rng.random() < 0.2 else {}
        once(walk_policy(rng, rng.choice([1, 0.7, 0.5, 0.3])), kills, None, rng.choice([1, 3, 10]), False)
    info["states"] = len(search.known)
    for k, x in seen.items():
        out.write(json.dumps(dict(ev=json.loads(k), id=x)) + "\n")
    out.write(json.dumps(dict(info=info)) + "\n")


# -- keys -----------------------------------------------------------------------------------
def run_keys(sc, n, out):
    """Many keys, each asked for several times: the file of each, and which content it has"""
    import earthkit.regrid  # noqa: F401
    from earthkit.regrid.utils.caching import cache_file

    rng = random.Random(sc["seed"])
    setup(os.path.join(SCR, f"k{n}"))
    words = ["a", "b", "ab", "A", "1", "12", "", "a b", "/x", "é"]

    def value(d=0):
        x = rng.random()
        if d < 2 and x < 0.25:
            return {rng.choice(words): value(d + 1) for _ in range(rng.randrange(3))}
        if d < 2 and x < 0.4:
            return [value(d + 1) for _ in range(rng.randrange(3))]
        return rng.choice([0, 1, 12, 1.5, True, None, *words])

    def shuffled(v):
        if isinstance(v, dict):
            items = [(k, shuffled(x)) for k, x in v.items()]
            rng.shuffle(items)
            return dict(items)
        return [shuffled(x) for x in v] if isinstance(v, list) else v

    def same(v):
        return json.dumps(v, sort_keys=True)

    keys, asked, paths = {}, [], {}
    pool = [(rng.choice(["o", "O", "o1", "ow"]), rng.choice([dict(k=value()), [value()], dict(url=rng.choice(words), parts=value())]), rng.choice([None, None, {"v": value()}, "x"]), rng.choice([".x", ".y", ".npz", ""])) for _ in range(sc["keys"])]

    def twin(v, f):
        # the same in another case, in another order, as text
        if isinstance(v, dict):
            return {k if f != "case" else k.swapcase(): twin(y, f) for k, y in v.items()}
        if isinstance(v, list):
            return [twin(y, f) for y in (v[::-1] if f == "order" else v)]
        if isinstance(v, str):
            return v.swapcase() if f == "case" else f" {v}" if f == "blank" else v + "?q=1" if f == "query" else v
        return str(v) if f == "text" and v is not None else v

    words += ["http://h/A", "https://h/a", "http://h/a"]
    more = [dict(url="http://h/A/b.npz", parts=None), ["x", "y"], [["x", 1], "y", 2], dict(k=1, l=[1, 2]), ["aB", {"c": "D"}]]
    pool += [(o, y, h, x) for o, a, h, x in pool[:6] for f in ("case", "order", "text", "blank", "query") for z in [rng.choice([a, *more])] for y in (z, twin(z, f))]
    for o, a, h, x in pool + [rng.choice(pool) for _ in range(sc["keys"])]:
        k = keys.setdefault(same([o, a, h, x]), len(keys) + 1)

        def create(t, args):
            with open(t, "w") as f:
                f.write(str(k))

        try:
            p = cache_file(o, create, shuffled(a), hash_extra=shuffled(h), extension=x)
            with open(p) as f:
                got = int(f.read())
        except Exception:
            p, got = "none", 0
        asked.append(dict(k=k, p=paths.setdefault(p, len(paths) + 1), got=got))
    out.write(json.dumps(dict(ev=[dict(e="keys", asked=asked)], id=sc)) + "\n")


# -- threads --------------------------------------------------------------------------------
def run_threads(sc, n, out):
    import importlib
    import pkgutil

    import sched_co as sched

    S = sched.install()
    import earthkit.regrid as er

    for m in pkgutil.walk_packages(er.__path__, "earthkit.regrid."):
        try:
            importlib.import_module(m.name)
        except Exception:
            pass
    from earthkit.regrid.utils.caching import cache_file

    rng = random.Random(sc["seed"])
    info = dict(schedules=0, steps=0, kills=0)
    root = os.path.join(SCR, f"t{n}")
    setup(root)
    names = learn(er, cache_file, root)
    on_files(root, lambda: S.switch() if S.policy is not None and not S.lines and S.byident.get(threading.get_ident()) is S.cur else None)
    paths = [os.path.join(root, "cache", x) for x in names]
    seen, ev, cont, sig, ids = {}, [], [0, 0], [None, None], [0]
    clients = [f"c{t}" for t in range(1, len(sc["procs"]) + 1)]

    def finish():
        for k, x in seen.items():
            out.write(json.dumps(dict(ev=json.loads(k), id=x)) + "\n")
        out.write(json.dumps(dict(info=info)) + "\n")

    def stuck(who):
        seen[json.dumps(ev + [dict(e="stuck")])] = dict(sc=n, stuck=who)
        finish()
        out.close()
        os._exit(0)

    S.on_stuck = stuck

    @quietly
    def see():
        for k, p in enumerate(paths):
            try:
                st = os.stat(p)
                s = (st.st_ino, st.st_mtime_ns, st.st_size)
                if os.path.isdir(p):
                    s += tuple((x, os.stat(os.path.join(p, x)).st_size) for x in sorted(os.listdir(p)))
            except OSError:
                s = None
            if s != sig[k]:
                sig[k] = s
                x = content(p)
                if x != cont[k]:
                    cont[k] = x
                    ev.append(dict(e="see", k=k + 1, x=x))

    def num():
        ids[0] += 1
        return ids[0]

    def say(e):
        if S.policy is not None:
            see()
        ev.append(e)

    def watched(policy, search):
        @quietly
        def f(cur, en):
            see()
            if search and cur.name in clients:
                search.visit(cur.name, cur.n, (*((t.name, t.outer and t.outer.f_lineno, bool(t.sleeping), bool(t.pred)) for t in S.all if t.name in clients), *sorted(x for x in os.listdir(root + "/cache") if "journal" not in x)))
            return policy(cur, en)

        return f

    search = Search(rng)

    def once(policy, opcodes=False, search=None, nap=10**9, files=False):
        S.policy = None
        er.cache.purge()
        ev.clear()
        cont[:] = [0, 0]
        sig[:] = [None, None]
        ids[0] = 0
        S.opcodes = opcodes
        S.lines = not files
        S.nap = nap

        def work(ops):
            for o in ops:
                S.cur.outer = None
                perform(o, er, cache_file, say, S.switch, num, paths)

        ts = [S.spawn(lambda ops=ops: work(ops), f"c{t}") for t, ops in enumerate(sc["procs"], 1)]
        s0 = S.steps
        S.policy = watched(policy, search)
        S.join(ts)
        S.policy = None
        steps = S.steps - s0
        see()
        for k in (1, 2):
            perform(dict(op="get", c=5, k=k, force=False, kind="file", slow=False, fail=False), er, cache_file, lambda e: (see(), ev.append(e)), S.switch, num, paths)
            see()
        ev.append(dict(e="end", listed=listed(er, paths)))
        info["schedules"] += 1
        info["steps"] += steps
        seen.setdefault(json.dumps(ev), dict(sc=n, no=info["schedules"]))
        return steps

    def guided(order, points, nap):
        search.begin(order, points, nap)
        r = once(sched.at_points(points, ["main"] + order), False, search, nap)
        search.end()
        return r

    naps = [3, 20, 10**9]
    lines = guided(clients, [], 3)
    guided(clients[::-1], [], 10**9)
    for order in (clients, clients[::-1]):
        for at in range(1 + rng.randrange(sc["every"]), lines + 1, sc["every"]):
            once(sched.preempt([at], ["main"] + order), False, None, rng.choice(naps))
    for _ in range(sc["random"]):
        x = rng.random()
        if x < 0.7:
            guided(*search.next())
        elif x < 0.85:
            op = rng.random() < 0.5
            m = lines * (6 if op else 1)
            once(sched.preempt([rng.randint(1, m) for _ in range(rng.choice([1, 2, 2, 3, 4]))], ["main"] + rng.sample(clients, len(clients))), op, None, rng.choice(naps))
        else:
            once(sched.walk(rng, rng.choice([0.5, 0.1, 0.03])), rng.random() < 0.3, None, rng.choice(naps))
    for _ in range(sc["files"]):
        once(sched.walk(rng, rng.choice([1, 0.7, 0.5, 0.3])), False, None, rng.choice([1, 3, 10]), True)
    info["states"] = len(search.known)
    finish()


for n, sc in enumerate(job["scenarios"]):
    part = f"{sys.argv[2]}.{n}"
    pid = os.fork()
    if pid == 0:
        rc = 3
        try:
            home = os.path.join(SCR, f"home{n}")
            os.makedirs(home)
            os.environ["EARTHKIT_REGRID_CONFIG_FILE"] = os.path.join(home, "conf.yaml")
            with open(part, "w") as out:
                dict(threads=run_threads, processes=run_processes, keys=run_keys)[sc["mode"]](sc, n, out)
            rc = 0
        except BaseException:
            import traceback

            traceback.print_exc()
            sys.stderr.flush()
        finally:
            os._exit(rc)
    rc = os.waitpid(pid, 0)[1]
    if rc:
        raise SystemExit(f"scenario {sc} ended with {rc}")
with open(sys.argv[2], "w") as out:
    for n in range(len(job["scenarios"])):
        with open(f"{sys.argv[2]}.{n}") as f:
            out.write(f.read())
