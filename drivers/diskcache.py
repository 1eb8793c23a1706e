"""Runs histories of disk cache operations: see spec/DiskCacheTrace.tla."""

import json
import os
import shutil
import sys
import threading

from zygote import Child, line_killer

job = json.load(open(sys.argv[1]))
SCR = sys.argv[3]
UNIT = 100
KEYS = {
    "a": dict(owner="url", args=["x"], ext=".cache"),
    "b": dict(owner="url", args=["x"], ext=".nc"),
    "c": dict(owner="url", args=["y", {"z": [1, None, "\u00e9"]}], ext=".cache"),
    "d": dict(owner="Url", args=["x"], ext=".cache"),
    "e": dict(owner="url", args=["x"], ext=".cache", extra="h"),
    "f": dict(owner="a-dir", args={"u": 1, "t": "y"}, ext=".d", dir=True),
    "g": dict(owner="url", args={"u": "1", "t": "y"}, ext=""),
    "h": dict(owner="a-dir", args=["x", 1], ext=".d.cache", dir=True, extra={"q": 2}),
}


def make(path, k, n, size, outside):
    head = f"{k}:{n}:{size}:"
    if KEYS[k].get("dir"):
        os.makedirs(os.path.join(path, "sub"))
        os.symlink(outside, os.path.join(path, "link"))
        total = size * UNIT
        first = min(len(head), total)
        with open(os.path.join(path, "head"), "w") as f:
            f.write(head[:first])
        with open(os.path.join(path, "sub", "rest"), "w") as f:
            f.write("." * (total - first))
        if size == 0:
            os.mkdir(os.path.join(path, "v-" + head.replace(":", "-")))
    elif size == 0:
        with open(path, "w"):
            pass
        os.utime(path, ns=(0, (4 * 10**9 + n) * 10**9))
    else:
        with open(path, "w") as f:
            f.write(head.ljust(size * UNIT, "."))


def look(path, k):
    """Version of the content, and whether it is complete."""
    try:
        if os.path.isdir(path):
            if not KEYS[k].get("dir"):
                return 0, False
            v = [x for x in os.listdir(path) if x.startswith("v-")]
            if v:
                _, kk, n, size, _ = v[0].split("-")
                return int(n), kk == k
            head = open(os.path.join(path, "head")).read()
            text = head + open(os.path.join(path, "sub", "rest")).read()
            if not os.path.islink(os.path.join(path, "link")):
                return 0, False
        else:
            text = open(path).read()
            if text == "":
                return int(os.stat(path).st_mtime_ns // 10**9) - 4 * 10**9, True
        kk, n, size, rest = text.split(":", 3)
        return int(n), kk == k and len(text) == int(size) * UNIT
    except Exception:
        return 0, False


def real_size(top, leftovers):
    """Size of the files of the cache, without what failed creations left behind."""
    s = 0
    for r, ds, fs in os.walk(top):
        ds[:] = [x for x in ds if os.path.join(r, x) not in leftovers]
        for f in fs:
            p = os.path.join(r, f)
            if not f.startswith("cache-") and p not in leftovers and not os.path.islink(p):
                try:
                    s += os.path.getsize(p)
                except OSError:
                    pass
    return s


class Session:
    def __init__(self, root, paths, tilde=False):
        self.root = root
        self.tilde = tilde
        self.paths = paths  # {directory: {key: path}}

    def __call__(self, fin, fout):
        import earthkit.regrid as er
        from earthkit.regrid.utils.caching import cache_file

        os.chdir(os.path.join(self.root, "cwd"))
        self.er, self.cache_file, self.fout = er, cache_file, fout
        self.config = er.config
        self.fake_disk()
        for line in fin:
            o = json.loads(line)
            op = o["op"]
            if op == "quit":
                return
            r = {}
            if op == "start":
                if o["first"]:
                    self.config.set({"cache-policy": "user", "user-cache-directory": self.opt("u1"), "maximum-cache-size": None, "maximum-cache-disk-usage": None,
                                     "temporary-cache-directory-root": self.opt("ta"), "temporary-directory-root": self.opt("oa")})
            elif op == "req":
                r = self.request(o)
            elif op == "kill":
                er.cache.size()
                t = line_killer(o["at"])
                threading.settrace_all_threads(t)
                sys.settrace(t)
                self.request(o)
                sys.settrace(None)
                threading.settrace_all_threads(None)
                er.cache.size()
                if o.get("exit"):
                    os._exit(9)
                fout.write(json.dumps(dict(survived=True)) + "\n")
                fout.flush()
                continue
            elif op == "purge":
                m = o["m"]
                if m == "all":
                    er.cache.purge()
                elif m == "keys":
                    want = [(KEYS[k]["owner"], KEYS[k]["args"], KEYS[k]["ext"]) for k in o["ks"]]
                    known = {os.path.basename(p): k for d in self.paths.values() for k, p in d.items()}
                    er.cache.purge(matcher=lambda e: known.get(os.path.basename(e["path"])) in o["ks"] if os.path.basename(e["path"]) in known else (e["owner"], e["args"]) in [w[:2] for w in want])
                elif m == "big":
                    er.cache.purge(matcher=lambda e: (e["size"] or 0) > o["size"] * UNIT)
                elif m == "none":
                    er.cache.purge(matcher=lambda e: False)
            elif op == "lose":
                p = self.paths.get(er.cache.directory(), {}).get(o["k"])
                if not er.cache.policy.managed() or p is None or not os.path.exists(p):
                    r["skip"] = True
                else:
                    shutil.rmtree(p) if os.path.isdir(p) else os.unlink(p)
            elif op == "limit":
                self.change({"maximum-cache-size": None if o["l"] < 0 else o["l"] * UNIT if o["l"] % 2 else str(o["l"] * UNIT),
                             "maximum-cache-disk-usage": None if o["q"] < 0 else o["q"]}, o)
            elif op == "policy":
                self.change({"cache-policy": o["p"]}, o)
            elif op == "move":
                self.change({"user-cache-directory": self.opt(o["u"])}, o)
            elif op == "root":
                pol = self.config.get("cache-policy")
                d = {}
                for opt, a, b, mine in (("temporary-cache-directory-root", "ta", "tb", "temporary"), ("temporary-directory-root", "oa", "ob", "off")):
                    if pol == "user" or pol == mine:
                        d[opt] = self.opt(b if self.config.get(opt) == self.opt(a) else a)
                self.change(d, o)
            elif op == "other":
                # the root which is not in use
                pol = self.config.get("cache-policy")
                d = {}
                for opt, a, b, mine in (("temporary-cache-directory-root", "ta", "tb", "temporary"), ("temporary-directory-root", "oa", "ob", "off")):
                    if pol != mine:
                        d[opt] = self.opt(b if self.config.get(opt) == self.opt(a) else a)
                self.change(d, o)
            else:
                raise SystemExit(op)
            r.update(self.observe())
            fout.write(json.dumps(r) + "\n")
            fout.flush()

    def p(self, name):
        return os.path.join(self.root, name)

    def opt(self, name):
        """A directory as it is written in the configuration."""
        return "~/" + name if self.tilde else self.p(name)

    def change(self, d, o):
        if o.get("how") == "single":
            for k, v in d.items():
                self.config.set(k, v)
        else:
            self.config.set(d)

    def fake_disk(self):
        """A disk of 100 units, on which there is nothing but the files of the cache."""
        real = os.statvfs
        root = self.root

        class Stat:
            pass

        def fake(path):
            if not os.path.realpath(path).startswith(os.path.realpath(root)):
                return real(path)
            s = Stat()
            used = real_size(path, set(open(self.p("leftovers")).read().split("\n"))) // UNIT
            s.f_frsize = s.f_bsize = UNIT
            s.f_blocks = 100
            s.f_bfree = s.f_bavail = 100 - used
            return s

        os.statvfs = fake

    def request(self, o):
        k = KEYS[o["k"]]
        r = dict(err="", created=0, asked=[], got=0, path="")

        def create(path, args):
            r["created"] += 1
            r["argsok"] = args == k["args"]
            how = o["how"]
            if how != "ok" or o["op"] == "kill":
                with open(self.p("leftovers"), "a") as f:
                    f.write(path + "\n")
            if how == "die":
                make(path, o["k"], 99999, 3, self.p("outside"))
                os._exit(9)
            if how == "raise" and o["n"] % 2:
                raise RuntimeError("raise")
            make(path, o["k"], o["n"], o["size"], self.p("outside"))
            if how == "raise":
                raise RuntimeError("raise")
            if how == "stop":
                raise KeyboardInterrupt("stop")
            if o["od"].startswith("raw "):
                return json.loads(o["od"][4:])
            return {"v": o["od"], "more": [1, None]} if o["od"] else None

        def ask(args, path, od):
            known = self.paths.get(self.er.cache.directory(), {}).get(o["k"])
            r["asked"].append(dict(args=args == k["args"], path=path == known if known else os.path.exists(path), od=self.od(od)))
            return o["f"] == "fn1"

        force = {"none": None, "true": True, "false": False}.get(o["f"], ask)
        kw = {}
        if "extra" in k:
            kw["hash_extra"] = k["extra"]
        if k["ext"] != ".cache":
            kw["extension"] = k["ext"]
        if force is not None or o["n"] % 2:
            kw["force"] = force
        d = self.er.cache.directory()
        try:
            path = self.cache_file(k["owner"], create, k["args"], **kw)
        except RuntimeError as e:
            r["err"] = str(e)
        except KeyboardInterrupt as e:
            r["err"] = str(e)
        else:
            if os.path.dirname(path) == d and self.config.get("cache-policy") != "off":
                self.paths.setdefault(d, {})[o["k"]] = path
            r["path"] = path
            n, whole = look(path, o["k"])
            r["got"] = n if whole else -1
            if self.config.get("cache-policy") == "off":
                r["got"] = n if whole and os.path.dirname(path) == d else -1
        if r.pop("argsok", True) is False:
            r["err"] = "wrong args"
        return r

    def od(self, v):
        if v is None:
            return ""
        if isinstance(v, dict) and v.get("more") == [1, None]:
            return v["v"]
        return "raw " + json.dumps(v, sort_keys=True)

    def observe(self):
        er = self.er
        c = er.cache
        r = dict(managed=False, entries=[], count=0, sum=0, total=0, vis=[])
        total = c.size()
        d = c.directory()
        r["pol"] = c.policy.name
        pol = self.config.get("cache-policy")
        par = os.path.dirname(d)
        opt = {"temporary": "temporary-cache-directory-root", "off": "temporary-directory-root"}
        r["place"] = (d if pol == "user" else par) == os.path.expanduser(self.config.get("user-cache-directory" if pol == "user" else opt[pol]))
        r["place"] = r["place"] and os.path.isdir(d)
        r["dir"] = d if pol != "user" else ""
        mine = self.paths.get(d, {})
        if total is not None or c.entries() is not None:
            r["managed"] = True
            cs = c.summary_dump_database()
            r["count"], r["sum"], r["total"] = cs[0], units(cs[1]), units(total)
            known = {p: k for k, p in mine.items()}
            for e in c.entries():
                k = known.get(e["path"])
                if k is None:
                    kk = [x for x in KEYS if (KEYS[x]["owner"], KEYS[x]["args"]) == (e["owner"], e["args"]) and x not in mine]
                    kk = [x for x in kk if look(e["path"], x)[1]] or kk
                    k = kk[0] if len(kk) >= 1 else "?"
                    if k != "?":
                        mine[k] = e["path"]
                        self.paths[d] = mine
                K = KEYS.get(k, {})
                r["entries"].append(dict(k=k, size=units(e["size"]), args=e["args"] == K.get("args") and e["owner"] == K.get("owner"), od=self.od(e["owner_data"])))
            for k, p in sorted(mine.items()):
                if os.path.lexists(p):
                    n, whole = look(p, k)
                    r["vis"].append(dict(k=k, n=n, whole=whole))
        r["learned"] = self.paths
        return r


def units(b):
    if b is None:
        return -1
    return b // UNIT if b % UNIT == 0 else -b


def sentinel(d):
    return sorted((x, open(os.path.join(d, x)).read()) for x in os.listdir(d))


def history(n, ops):
    root = os.path.join(SCR, f"h{n}")
    outside = os.path.join(root, "outside")
    os.makedirs(outside)
    for x in ("a", "url-b.cache"):
        open(os.path.join(outside, x), "w").write(x)
    open(os.path.join(root, "sentinel"), "w").write("s")
    open(os.path.join(root, "leftovers"), "w").close()
    for x in ("ta", "tb", "oa", "ob"):
        os.makedirs(os.path.join(root, x))
        open(os.path.join(root, x, "sentinel"), "w").write("s")
    want = sentinel(outside)
    os.makedirs(os.path.join(root, "cwd"))
    env = {"EARTHKIT_REGRID_CONFIG_FILE": os.path.join(root, "conf.yaml"), "HOME": root}
    paths, tdirs, ids = {}, {}, {}
    state = dict(dir="")

    def start(first=False):
        c = Child(root, env, Session(root, paths, n % 3 == 1))
        return c, c.ask(dict(op="start", first=first))

    def finish(r):
        if r is None:
            raise SystemExit("session died")
        paths.clear()
        paths.update(r.pop("learned"))
        r["was"] = [tdirs[state["dir"]]] if state["dir"] else []
        state["dir"] = r.pop("dir")
        if state["dir"]:
            tdirs.setdefault(state["dir"], len(tdirs) + 1)
        r["gone"] = sorted(i for d, i in tdirs.items() if not os.path.exists(d))
        r["outside"] = sentinel(outside) == want and all(os.path.exists(os.path.join(root, x, "sentinel")) for x in ("ta", "tb", "oa", "ob", ".")) and not os.listdir(os.path.join(root, "cwd"))
        if "path" in r:
            r["path"] = ids.setdefault(r["path"], len(ids) + 1)
        return r

    c, r = start(True)
    finish(r)
    ev = []
    for m, o in enumerate(ops):
        o = dict(o)
        if o["op"] in ("req", "kill"):
            o.setdefault("n", 10 * (m + 1) + o.get("odd", 0))
        if o["op"] == "session":
            if c.close():
                raise SystemExit("session failed")
            c, r = start()
        elif o["op"] == "kill" or o.get("how") == "die":
            r = c.ask(o)
            survived = bool(r and r.get("survived"))
            if r and not survived:
                # the creation did not run: an ordinary request
                if o["op"] == "kill":
                    raise SystemExit(f"unexpected {r}")
            else:
                c.close()
                c, r = start()
                if o["op"] != "kill":
                    r.update(err="die", created=1, asked=[], got=0, path="")
        else:
            r = c.ask(o)
            if r is None:
                raise SystemExit(f"session died at {o}")
        r = finish(r)
        if r.pop("skip", False):
            continue
        o.pop("at", None)
        ev.append(dict(o, **r))
    if c.close():
        raise SystemExit("session failed")
    shutil.rmtree(root)
    return ev


with open(sys.argv[2], "w") as out:
    for n, ops in enumerate(job["seqs"]):
        out.write(json.dumps(dict(ev=history(n, ops), id=n)) + "\n")
