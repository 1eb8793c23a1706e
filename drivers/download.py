"""Downloads of files from a server under control: see spec/DownloadTrace.tla."""

import json
import os
import random
import shutil
import sys

from zygote import Child, line_killer
import multiurl  # noqa: F401
import pytz  # noqa: F401
from httpd import Server

job = json.load(open(sys.argv[1]))
SCR = sys.argv[3]
NAMES = {1: "x/f.npz", 2: "x/f.npz?q=1", 3: "y/f.npz", 4: "x/F.npz", 5: "x/f.tar.gz", 6: "x/f.npz?q=2"}
CHUNK = 32


def body(u, v):
    size = {0: 40, 1: 300, 2: 200, 3: 300}[v % 4] + u % 2
    rng = random.Random(f"{u}-{v}")
    head = f"{u}:{v}:{size}:"
    return head + "".join(rng.choice("abcdefghijklmnop") for _ in range(size - len(head)))


def decode(path):
    try:
        with open(path) as f:
            t = f.read()
        u, v, size, _ = t.split(":", 3)
        u, v = int(u), int(v)
        return dict(u=u, v=v, whole=t == body(u, v))
    except Exception:
        return dict(u=0, v=0, whole=False)


class Die(BaseException):
    pass


class Session:
    def __init__(self, root, base):
        self.root, self.base = root, base

    def __call__(self, fin, fout):
        import time

        time.sleep = lambda x: None
        import threading

        import earthkit.regrid as er
        from earthkit.regrid import config
        from earthkit.regrid.utils.download import download_and_cache

        config.autosave = False
        config.set({"cache-policy": "user", "user-cache-directory": os.path.join(self.root, "cache"), "check-out-of-date-urls": False, "download-out-of-date-urls": False, "url-download-timeout": "20s"})

        def bar(how, at):
            class Bar:
                def __init__(self, *a, **k):
                    self.n = 0

                def __enter__(self):
                    return self

                def __exit__(self, *a):
                    pass

                def update(self, n):
                    self.n += 1
                    if self.n == at:
                        if how == "die":
                            os._exit(9)
                        if how == "stop":
                            raise Die()

                def close(self):
                    pass

            return Bar

        for line in fin:
            o = json.loads(line)
            if o["op"] == "quit":
                return
            r = {}
            if o["op"] == "get":
                r = dict(err="", got=0)
                if o.get("line"):
                    er.cache.size()
                    t = line_killer(o["line"])
                    threading.settrace_all_threads(t)
                    sys.settrace(t)
                kw = {}
                if o["force"]:
                    kw["force"] = True if o["at"] % 2 else (lambda args, path, data: True)
                try:
                    p = download_and_cache(self.base + NAMES[o["u"]], chunk_size=CHUNK, update_if_out_of_date=o["upd"], progress_bar=bar(o["how"], o["at"]), **kw)
                    x = decode(p)
                    r["got"] = x["v"] if x["whole"] and x["u"] == o["u"] else -1
                except Die:
                    r["err"] = "stop"
                except Exception as e:
                    r.update(err="fail", why=repr(e)[:200])
                finally:
                    sys.settrace(None)
                    threading.settrace_all_threads(None)
            elif o["op"] == "conf":
                config.set({"check-out-of-date-urls": o["chk"], "download-out-of-date-urls": o["dl"]})
            elif o["op"] == "lose":
                r["lost"] = 0
                for e in er.cache.entries():
                    if decode(e["path"])["u"] == o["u"]:
                        os.unlink(e["path"])
                        r["lost"] += 1
            er.cache.size()  # what the cache has still to do is done
            r["vis"] = [decode(e["path"]) for e in er.cache.entries() if os.path.exists(e["path"])]
            fout.write(json.dumps(r) + "\n")
            fout.flush()


def history(server, n, h):
    root = os.path.join(SCR, f"h{n}")
    os.makedirs(os.path.join(root, "cache"))
    rng = random.Random(h["seed"])
    opts = dict(ranges=rng.random() < 0.75)
    base = f"http://127.0.0.1:{server.port}/h{n}/"
    env = {"EARTHKIT_REGRID_CONFIG_FILE": os.path.join(root, "conf.yaml")}
    start = lambda: Child(root, env, Session(root, base))
    server.log()
    ev = []
    c = start()
    for o in h["ops"]:
        o = dict(o)
        op = o["op"]
        if op == "pub":
            u, v = o["u"], o["v"]
            b = body(u, v)
            st = {"gone": "missing"}.get(o["st"], o["st"])
            server.set({f"/h{n}/{NAMES[u]}": dict(opts, body=b, st=st, cut=rng.choice([0, rng.randrange(len(b)), rng.randrange(len(b))]), etag=f'"{"tag" if u < 3 else u}-{v}"' if o["tag"] else "", head=o["head"])})
        elif op == "session":
            if c.close():
                raise SystemExit("session failed")
            c = start()
        else:
            r = c.ask(o)
            if r is None:
                if op != "get" or o["how"] != "die" and not o.get("line"):
                    raise SystemExit(f"session died at {o}")
                c.close()
                c = start()
                # the new session tells what is in the cache
                r = dict(err="die", got=0, vis=c.ask(dict(op="look"))["vis"])
            if op == "get":
                log = server.log()
                mine = [x for x in log if x["path"] == f"/h{n}/{NAMES[o['u']]}"]
                o.update(r, reqs=len(mine), gets=sum(x["m"] == "GET" for x in mine), others=len(log) - len(mine), resumed=any(x["range"] for x in mine))
                o.setdefault("line", 0)
            elif op == "lose":
                o.update(r)
                if r["lost"] != 1:
                    continue
            ev.append(o)
            if op == "get" and o["err"] == "die":
                ev.append(dict(op="session"))  # options are not kept
            continue
        ev.append(o)
    if c.close():
        raise SystemExit("session failed")
    shutil.rmtree(root)
    return ev


server = Server()
with open(sys.argv[2], "w") as out:
    for n, h in enumerate(job["seqs"]):
        out.write(json.dumps(dict(ev=history(server, n, h), id=n)) + "\n")
server.close()
