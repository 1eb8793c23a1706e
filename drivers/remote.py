"""Sessions using inventories on a server under control: see spec/RemoteTrace.tla."""

import gzip
import hashlib
import io
import json
import os
import random
import shutil
import sys

from zygote import Child
import multiurl
import pytz  # noqa: F401
import numpy as np
import scipy.sparse as sp
from httpd import Server
from invlib import Weights, index_entry

job = json.load(open(sys.argv[1]))
SCR = sys.argv[3]
ENTS = {1: dict(a="a1"), 2: dict(a="a1", b="b1"), 3: dict(a="a2", c="c1"), 4: dict(b="b2", c="c1", a="a1")}
I90 = ({"grid": [90, 90]}, [3, 4])
PAIRS = dict(a=(I90, ({"grid": [60, 60]}, [4, 6]), "linear"), b=(I90, ({"grid": [45, 45]}, [5, 8]), "linear"), c=(I90, ({"grid": [60, 60]}, [4, 6]), "nearest-neighbour"))
FILES = ["a1", "a2", "b1", "b2", "c1"]
SYSTEM = "https://sites.ecmwf.int/repository/earthkit/regrid/db/1/"  # the default inventory: its requests come to our server
VALS = (np.arange(12) * 5) % 11 + 1.0


def W(k, f):
    o = PAIRS[f[0]][1]
    n = o[1][0] * o[1][1]
    code = 10 * k + FILES.index(f) + 1
    return Weights(n, 12, 2 * n + k, code), code


NPZ = {}
for k in (1, 2, 3):
    for f in FILES:
        w, code = W(k, f)
        b = io.BytesIO()
        sp.save_npz(b, w.matrix(code), compressed=False)
        NPZ[k, f] = b.getvalue()


def entry(k, p, f):
    (gi, si), (go, so), m = PAIRS[p]
    return index_entry(gi, si, go, so, m, memory=W(k, f)[0].bytes)


def index_text(k, v, st="ok"):
    d = dict(version=1, matrix={f"w{f}": entry(k, p, f) for p, f in ENTS[v].items()})
    if st == "badver":
        d["version"] = 2
    elif st == "nover":
        del d["version"]
    elif st == "nomatrix":
        del d["matrix"]
    elif st == "list":
        d = [d]
    t = json.dumps(d)
    return t[: len(t) // 2] if st == "badjson" else "" if st == "empty" else t


def wname(f):
    return f"mir_16_{PAIRS[f[0]][2]}/w{f}.npz"


BADINDEX = ("badver", "nover", "nomatrix", "list", "badjson", "empty")


class Inv:
    """An inventory on the server (1, 2) or in a directory (3)."""

    def __init__(self, server, n, k, root, rng, watch):
        self.s, self.k, self.rng, self.n = server, k, rng, n
        self.dir = os.path.join(root, "local")
        self.prefix = f"/h{n}/{k}"
        self.url = f"http://127.0.0.1:{server.port}{self.prefix}" + ("/" if rng.random() < 0.5 else "") if k < 3 else self.dir
        if k == 2 and rng.random() < 0.6:
            self.url = SYSTEM
        self.opts = dict(head=rng.random() < 0.8, ranges=rng.random() < 0.6)
        self.etags = rng.random() < 0.7
        self.tag = 0
        if watch:
            self.opts["head"] = self.etags = True

    def res(self, data, st, tag):
        r = dict(self.opts, body=data.decode("latin-1"), st=st if st in ("missing", "error", "forbidden", "cut") else "ok", etag=f'"{tag}"' if self.etags else "")
        if st == "cut":
            r["cut"] = self.rng.randrange(len(data))
        return r

    def resources(self, gz, sha, w):
        t = index_text(self.k, gz["v"], gz["st"]) if gz["st"] in BADINDEX else index_text(self.k, gz["v"])
        z = gzip.compress(t.encode(), mtime=0)
        if gz["st"] == "garbage":
            z = b"<html>try again later</html>"
        elif gz["st"] == "trunc":
            z = z[: len(z) // 2]
        h = hashlib.sha256(index_text(self.k, sha["v"]).encode()).hexdigest() if sha["v"] else "<html>"
        r = {self.prefix + "/index.json.gz": self.res(z, gz["st"], hashlib.md5(z).hexdigest()), self.prefix + "/index.json.sha256": self.res((h + "\n").encode(), sha["st"], h[:8])}
        r[self.prefix + "/index.json"] = self.res(t.encode(), gz["st"], hashlib.md5(t.encode()).hexdigest())
        for f in FILES:
            r[f"{self.prefix}/{wname(f)}"] = self.res(NPZ[self.k, f], w[f], f"{f}-{self.tag}")
        return r

    def publish(self, gz, sha, w):
        self.last = gz, sha, w
        if self.k < 3:
            self.s.set(self.resources(gz, sha, w))
            return
        os.makedirs(self.dir, exist_ok=True)
        p = os.path.join(self.dir, "index.json")
        if gz["st"] == "missing":
            if os.path.exists(p):
                os.unlink(p)
        else:
            with open(p + ".new", "w") as f:
                f.write(index_text(3, gz["v"], gz["st"]))
            os.replace(p + ".new", p)
        for f in FILES:
            p = os.path.join(self.dir, wname(f))
            os.makedirs(os.path.dirname(p), exist_ok=True)
            if w[f] == "missing":
                if os.path.exists(p):
                    os.unlink(p)
            else:
                with open(p + ".new", "wb") as o:
                    o.write(NPZ[3, f] if w[f] == "ok" else NPZ[3, f][: len(NPZ[3, f]) // 2])
                os.replace(p + ".new", p)


def hurt(path, o):
    """Somebody damages a file of the cache."""
    with open(path, "rb") as f:
        data = f.read()
    how = o["how"] % 4
    if how == 0 or o["op"] == "hurtw":
        data = data[: len(data) // (2 + how)]
    elif how == 1:
        data = b""
    elif how == 2:
        data = b"[" + data + b"]"
    else:
        data = data.replace(b'"version": 1', b'"version": 2')
    with open(path, "wb") as f:
        f.write(data)


class Session:
    def __init__(self, root, keep, urls, local):
        self.root, self.keep, self.urls, self.local = root, keep, urls, local

    def __call__(self, fin, fout):
        import time

        import requests

        time.sleep = lambda x: None  # retries without waiting
        real, local = requests.Session.request, self.local
        requests.Session.request = lambda s, method, url, *a, **k: real(s, method, url.replace(SYSTEM, local), *a, **k)
        import earthkit.regrid as er
        from earthkit.regrid import config
        from earthkit.regrid.array import regrid
        from earthkit.regrid.utils.memcache import clear_memory_cache

        config.autosave = False
        config.set({"cache-policy": "user", "user-cache-directory": os.path.join(self.root, "cache"), "weights-memory-cache-policy": "unlimited" if self.keep else "off"})
        for line in fin:
            o = json.loads(line)
            r = {}
            if o["op"] == "quit":
                return
            if o["op"] == "look":
                (gi, si), (go, so), m = PAIRS[o["p"]]
                r = dict(err="", got="")
                url = self.urls[o["k"] - 1]
                if url == SYSTEM:
                    url = "ecmwf" if o["p"] == "a" and o["api"] else None
                try:
                    if url is None and not o["api"]:
                        v = er.interpolate(VALS, dict(gi), dict(go), method=m)
                    elif url is None:
                        v, _ = regrid(VALS, dict(gi), dict(go), interpolation=m, backend="precomputed")
                    elif o["api"]:
                        v, _ = regrid(VALS, dict(gi), dict(go), interpolation=m, backend="precomputed", inventory=url)
                    else:
                        v = er.interpolate(VALS, dict(gi), dict(go), method=m, matrix_source=url)
                    r["got"] = "?"
                    for f in FILES:
                        w, code = W(o["k"], f)
                        if f[0] == o["p"] and w.code(v, VALS) == code and list(v.shape) == so:
                            r["got"] = f
                except Exception as e:
                    r["err"] = "nomatch" if type(e) is ValueError and "found" in str(e) else "fail"
                    r["why"] = repr(e)[:200]
            elif o["op"] == "purge":
                er.cache.purge()
            elif o["op"] == "check":
                # new versions are looked for, but not downloaded
                config.set({"check-out-of-date-urls": o["v"], "download-out-of-date-urls": o["dl"]})
            elif o["op"] == "clear":
                clear_memory_cache()
            elif o["op"] in ("losew", "losei", "hurtw", "hurti"):
                part = wname(o["f"]) if o["op"].endswith("w") else "index.json"
                url = self.urls[o["k"] - 1].rstrip("/") + "/" + part
                r["lost"] = 0
                for e in er.cache.entries():
                    if json.dumps(url) in json.dumps(e["args"]):
                        if o["op"].startswith("lose"):
                            os.unlink(e["path"])
                        else:
                            hurt(e["path"], o)
                        r["lost"] += 1
            fout.write(json.dumps(r) + "\n")
            fout.flush()


def history(server, n, h):
    rng = random.Random(h["seed"])
    root = os.path.join(SCR, f"h{n}")
    os.makedirs(os.path.join(root, "cache"))
    invs = [Inv(server, n, k, root, rng, h.get("watch", False)) for k in (1, 2, 3)]
    ok = dict(v=1, st="ok")
    for x in invs:
        x.publish(ok, ok, {f: "ok" for f in FILES})
    env = {"EARTHKIT_REGRID_CONFIG_FILE": os.path.join(root, "conf.yaml")}
    ses, ev = [None, None], []
    server.log()

    watch = h.get("watch", False)

    def kinds(k):
        """The requests made: what for, one after the other (attempts at the same thing are one)."""
        r = []
        for x in server.log():
            p = x["path"]
            what = "other"
            if p.startswith(f"/h{n}/{k}/"):
                p = p[len(f"/h{n}/{k}/") :]
                if p == "index.json.gz":
                    what = "gz"
                elif p == "index.json.sha256":
                    what = "sha"
                else:
                    what = next((f for f in FILES if wname(f) == p), "other")
            if watch and what in FILES and x["m"] == "HEAD":
                continue
            if not r or r[-1] != what:
                r.append(what)
        return r

    for o in h["ops"]:
        o = dict(o)
        op = o["op"]
        o.setdefault("how", rng.randrange(4))
        if op == "pub":
            o["w"] = {f: o["w"].get(f, "ok") for f in FILES}
            invs[o["k"] - 1].publish(o["gz"], o["sha"], o["w"])
        elif op == "retag":
            # the same files, but they look new
            x = invs[o["k"] - 1]
            x.tag += 1
            x.publish(*x.last)
        elif op == "start":
            c = ses[o["s"] - 1]
            if c and c.close():
                raise SystemExit("session failed")
            ses[o["s"] - 1] = Child(root, env, Session(root, o["keep"], [x.url for x in invs], f"http://127.0.0.1:{server.port}/h{n}/2/"))
        else:
            c = ses[o.get("s", 1) - 1]
            if op == "look":
                o.setdefault("sw", False)
                if o["sw"]:
                    o["to"]["w"] = {f: o["to"]["w"].get(f, "ok") for f in FILES}
                    x = invs[o["k"] - 1]
                    rs = x.resources(o["to"]["gz"], o["to"]["sha"], o["to"]["w"])
                    server.set({}, dict(after=f"GET {x.prefix}/index.json.sha256", set=rs))
            r = c.ask(o)
            if r is None:
                raise SystemExit(f"session died at {o}")
            if op == "look":
                if o["sw"]:
                    server.set(rs)
                ks = kinds(o["k"])
                o.update(r, gz=ks.count("gz"), sha=ks.count("sha"), w=[x for x in ks if x in FILES], others=ks.count("other"))
            elif op in ("losew", "losei", "hurtw", "hurti") and r["lost"] != 1:
                continue
        ev.append(o)
    for c in ses:
        if c and c.close():
            raise SystemExit("session failed")
    shutil.rmtree(root)
    return ev


server = Server()
with open(sys.argv[2], "w") as out:
    for n, h in enumerate(job["seqs"]):
        out.write(json.dumps(dict(ev=history(server, n, h), id=n)) + "\n")
server.close()
