"""Runs histories of configuration changes, each session in its own process: see spec/ConfigTrace.tla.

The parent only preloads the libraries; every session imports the code under test afresh."""

import hashlib
import json
import os
import shutil
import sys
import warnings

import filelock  # noqa: F401
import numpy as np
import scipy.sparse  # noqa: F401
import sqlite3  # noqa: F401
import yaml  # noqa: F401
import tempfile

import logging

logging.disable(logging.CRITICAL)
from invlib import LLS, index_entry, write_index  # noqa: E402

job = json.load(open(sys.argv[1]))
OPTIONS = job["options"]
SCR = sys.argv[3]
INV = os.path.join(SCR, "inv")


def make_inventory():
    import scipy.sparse as sp

    d = dict(probe=index_entry({"grid": [60, 60]}, LLS[60], {"grid": [90, 90]}, LLS[90], memory=1500))
    write_index(INV, d)
    p = os.path.join(INV, "mir_16_linear")
    os.makedirs(p, exist_ok=True)
    sp.save_npz(os.path.join(p, "probe.npz"), sp.eye(12, 24, format="csr"))


def env_name(o):
    return "EARTHKIT_REGRID_" + o.upper().replace("-", "_")


class Session:
    """Runs in the child."""

    def __init__(self, root, config_file, fin, fout):
        self.root, self.config_file, self.fin, self.fout = root, config_file, fin, fout

    def value(self, tok):
        k, v = tok.split(":", 1)
        v = v.replace("ROOT", self.root)
        return {"s": lambda: v, "i": lambda: int(v), "b": lambda: v == "True", "n": lambda: None, "f": lambda: float(v), "l": lambda: [v], "o": lambda: object()}[k]()

    def text(self, v):
        return str(v).replace(self.root, "ROOT")

    def digest(self):
        try:
            with open(self.config_file, "rb") as f:
                return hashlib.sha1(f.read()).hexdigest()
        except OSError:
            return ""

    def run(self):
        import earthkit.regrid as er

        self.er = er
        self.config = er.config
        self.stack = []
        self.n = 0
        self.reply(dict(err="", warned=False, fchg=False))
        for line in self.fin:
            o = json.loads(line)
            if o["op"] == "quit":
                break
            h = self.digest()
            with warnings.catch_warnings(record=True) as w:
                warnings.simplefilter("always")
                try:
                    self.step(o)
                    err = ""
                except Exception as e:
                    err = type(e).__name__
                    if os.environ.get("DRIVER_DEBUG"):
                        import traceback

                        traceback.print_exc()
            r = dict(err=err, warned=any("environment variable" in str(x.message) for x in w), fchg=self.digest() != h)
            if o["op"] == "crash":
                r["done"] = True
                self.write(r)
                break
            r["probe"] = o.get("probe", False)
            self.reply(r)
        self.fout.flush()

    def call(self, f, o):
        items = [(x["o"], self.value(x["v"])) for x in o["items"]]
        if o["form"] == "pos" and len(items) == 1:
            return f(*items[0])
        if o["form"] == "kw":
            return f(**{k.replace("-", "_"): v for k, v in items})
        return f(dict(items)) if items else f()

    def step(self, o):
        op = o["op"]
        if op == "set":
            self.call(self.config.set, o)
        elif op == "reset":
            self.config.reset() if o["o"] == "*" else self.config.reset(o["o"])
        elif op == "enter":
            t = self.call(self.config.temporary, o)
            t.__enter__()
            self.stack.append(t)
        elif op == "exit":
            t = self.stack.pop()
            if o["how"] == "raise":
                e = RuntimeError("x")
                try:
                    r = t.__exit__(RuntimeError, e, None)
                    assert not r
                except RuntimeError as x:
                    if x is not e:
                        raise
            else:
                t.__exit__(None, None, None)
        elif op == "env":
            if o["v"]:
                os.environ[env_name(o["o"])] = str(self.value(o["v"]))
            else:
                os.environ.pop(env_name(o["o"]), None)
        elif op == "auto":
            self.config.autosave = o["v"]
        elif op == "saveas":
            self.config.save_as(o["path"])
        elif op == "edit":
            with open(self.config_file, "w") as f:
                yaml.safe_dump({x["o"]: self.value(x["v"]) for x in o["items"]}, f)
        elif op == "crash":
            k = o["k"]
            n = 0

            def trace(frame, event, arg):
                nonlocal n
                if "/earthkit/regrid/" not in frame.f_code.co_filename:
                    return None
                if event == "line":
                    n += 1
                    if n == k:
                        os._exit(9)
                return trace

            sys.settrace(trace)
            try:
                if o["kind"] == "reset":
                    self.config.reset() if o["o"] == "*" else self.config.reset(o["o"])
                else:
                    self.call(self.config.set, o)
            finally:
                sys.settrace(None)
        else:
            raise SystemExit(op)

    def reply(self, r):
        er = self.er
        g = {}
        for o in OPTIONS:
            try:
                g[o] = self.text(self.config.get(o))
            except ValueError:
                g[o] = ""
            except Exception as e:
                g[o] = "!" + type(e).__name__
        try:
            self.config.get("no-such-option")
            r["unknown"] = ""
        except Exception as e:
            r["unknown"] = type(e).__name__
        r["get"] = g
        # what the caches work with
        from earthkit.regrid.array import regrid

        if job["probes"]:
            i = er.memory_cache_info()
            er.clear_memory_cache()
            refused = False
            try:
                regrid(np.ones((4, 6)), {"grid": [60, 60]}, {"grid": [90, 90]}, interpolation="linear", inventory=INV, backend="precomputed")
            except ValueError as e:
                refused = "too large" in str(e)
                if not refused:
                    raise
            er.clear_memory_cache()
            r["mem"] = dict(pol=i.policy, max=str(i.maxsize), refused=refused)
            d = er.cache.directory()
            par = os.path.dirname(d)
            par = "TMP" if par == tempfile.gettempdir() else self.text(par)
            pol = er.cache.policy.name
            left = -1
            if r.get("probe"):
                from earthkit.regrid.utils.caching import cache_file

                paths = []
                for _ in range(4):
                    self.n += 1
                    paths.append(cache_file("probe", lambda p, a: open(p, "w").write("x" * 400) and None, [self.n, os.getpid()]))
                if pol != "off":
                    er.cache.size()
                left = sum(os.path.exists(p) for p in paths)
                if pol != "off":
                    er.cache.purge()
            r["disk"] = dict(pol=pol, dir=self.text(d), parent=par, left=left)
        r.pop("probe", None)
        self.write(r)

    def write(self, r):
        self.fout.write(json.dumps(r) + "\n")
        self.fout.flush()


class Child:
    def __init__(self, root, config_file, env):
        self.cin, pout = os.pipe()
        pin, self.cout = os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            os.close(pin)
            os.close(pout)
            rc = 3
            try:
                os.environ["HOME"] = os.path.join(root, "home")
                os.environ["EARTHKIT_REGRID_CONFIG_FILE"] = config_file
                for k, v in env.items():
                    os.environ[env_name(k)] = v.split(":", 1)[1].replace("ROOT", root)
                tempfile.tempdir = None
                os.environ["TMPDIR"] = os.path.join(root, "tmp")
                os.environ.setdefault("X", "")
                Session(root, config_file, os.fdopen(self.cin), os.fdopen(self.cout, "w")).run()
                import atexit

                atexit._run_exitfuncs()
                rc = 0
            except BaseException:
                import traceback

                traceback.print_exc()
                sys.stderr.flush()
            finally:
                os._exit(rc)
        os.close(self.cin)
        os.close(self.cout)
        self.w, self.r = os.fdopen(pout, "w"), os.fdopen(pin)

    def ask(self, o):
        if o is not None:
            self.w.write(json.dumps(o) + "\n")
            self.w.flush()
        line = self.r.readline()
        return json.loads(line) if line else None

    def close(self):
        try:
            self.w.write('{"op": "quit"}\n')
            self.w.flush()
        except BrokenPipeError:
            pass
        try:
            self.w.close()
        except BrokenPipeError:
            pass
        self.r.close()
        return os.waitpid(self.pid, 0)[1]


def history(n, ops):
    root = os.path.join(SCR, f"h{n}")
    os.makedirs(os.path.join(root, "home"))
    os.makedirs(os.path.join(root, "tmp"))
    open(os.path.join(root, "FILE"), "w").close()
    main = os.path.join(root, "conf", "config.yaml")
    saved = os.path.join(root, "saved.yaml")
    nfile = 0
    env = {}
    c = Child(root, main, env)
    ev = [dict(op="auto", v=True, **c.ask(None))]
    entered = []
    for o in ops:
        o = dict(o)
        if o["op"] == "exit" and not entered:
            break  # a temporary configuration was refused: what follows makes no sense
        if o["op"] == "exit" and not entered.pop():
            continue
        if o["op"] == "env":
            if o["v"]:
                env[o["o"]] = o["v"]
            else:
                env.pop(o["o"], None)
        if o["op"] == "restart":
            if c.close():
                raise SystemExit("session failed")
            if o["from"] == "saved":
                if not os.path.exists(saved):
                    c = Child(root, saved, {})
                    c.ask(None)
                    c.close()
                nfile += 1
                main = os.path.join(root, "conf", f"config{nfile}.yaml")
                shutil.copy(saved, main)
            c = Child(root, main, env)
            r = c.ask(None)
        elif o["op"] == "crash":
            r0 = c.ask(o)
            c.close()
            done = bool(r0 and r0.get("done"))
            if done and r0["err"]:
                raise SystemExit(f"crash operation failed {o} {r0}")
            c = Child(root, main, env)
            r = c.ask(None)
            if r is None:
                raise SystemExit("session does not start")
            r["done"] = done
        else:
            if o["op"] == "saveas":
                o["path"] = saved
            r = c.ask(o)
            if r is None:
                raise SystemExit(f"session died at {o}")
            if o["op"] == "enter" and (not r["err"] or o.pop("paired", False)):
                entered.append(not r["err"])
        o.pop("path", None)
        ev.append(dict(o, **r))
        if o["op"] == "crash" and done and o.get("once"):
            break
    if c.close():
        raise SystemExit("session failed")
    shutil.rmtree(root)
    return ev


make_inventory()
with open(sys.argv[2], "w") as out:
    for n, ops in enumerate(job["seqs"]):
        out.write(json.dumps(dict(ev=history(n, ops), id=n)) + "\n")
