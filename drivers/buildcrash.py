"""Interrupts additions to an inventory and the making of weights from coordinates: see spec/BuilderCrashTrace.tla.

The work is done in child processes, which die or fail: at a line of the package, or when a file gets longer
than a limit (a full disk: the write fails, or the process is killed there)."""

import json
import logging
import os
import random
import resource
import shutil
import signal
import struct
import sys
import types

logging.disable(logging.CRITICAL)
import numpy as np
from buildlib import CODES, GRIDS, SETTINGS, look, observe, size, write_mat
from invlib import Weights
from scipy.sparse import load_npz

from earthkit.regrid import config
from earthkit.regrid.utils.builder import make_matrix
from earthkit.regrid.utils.mir import mir_make_matrix

job = json.load(open(sys.argv[1]))
SCR = sys.argv[3]
config.autosave = False
config.set({"weights-memory-cache-policy": "off"})
PACKAGE = os.sep + os.path.join("earthkit", "regrid") + os.sep


def child(fn, stop):
    """What became of fn(): done, failed or died; how many lines it took, what it has told."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        null = os.open(os.devnull, os.O_WRONLY)
        os.dup2(null, 1)
        os.dup2(null, 2)
        sys.stdout = sys.stderr = open(os.devnull, "w")
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        n = 0

        def tell(*x):
            os.write(w, (json.dumps(x) + "\n").encode())

        def line(frame, event, arg):
            nonlocal n
            if event == "line":
                n += 1
                if stop and stop[0] == "line" and n == stop[1]:
                    os.kill(os.getpid(), signal.SIGKILL)
            return line

        def call(frame, event, arg):
            return line if PACKAGE in frame.f_code.co_filename else None

        try:
            if stop and stop[0] in ("full", "cut"):
                if stop[0] == "cut":
                    signal.signal(signal.SIGXFSZ, signal.SIG_DFL)
                resource.setrlimit(resource.RLIMIT_FSIZE, (stop[1], stop[1]))
            sys.settrace(call)
            try:
                fn(tell)
                res = "done"
            except BaseException:
                res = "failed"
            sys.settrace(None)
            tell("end", res, n)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r) as f:
        told = [json.loads(x) for x in f.read().splitlines() if x.endswith("]")]
    os.waitpid(pid, 0)
    end = told.pop() if told and told[-1][0] == "end" else ["end", "died", 0]
    return end[1], end[2], [x[0] for x in told]


def left(root):
    return sum(x != "index.json" and not x.endswith(".npz") for _, _, fs in os.walk(root) for x in fs)


def add(d, op, stop=None):
    root = os.path.join(d, "inv")
    os.makedirs(root, exist_ok=True)
    i, o, code = op["i"], op["o"], op["code"]
    rows, cols = size(GRIDS[o][2]), size(GRIDS[i][2])
    w = Weights(rows, cols, min(rows * cols, 2 * rows + code % 5), code)
    CODES[code] = (w, (i, o))
    mat, js = os.path.join(d, "w.mat"), os.path.join(d, "w.json")
    write_mat(mat, w.matrix(code))
    with open(js, "w") as f:
        json.dump(dict(input=GRIDS[i][0], output=GRIDS[o][0], interpolation=SETTINGS[op["s"]], matrix=dict(cache_file=mat, nnz=w.nnz)), f)
    res, n, _ = child(lambda tell: make_matrix(js, root, global_input=GRIDS[i][3], global_output=GRIDS[o][3]), stop)
    obs = observe(root, rec=True)
    kind = obs.pop() if obs and isinstance(obs[0], str) else "whole"
    e = dict(op, nnz=w.nnz, res=res, kind=kind, obs=obs, left=left(root))
    e["looks"] = [look(SCR, root, q, 1) for q in op["ask"]]
    del e["ask"]
    return e, n


class Job(dict):
    make = None

    def set(self, k, v):
        self[k] = v

    def execute(self, input, output):
        Job.make(self, input)


class Input:
    def __init__(self, x):
        self.x = x


def decoded(path):
    with open(path, "rb") as f:
        b = f.read()
    n = struct.unpack("!L", b[6:10])[0]
    r = []
    for k in range(2 * n):
        y, x = struct.unpack("!LL", b[11 + 9 * k : 19 + 9 * k])
        r.append(struct.unpack("!d", struct.pack("!II", x, y))[0])
    assert len(b) == 10 + 18 * n
    return r[::2], r[1::2]


def make(d, op, stop=None):
    cache, target, code = os.path.join(d, "mir"), os.path.join(d, "made.npz"), op["code"]
    rng = random.Random(op["coords"])
    ll = [[[rng.uniform(-90, 90) for _ in range(m)], [rng.uniform(0, 360) for _ in range(m)]] for m in (op["points"], op["points"] + 3)]
    w = Weights(len(ll[1][0]), len(ll[0][0]), 7, code)
    both = op["grids"] == 2

    def work(tell):
        def execute(job, input):
            for x, y in [(input.x, ll[0])] + ([(job["griddef"], ll[1])] if both else []):
                try:
                    tell(list(map(list, decoded(str(x)))) == y)
                except Exception:
                    tell(False)
            write_mat(job["interpolation-matrix"], w.matrix(code))

        Job.make = execute
        mir = types.ModuleType("mir")
        mir.Job, mir.GriddefInput, mir.GridSpecInput, mir.EmptyOutput = Job, Input, Input, object
        from pathlib import Path

        mir.cache = lambda: Path(cache)
        sys.modules["mir"] = mir
        kw = dict(out_lat=np.array(ll[1][0]), out_lon=np.array(ll[1][1])) if both else dict(out_grid={"grid": [60, 60]})
        mir_make_matrix(in_lat=np.array(ll[0][0]), in_lon=np.array(ll[0][1]), output=target, **kw)

    res, n, told = child(work, stop)
    MADE[code] = w.matrix(code)
    out = 0
    if os.path.exists(target):
        try:
            z = load_npz(target)
            out = next((c for c, m in MADE.items() if z.shape == m.shape and (z != m).nnz == 0), -1)
        except Exception:
            out = -1
    return dict(op, res=res, told=told, out=out), n


MADE = {}
fn = dict(add=add, make=make)
with open(sys.argv[2], "w") as out:
    for k, s in enumerate(job["seqs"]):
        rng = random.Random(s["seed"])
        CODES.clear()
        MADE.clear()
        base, d, t = os.path.join(SCR, f"b{k}"), os.path.join(SCR, f"s{k}"), os.path.join(SCR, f"t{k}")
        os.makedirs(base)
        ev = [fn[op["op"]](base, op)[0] for op in s["before"]]
        shutil.copytree(base, t)
        _, lines = fn[s["op"]["op"]](t, s["op"])
        top = max([os.path.getsize(os.path.join(p, x)) for p, _, fs in os.walk(t) for x in fs if x not in ("w.mat", "w.json")], default=100) + 20
        shutil.rmtree(t)
        stops = [("line", x) for x in range(1 + rng.randrange(s["every"]), lines + 1, s["every"])]
        stops += [(x, rng.randrange(top) if rng.random() < 0.8 else rng.choice([0, 1, 2, top - 21])) for x in ("full", "cut") for _ in range(s["limits"])]
        for n, stop in enumerate(stops):
            shutil.copytree(base, d)
            more = []
            try:
                more.append(fn[s["op"]["op"]](d, s["op"], stop)[0])
                for op in s["after"]:
                    again = ("line", 1 + rng.randrange(lines)) if rng.random() < 0.15 else None
                    more.append(fn[op["op"]](d, op, again)[0])
            finally:
                shutil.rmtree(d)
            for e in more:
                e["stop"] = list(map(str, stop))
            out.write(json.dumps(dict(ev=ev + more, id=f"{k}.{n}")) + "\n")
        shutil.rmtree(base)
