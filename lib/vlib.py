"""Common machinery of the checks: scratch directories, TLC runs, drivers, evidence, verdicts.

A check is a python3 (standard library only) script using `Check`.  Exit status:
0 the property held on everything explored, 1 after a VIOLATION line, 2 machinery failure.
"""

import concurrent.futures
import json
import os
import random
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback
from collections import defaultdict, deque

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
LIB = os.path.join(VERIF, "lib")
DRIVERS = os.path.join(VERIF, "drivers")
REPO = "/repo"
PY = "/opt/venv/bin/python"
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class MachineryError(Exception):
    pass


class TlcResult:
    def __init__(self, out, rc):
        self.out = out
        self.rc = rc
        m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
        self.generated, self.distinct = (int(x.replace(",", "")) for x in m[-1]) if m else (0, 0)
        m = re.findall(r"The number of states generated: ([\d,]+)", out)
        if m and not self.generated:
            self.generated = self.distinct = int(m[-1].replace(",", ""))
        self.ok = "No error has been found" in out or "Finished in" in out and rc == 0

    def printed(self, tag):
        """The JSON values printed by PrintT("@TAG " \\o ToJson(x))."""
        r = []
        pre = '"@' + tag + " "
        for line in self.out.splitlines():
            if line.startswith(pre):
                r.append(json.loads(json.loads(line)[len(tag) + 2 :]))
        return r


def tla(v):
    """Python value -> TLA+ expression."""
    if isinstance(v, bool):
        return "TRUE" if v else "FALSE"
    if isinstance(v, int):
        return str(v) if v >= 0 else f"(-{-v})"
    if isinstance(v, str):
        return json.dumps(v)
    if isinstance(v, (list, tuple)):
        return "<<" + ", ".join(tla(x) for x in v) + ">>"
    if isinstance(v, (set, frozenset)):
        return "{" + ", ".join(sorted(tla(x) for x in v)) + "}"
    if isinstance(v, dict):
        if not v:
            return "[x \\in {} |-> 0]"
        return "[" + ", ".join(f"{k} |-> {tla(x)}" for k, x in v.items()) + "]"
    raise TypeError(v)


class Check:
    def __init__(self, pid, level):
        self.pid = pid
        self.level = level
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.thorough = self.tier == "thorough"
        try:
            self.seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            self.seed = 1
        self.rng = random.Random(f"{pid}-{self.seed}")
        self.t0 = time.time()
        self.scratch = tempfile.mkdtemp(prefix=f"verif-{pid}-")
        self.n = 0
        self.coverage = {}
        self.assumptions = []
        self.violations = []
        self.known = []
        self.states = 0
        self.transitions = 0
        self.log = []
        self.evdir = os.path.join(VERIF, "evidence")
        os.makedirs(self.evdir, exist_ok=True)

    # -- files --------------------------------------------------------------------------
    def dir(self, name="d"):
        self.n += 1
        p = os.path.join(self.scratch, f"{name}{self.n}")
        os.makedirs(p)
        return p

    def say(self, *a):
        s = f"[{self.pid} {time.time() - self.t0:6.1f}s] " + " ".join(str(x) for x in a)
        print(s, flush=True)

    # -- TLC ----------------------------------------------------------------------------
    def tlc(self, module, cfg, defs=None, files=None, workers=1, mem="3g", args=(), timeout=800,
            expect_ok=True, env=None):
        """Runs TLC on spec/<module>.tla.

        defs: text of a module <module>Inst... given in `files` instead; files: extra files
        (name -> text or path) to be laid beside the specification."""
        d = self.dir("tlc")
        for f in os.listdir(SPEC):
            if f.endswith(".tla"):
                shutil.copy(os.path.join(SPEC, f), d)
        for name, text in (files or {}).items():
            if isinstance(text, dict):
                os.symlink(text["path"], os.path.join(d, name))
            else:
                with open(os.path.join(d, name), "w") as f:
                    f.write(text)
        with open(os.path.join(d, "run.cfg"), "w") as f:
            f.write(cfg)
        cmd = ["java", f"-Xmx{mem}", "-Xss64m", "-XX:+UseParallelGC", f"-Djava.io.tmpdir={d}", "-cp", JARS, "tlc2.TLC",
               "-metadir", os.path.join(d, "meta"), "-workers", str(workers), "-noGenerateSpecTE",
               "-config", "run.cfg", *args, module + ".tla"]
        e = dict(os.environ)
        e.update(env or {})
        try:
            p = subprocess.run(cmd, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                               timeout=timeout, env=e)
        except subprocess.TimeoutExpired:
            raise MachineryError(f"TLC timed out on {module}")
        r = TlcResult(p.stdout, p.returncode)
        r.dir = d
        if expect_ok and not (p.returncode == 0 and r.ok):
            tail = "\n".join(x for x in p.stdout.splitlines() if not x.startswith('"@'))[-6000:]
            raise MachineryError(f"TLC failed on {module} (rc {p.returncode}):\n{tail}")
        self.states += r.distinct
        self.transitions += r.generated
        shutil.rmtree(os.path.join(d, "meta"), ignore_errors=True)
        return r

    # -- code under test -----------------------------------------------------------------
    def env(self, home=None, extra=None):
        home = home or self.dir("home")
        e = {k: v for k, v in os.environ.items() if not k.startswith("EARTHKIT") and k not in ("PYTHONPATH",)}
        e.update(HOME=home, XDG_CACHE_HOME=os.path.join(home, ".cache"), XDG_CONFIG_HOME=os.path.join(home, ".config"),
                 ECKIT_GEO_CACHE_PATH=os.path.join(home, "geo"), PYTHONDONTWRITEBYTECODE="1", TMPDIR=self.dir("tmp"),
                 PYTHONWARNINGS="ignore", PYTHONPATH=LIB, LANG="C.UTF-8", PYTHONHASHSEED="0",
                 OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", NO_PROXY="*", no_proxy="*")
        for k in ("http_proxy", "https_proxy", "HTTP_PROXY", "HTTPS_PROXY", "all_proxy", "ALL_PROXY"):
            e.pop(k, None)
        e.update(extra or {})
        return e

    def drive(self, script, job, timeout=800, env=None):
        """Runs drivers/<script> on a job (JSON value); returns the JSON lines it wrote."""
        d = self.dir("drv")
        jp, op = os.path.join(d, "job.json"), os.path.join(d, "out.ndjson")
        with open(jp, "w") as f:
            json.dump(job, f)
        lp = os.path.join(d, "log")
        with open(lp, "w") as lf:
            try:
                p = subprocess.run([PY, os.path.join(DRIVERS, script), jp, op, d], stdout=lf, stderr=subprocess.STDOUT,
                                   env=env or self.env(), cwd=d, timeout=timeout, stdin=subprocess.DEVNULL)
            except subprocess.TimeoutExpired:
                raise MachineryError(f"driver {script} timed out:\n" + tail(lp))
        if p.returncode == -signal.SIGABRT and "eckit::" in tail(lp):
            # the engine gives up like this when it is told nonsense
            self.violation("the engine aborted because of what it was given", tail(lp))
        if p.returncode != 0:
            raise MachineryError(f"driver {script} failed (rc {p.returncode}):\n" + tail(lp))
        with open(op) as f:
            r = [json.loads(x) for x in f]
        shutil.rmtree(d, ignore_errors=True)
        return r

    def parallel(self, fn, items, n=8):
        with concurrent.futures.ThreadPoolExecutor(n) as ex:
            return list(ex.map(fn, items))

    # -- traces ---------------------------------------------------------------------------
    def validate(self, module, traces, consts="", files=None, chunk=None, mem="3g", timeout=800, jobs=4, spec="TSpec"):
        """Validates traces (list of dicts with at least `ev`: list of events) against the
        trace specification `module`.  Returns the list of rejected (trace index, line, states)."""
        if not traces:
            raise MachineryError("no traces")
        if any(not t["ev"] for t in traces):
            raise MachineryError("empty trace")
        chunk = chunk or max(1, (len(traces) + jobs - 1) // jobs)
        parts = [list(range(i, min(i + chunk, len(traces)))) for i in range(0, len(traces), chunk)]

        def one(ix, show=False):
            d = self.dir("trc")
            tp = os.path.join(d, "trace.ndjson")
            with open(tp, "w") as f:
                for k in ix:
                    f.write(json.dumps(traces[k]) + "\n")
            cfg = f"SPECIFICATION {spec}\nCHECK_DEADLOCK FALSE\nCONSTRAINT Track\nPOSTCONDITION Report\n" + consts
            if show:
                cfg += "\nCONSTRAINT Show\n"
            fl = dict(files or {})
            fl["trace.ndjson"] = dict(path=tp)
            return self.tlc(module, cfg, files=fl, workers=1, mem=mem, timeout=timeout)

        rejects = []
        for ix, r in zip(parts, self.parallel(one, parts, jobs)):
            done = r.printed("DONE")
            if len(done) != 1 or done[0] != len(ix):
                raise MachineryError(f"trace validation of {module} incomplete: {done} {len(ix)}")
            for j in r.printed("REJECT"):
                rejects.append(dict(trace=ix[j["i"] - 1], line=j["l"]))
        self.say(f"{module}: {len(traces)} traces, {sum(len(t['ev']) for t in traces)} events, {len(rejects)} rejected")
        for n, j in enumerate(rejects[:200]):
            k = j["trace"]
            if n < 3:
                try:
                    r = one([k], show=True)
                    j["states"] = [s for s in r.printed("STATE") if s.get("l") == j["line"]][:6]
                except MachineryError as e:
                    j["states"] = [str(e)[-2000:]]
            ev = traces[k]["ev"]
            j["event"] = ev[j["line"] - 1] if j["line"] <= len(ev) else "end of trace"
            j["history"] = ev[: j["line"]]
            j["id"] = traces[k].get("id")
        return rejects

    # -- verdict ----------------------------------------------------------------------------
    def violation(self, kind, info):
        self.violations.append(dict(kind=kind, info=info))

    def report_rejects(self, module, rejects):
        for r in rejects:
            self.violation(f"the specification {module} does not allow the observed behaviour", r)

    def finish(self, **coverage):
        self.coverage.update(coverage)
        if self.level == "model_checking":
            self.coverage.setdefault("states", self.states)
            self.coverage.setdefault("transitions", self.transitions)
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level=self.level, coverage=self.coverage,
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2), violations=len(self.violations))
        with open(os.path.join(self.evdir, self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for k in self.known:
            print(f"KNOWN-FINDING: property={self.pid} {k}")
        if self.violations:
            rd = os.path.join(self.evdir, "replay")
            os.makedirs(rd, exist_ok=True)
            p = os.path.join(rd, self.pid + ".json")
            with open(p, "w") as f:
                json.dump(dict(property=self.pid, seed=self.seed, tier=self.tier, violations=self.violations[:200]), f, indent=1,
                          default=str)
            for v in self.violations[:3]:
                print("  " + v["kind"])
                s = json.dumps(v["info"], default=str)
                print("    " + (s if len(s) < 3000 else s[:1500] + " ... " + s[-1500:]))
            print(f"VIOLATION property={self.pid} replay={p}", flush=True)
            return 1
        self.say("held; " + ", ".join(f"{k}={v}" for k, v in self.coverage.items() if isinstance(v, (int, float, bool))))
        return 0


def tail(path, n=4000):
    with open(path, errors="replace") as f:
        return f.read()[-n:]


def main(pid, level, fn):
    """Entry point of a check: fn(check) -> exit status (from check.finish)."""
    c = Check(pid, level)
    rc = 2
    try:
        rc = fn(c)
    except MachineryError as e:
        print(f"ERROR: machinery failure in check {pid}: {e}", flush=True)
        if c.violations:
            rc = c.finish()
    except Exception:
        traceback.print_exc()
    finally:
        if os.environ.get("VERIF_KEEP"):
            print("kept", c.scratch)
        else:
            shutil.rmtree(c.scratch, ignore_errors=True)
    sys.stdout.flush()
    sys.exit(rc)


# -- state graphs ---------------------------------------------------------------------------


def canon(x):
    return json.dumps(x, sort_keys=True)


class Graph:
    """A labelled transition system printed by TLC as @INIT and @EDGE lines."""

    def __init__(self, result):
        self.init = [canon(x) for x in result.printed("INIT")]
        self.edges = defaultdict(dict)  # state -> op -> set of states
        self.n = 0
        for e in result.printed("EDGE"):
            s, o, t = canon(e["s"]), canon(e["op"]), canon(e["t"])
            d = self.edges[s].setdefault(o, [])
            if t not in d:
                d.append(t)
                self.n += 1

    def tour(self, rng, maxlen=150, limit=None):
        """Sequences of operations which together take every (state, operation) pair of the
        graph (deterministic operations are followed, others end a sequence)."""
        todo = {s: [o for o in sorted(d)] for s, d in self.edges.items()}
        for d in todo.values():
            rng.shuffle(d)
        left = sum(len(d) for d in todo.values())
        seqs, cur, seq, covered = [], None, [], 0
        init = self.init[0]
        while left:
            if cur is None:
                cur, seq = init, []
            # path to the nearest state with something to do
            path = self._nearest(cur, todo)
            if path is None or len(seq) + len(path) >= maxlen:
                if seq:
                    seqs.append(seq)
                    cur = None
                    continue
                if path is None:
                    break
            for o in path:
                seq.append(json.loads(o))
                cur = self.edges[cur][o][0]
            o = todo[cur].pop()
            left -= 1
            covered += 1
            seq.append(json.loads(o))
            nxt = self.edges[cur][o]
            if len(nxt) == 1:
                cur = nxt[0]
            else:
                seqs.append(seq)
                cur = None
            if limit and covered >= limit:
                break
        if seq and cur is not None:
            seqs.append(seq)
        self.covered = covered
        return seqs

    def _nearest(self, s, todo):
        if todo.get(s):
            return []
        prev = {s: None}
        q = deque([s])
        while q:
            u = q.popleft()
            for o, ts in self.edges.get(u, {}).items():
                if len(ts) != 1:
                    continue
                t = ts[0]
                if t in prev:
                    continue
                prev[t] = (u, o)
                if todo.get(t):
                    path = []
                    while prev[t] is not None:
                        t, o = prev[t]
                        path.append(o)
                    return path[::-1]
                q.append(t)
        return None

    def walks(self, rng, n, length):
        r = []
        for _ in range(n):
            s, seq = rng.choice(self.init), []
            for _ in range(length):
                d = self.edges.get(s)
                if not d:
                    break
                o = rng.choice(sorted(d))
                seq.append(json.loads(o))
                if len(d[o]) != 1:
                    break
                s = d[o][0]
            r.append(seq)
        return r
