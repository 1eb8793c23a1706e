import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import Graph, main

METHOD = {1: "linear", 2: "linear", 3: "linear", 4: "nearest-neighbour", 5: "grid-box-average", 6: "grid-box-average", 7: "grid-box-average", 8: "nearest-neighbour"}
METHODS = sorted(set(METHOD.values()))


class Seq:
    """Completes a sequence of operations: codes, options, lookups, subsets and merges."""

    def __init__(self, rng, grids=None):
        self.r, self.code, self.keys, self.out = rng, 0, [set(), set()], []
        self.grids = grids or list(range(1, 13))

    def ask(self, k, n=3):
        q = [[k, x[0], x[1], METHOD[x[2]]] for x in self.r.sample(sorted(self.keys[k - 1] if k < 3 else self.keys[0] | self.keys[1]), min(n, len(self.keys[k - 1] if k < 3 else self.keys[0] | self.keys[1])))]
        q.append([k, self.r.choice(self.grids), self.r.choice(self.grids), self.r.choice(METHODS)])
        return q

    def add(self, k, i, o, s, bad=False):
        r = self.r
        self.code += 1
        if not bad:
            self.keys[k - 1].add((i, o, s))
        self.out.append(dict(op="add", k=k, i=i, o=o, s=s, code=self.code, bad=bad, glob=r.random() < 0.5, explicit=r.random() < 0.5, ask=self.ask(k)))

    def subset(self):
        r = self.r
        ks = [k for k in (1, 2) if self.keys[k - 1]]
        if not ks:
            return
        k = r.choice(ks)
        fs = [dict(i=x[0], o=x[1], m=METHOD[x[2]]) for x in r.sample(sorted(self.keys[k - 1]), r.randint(1, len(self.keys[k - 1])))]
        if r.random() < 0.3:
            fs.insert(r.randrange(len(fs) + 1), dict(i=r.choice(self.grids), o=r.choice(self.grids), m=r.choice(METHODS)))
        if r.random() < 0.3:
            fs.append(r.choice(fs))
        had = any(x["op"] == "subset" and x["good"] for x in self.out)
        used = had and r.random() < 0.4
        held = {(x[0], x[1], METHOD[x[2]]) for x in self.keys[k - 1]}
        missing = any((f["i"], f["o"], f["m"]) not in held for f in fs)
        e = dict(op="subset", k=k, fs=fs, allow=r.random() < 0.5, strict=r.random() < 0.5, dry=r.random() < 0.2, used=used)
        ok = (not missing or e["allow"]) and not e["dry"] and not (e["strict"] and used)
        if not used and not ok and had:
            # the previous one is removed first: there is none now
            for x in self.out:
                if x["op"] == "subset":
                    x["good"] = False
        self.out.append(dict(e, good=ok, ask=self.ask(3, 5)))

    def merge(self):
        if self.keys[0] and self.keys[1] and not self.keys[0] & self.keys[1]:
            self.out.append(dict(op="merge", dry=self.r.random() < 0.1, ask=self.ask(4, 5)))

    def extras(self):
        x = self.r.random()
        if x < 0.15:
            self.subset()
        elif x < 0.22:
            self.merge()
        elif x < 0.27:
            ks = [k for k in (1, 2) if self.keys[k - 1]]
            if ks:
                k = self.r.choice(ks)
                i, o, s = self.r.choice(sorted(self.keys[k - 1])) if self.r.random() < 0.5 else (self.r.choice(self.grids), self.r.choice(self.grids), self.r.randint(1, 8))
                self.add(k, i, o, s, bad=True)


def check(c):
    t, rng = c.thorough, c.rng
    seqs = []
    for ss in ("{1, 2, 4}", "{1, 3, 8}", "{5, 6, 7}"):
        r = c.tlc("BuilderMC", f"SPECIFICATION MCSpec\nCONSTANT Max = 4\nCONSTANT MaxAdds = {5 if t else 4}\nCONSTANT Ss = {ss}\nINVARIANT FindInv KeyInv SubsetInv MergeInv\nPROPERTY KeepProp\nVIEW View\nCHECK_DEADLOCK FALSE\n", workers=6)
    for ss in ("{1, 2, 3}", "{4, 8}", "{5, 6, 7}"):
        r = c.tlc("BuilderMC", f"SPECIFICATION MCSpec\nCONSTANT Max = 3\nCONSTANT MaxAdds = {4 if t else 3}\nCONSTANT Ss = {ss}\nVIEW View\nCHECK_DEADLOCK FALSE\nACTION_CONSTRAINT PrintEdge\nCONSTRAINT PrintInit\n", workers=4)
        g = Graph(r)
        for q in g.tour(rng, maxlen=12, limit=None if t else 250):
            # the grids of the model stand for any two
            gs = rng.sample(range(1, 13), 2) if rng.random() < 0.6 else rng.choice([[1, 2], [9, 10], [3, 6], [7, 11], [4, 8], [4, 12], [6, 3], [2, 1]])
            same = rng.choice([1, 2])
            s = Seq(rng, gs)
            for op in q:
                # two input grids or two output grids
                a, b = gs[op["i"] - 1], gs[0]
                s.add(op["k"], *((a, b) if same == 1 else (b, a)), op["s"])
                s.extras()
            s.subset()
            s.merge()
            seqs.append(s.out)
    for _ in range(1200 if t else 160):
        s = Seq(rng, rng.sample(range(1, 13), rng.choice([2, 3, 5, 12])))
        for _ in range(rng.choice([3, 8, 15])):
            k = rng.choice([1, 1, 2])
            if s.keys[k - 1] and rng.random() < 0.25:
                s.add(k, *rng.choice(sorted(s.keys[k - 1])))
            else:
                s.add(k, rng.choice(s.grids), rng.choice(s.grids), rng.randint(1, 8))
            s.extras()
        s.subset()
        seqs.append(s.out)
    for s in seqs:
        for e in s:
            e.pop("good", None)
    rng.shuffle(seqs)
    traces = [x for ts in c.parallel(lambda j: c.drive("builder.py", j), [dict(seqs=seqs[k::8]) for k in range(8)]) for x in ts]
    c.report_rejects("Builder", c.validate("BuilderTrace", traces, jobs=8))
    n = lambda op: sum(e["op"] == op for x in traces for e in x["ev"])
    return c.finish(states=c.states, transitions=c.transitions, traces_validated_against_impl=len(traces), additions=n("add"), subsets=n("subset"),
                    merges=n("merge"), lookups=sum(len(e["looks"]) for x in traces for e in x["ev"]), samples=traces[0]["ev"][:1])


main("C23", "model_checking", check)
