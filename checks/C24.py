import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import main, tla

UNITS = list("KMGTPkmgtpshdw%")
OPTIONS = ["maximum-cache-size", "maximum-weights-memory-cache-size", "url-download-timeout", "maximum-cache-disk-usage"]


def check(c):
    r = c.rng
    # every text over small alphabets
    alphabets = [(["0", "1", "7", " ", "\t", "K", "m", "g", "s", "d", "%", "B", ".", "-", "+", "_", "e", ","], 5 if c.thorough else 4),
                 (["2", "9", " ", "\n", "M", "G", "T", "P", "k", "t", "p", "h", "w", "%", "S", "b"], 5 if c.thorough else 3),
                 (["3", " ", "G", "s", "%"], 7 if c.thorough else 6)]
    texts = []
    for a, n in alphabets:
        m = c.tlc("QuantityMC", f"SPECIFICATION Spec\nINVARIANT GrammarInv BlankInv UnitInv\nPROPERTY BadInv\nCONSTRAINT Emit\nCONSTANT MaxLen = {min(n, 4) if a[0] != '3' else n}\nCONSTANT Alphabet <- A\nCHECK_DEADLOCK FALSE\n".replace("CONSTANT Alphabet <- A", "CONSTANT Alphabet = {" + ", ".join(tla(x) for x in a) + "}"), workers=8, mem="8g", timeout=800)
        t = m.printed("S")
        if a[0] != "3" and n > 4:
            t += [r.choices(a, k=n) for _ in range(200000)]
        texts += t
    exhaustive = len(texts)
    # long ones
    for _ in range(40000 if c.thorough else 4000):
        s = r.choices(" \t", k=r.choice([0, 0, 1, 3])) + [str(r.randrange(10)) for _ in range(r.choice([1, 2, 3, 9, 18, 19, 25]))]
        s += r.choices(" \t", k=r.choice([0, 0, 1, 2])) + r.choice([[], [r.choice(UNITS)], list(r.choice(["GB", "MB", "KiB", "TB", "seconds", "min", "hours", "days", "weeks", "%", "Pb"]))])
        s += r.choices(" \n", k=r.choice([0, 0, 1, 2]))
        if r.random() < 0.1:
            s.insert(r.randrange(len(s) + 1), r.choice(".-+_,xe/ "))
        texts.append(s)
    # values given to set()
    sets = []
    for u in [""] + UNITS:
        for n in ("0", "1", "5", "10", "100", "0012", "123456789012"):
            for b in (["", "", ""], [" ", "", ""], ["", " ", ""], ["", "", " "]):
                sets.append(dict(py="str", s=list(b[0] + n + b[1] + u + b[2])))
    for n in ("0", "1", "99", "1024", "123456789012345"):
        sets += [dict(py="int", s=list(n)), dict(py="int", s=list(n), np=True)]
    for p in ("None", "True", "False", "1.5", "2.0", "nan", "inf", "list", "dict", "tuple", "bytes", "neg", "npfloat", "object", "empty"):
        sets += [dict(py=p, s=[])] * 3
    for s in ("", " ", "None", "none", "-1", "+1", "1.5", "1e3", "K", "%", "five", "1,000", "0x10", "10 K M", "5 5", "1_000"):
        sets.append(dict(py="str", s=list(s)))
    sets += [dict(py="str", s=s) for s in r.sample(texts, 3000 if c.thorough else 400)]
    for x in sets:
        x = x.setdefault("options", r.sample(OPTIONS, 4))
    sets = [dict(x, form=r.choice(["pos", "dict", "kw"]), reset=r.random() < 0.3) for x in sets]
    r.shuffle(sets)
    # the absolute limit of the disk usage is never reached by the tests: percentages below it would purge nothing anyway
    r.shuffle(texts)
    chunk = lambda xs, n: [xs[k : k + n] for k in range(0, len(xs), n)]
    jobs = [dict(read=chunk(texts[k::8], 500), set=chunk(sets[k::8], 40)) for k in range(8)]
    traces = [t for ts in c.parallel(lambda j: c.drive("quantity.py", j), jobs) for t in ts]
    rej = c.validate("QuantityTrace", traces, jobs=8)
    c.report_rejects("Quantity", rej)
    c.assumptions = ["the first letter of a unit counts (5GB is 5G); digits are ASCII"]
    return c.finish(states=c.states, transitions=c.transitions, traces_validated_against_impl=len(traces), texts=len(texts), texts_enumerated=exhaustive,
                    values_set=len(sets) * 4, samples=[traces[0]["ev"][0], traces[-1]["ev"][0]])


main("C24", "model_checking", check)
