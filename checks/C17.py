import json
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import main

BAD = [{"grid": "abc"}, {"grid": 5}, {"type": "sh", "grid": "T63"}, {"grid": [1]}, {"grid": [1, 2, 3]}, {"grid": None},
       {}, {"grid": "F32"}, {"grid": ""}, {"type": "regular_gg", "grid": "F80"}, {"grid": "X32"}, {"grid": "eORCA025_X"},
       {"grid": []}, {"grid": {}}, {"type": "nosuchtype", "grid": [1, 1]}, {"grid": "ORCA_T"}, {"grid": "32"}, {"grid": "O"}, {"grid": "N-3"}]


def check(c):
    r = c.tlc("GridSpecMC", "SPECIFICATION Spec\nINVARIANT EquivInv\nCHECK_DEADLOCK FALSE\n", workers=8)
    specs = sorted(r.printed("SPEC"), key=lambda x: json.dumps(x, sort_keys=True))
    c.say(len(specs), "specifications")
    if not c.thorough:
        # all the plain ones and a sample of the other spellings
        plain = [s for s in specs if s["sp"]["seq"] == "list" and not s["sp"]["dflt"] and s["sp"]["case"] == "upper" and s["sp"]["num"] == "int" and not s["sp"]["typ"]]
        rest = [s for s in specs if s not in plain]
        c.rng.shuffle(rest)
        specs = plain + rest[: 650 - len(plain)]
    n = len(specs)
    ids = list(range(1, n + 1))
    find = [(i, sorted(c.rng.sample(ids, min(n, 60)) + [i])) for i in c.rng.sample(ids, n if c.thorough else 150)]
    jobs = [dict(specs=specs, cmp=ids[k::8], find=find[k::8]) for k in range(8)]
    jobs[0]["bad"] = BAD
    traces = [t for ts in c.parallel(lambda j: c.drive("gridspec.py", j), jobs) for t in ts]
    rej = c.validate("GridSpecTrace", traces, files={"specs.ndjson": "\n".join(map(json.dumps, specs)) + "\n"}, jobs=8)
    c.report_rejects("GridSpec", rej)
    c.assumptions = ["documented spellings of global grids, and arbitrary areas for regular latitude-longitude grids only"]
    return c.finish(states=c.states, transitions=c.transitions, traces_validated_against_impl=len(traces), specifications=n,
                    pairs_compared=n * n, lookups=sum(2 * len(j) for _, j in find), refused=len(BAD), samples=[traces[20]["ev"][0], specs[3]])


main("C17", "model_checking", check)
