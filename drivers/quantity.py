"""Reads texts and other values through the options of the configuration: see spec/QuantityTrace.tla."""

import json
import os
import sys
import warnings

warnings.simplefilter("ignore")
import logging

logging.disable(logging.CRITICAL)

import numpy as np

from earthkit.regrid import config

config.autosave = False
# without this policy the weights cache refuses some limits of its own (0 and None)
config.set("weights-memory-cache-policy", "unlimited")
job = json.load(open(sys.argv[1]))
out = open(sys.argv[2], "w")

OPTIONS = {
    "maximum-cache-size": ("size", True),
    "maximum-weights-memory-cache-size": ("size", True),
    "url-download-timeout": ("duration", False),
    "maximum-cache-disk-usage": ("percentage", True),
}


def digits(v):
    if v is None:
        return ["None"]
    if type(v) is not int or v < 0:
        return ["bad", repr(v)]
    return [int(x) for x in reversed(str(v))] if v else []


def get(name):
    try:
        return dict(err="", v=digits(config.get(name)))
    except Exception as e:
        return dict(err=type(e).__name__, v=[])


def env(name):
    return "EARTHKIT_REGRID_" + name.upper().replace("-", "_")


for batch in job["read"]:
    ev = []
    for s in batch:
        rs = []
        for name, (kind, _) in OPTIONS.items():
            os.environ[env(name)] = "".join(s)
            rs.append(dict(kind=kind, option=name, **get(name)))
            del os.environ[env(name)]
        ev.append(dict(op="read", s=s, r=rs))
    out.write(json.dumps(dict(ev=ev)) + "\n")

PY = {"True": True, "False": False, "1.5": 1.5, "2.0": 2.0, "nan": float("nan"), "inf": float("inf"), "list": [1], "dict": {}, "tuple": (1,), "bytes": b"1",
      "neg": -1, "npfloat": np.float64(3), "object": object(), "empty": []}
# directory of the cache out of the way: the limits are applied to it
for batch in job["set"]:
    ev = []
    for x in batch:
        for name in x["options"]:
            kind, noneok = OPTIONS[name]
            if x["py"] == "str":
                v = "".join(x["s"])
            elif x["py"] == "int":
                v = int("".join(x["s"]))
            elif x["py"] == "None":
                v = None
            else:
                v = PY[x["py"]]
            if x["py"] == "int" and x.get("np"):
                v = np.int64(v)
            before = get(name)
            raw = {k: o for k, o, _ in config.dump()}
            err = ""
            try:
                if x["form"] == "dict":
                    config.set({name: v})
                elif x["form"] == "kw":
                    config.set(**{name.replace("-", "_"): v})
                else:
                    config.set(name, v)
            except Exception as e:
                err = type(e).__name__
            ev.append(dict(op="set", option=name, kind=kind, noneok=noneok, py=x["py"], s=x["s"], err=err, before=before, after=get(name),
                           stored=raw == {k: o for k, o, _ in config.dump()}))
            if x.get("reset"):
                config.reset(name)
    out.write(json.dumps(dict(ev=ev)) + "\n")
out.close()
