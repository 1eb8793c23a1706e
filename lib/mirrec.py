"""The interpolation engine under observation (runs in the code under test's interpreter).

Import before earthkit.regrid: mir.Job and its inputs are replaced by subclasses that note what they are told."""

import copy
import io
import json
import os
import warnings

warnings.simplefilter("ignore")
import logging

logging.disable(logging.CRITICAL)
import earthkit.data as ed  # before mir: both bring the same libraries
import numpy as np

HERE = os.path.dirname(os.path.abspath(__file__))
TEMPLATE = os.path.join(os.environ.get("VERIF_REPO", "/repo"), "tests", "data", "o32.grib2")
_t = ed.from_source("file", TEMPLATE)[0]
_t.values
import mir

RealJob, RealArray, RealGrib = mir.Job, mir.ArrayInput, mir.GribMemoryInput
JOBS = []


class Job(RealJob):
    def __init__(self, *args, **kwargs):
        super().__init__(*args, **kwargs)
        self.depth = 0
        self.told = []
        for k, v in kwargs.items():
            self.told.append((k, copy.deepcopy(v)))

    def set(self, k, v):
        if self.depth == 0:
            self.told.append((k, copy.deepcopy(v)))
        self.depth += 1
        try:
            return super().set(k, v)
        finally:
            self.depth -= 1

    def execute(self, i, o):
        JOBS.append(dict(told=list(self.told), input=getattr(i, "given", None)))
        return super().execute(i, o)


class ArrayInput(RealArray):
    def __init__(self, values, grid, *args, **kwargs):
        try:
            super().__init__(values, grid, *args, **kwargs)
        except TypeError:
            super().__init__()
        self.given = (np.array(values, copy=True), copy.deepcopy(grid))


class GribMemoryInput(RealGrib):
    def __init__(self, message, *args, **kwargs):
        try:
            super().__init__(message, *args, **kwargs)
        except TypeError:
            super().__init__()
        self.given = bytes(message)


mir.Job, mir.ArrayInput, mir.GribMemoryInput = Job, ArrayInput, GribMemoryInput


def take():
    r = list(JOBS)
    JOBS.clear()
    return r


def plain(x):
    """A grid or option as plain values: 30.0 and 30, lists and tuples are the same."""
    if isinstance(x, dict) or hasattr(x, "items"):
        return {str(k): plain(v) for k, v in x.items()}
    if isinstance(x, (list, tuple, np.ndarray)):
        return [plain(v) for v in x]
    if isinstance(x, (bool, np.bool_)):
        return bool(x)
    if isinstance(x, (int, float, np.integer, np.floating)):
        return float(x)
    return x


def text(x):
    """A canonical text of an option."""
    x = plain(x)
    if isinstance(x, str):
        try:
            return repr(float(x))
        except ValueError:
            return x
    return repr(x) if isinstance(x, float) else json.dumps(x, sort_keys=True)


def gridtext(g):
    if isinstance(g, str):
        try:
            g = json.loads(g)
        except ValueError:
            pass
    return json.dumps(plain(g), sort_keys=True)


def areatexts(a):
    if isinstance(a, str):
        a = a.split("/")
    return [text(x) for x in a]


def told(job):
    """What a job was told: grid and options, the last value of each."""
    opts = dict(job["told"])
    g = opts.pop("grid", None)
    r = {"grid": gridtext(g), "opts": {}, "area": []}
    for k, v in opts.items():
        if k == "area":
            r["area"] = areatexts(v)
        else:
            r["opts"][k] = text(v)
    return r


def engine(inp, options):
    """The result of the engine itself: (values or message, spec) or the error."""
    try:
        job = RealJob()
        for k, v in options:
            job.set(k, v)
        if isinstance(inp, bytes):
            o = io.BytesIO()
            job.execute(RealGrib(inp), o)
            return "", o.getvalue(), None
        o = mir.ArrayOutput()
        job.execute(RealArray(*inp), o)
        return "", o.values(), o.spec
    except Exception as e:
        return type(e).__name__, None, None


def message(values, template=None, **md):
    md = dict(dict(packingType="grid_simple", bitsPerValue=16), **md)
    return ed.create_encoder("grib").encode(values=values, template=template or _t, metadata=md).to_bytes()


def fields(messages):
    return ed.from_source("memory", b"".join(messages))


def single(m):
    return fields([m])[0]
