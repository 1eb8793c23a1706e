"""Sessions of the code under test in processes forked from a parent that has only the libraries loaded."""

import importlib
import json
import logging
import os
import sys
import tempfile

for m in ("filelock", "numpy", "scipy.sparse", "sqlite3", "yaml", "requests", "tqdm", "hashlib", "shutil", "random", "datetime", "http.client",
          "urllib.request", "email.parser", "platform", "pandas", "uuid"):
    try:
        importlib.import_module(m)
    except ImportError:
        pass
logging.disable(logging.CRITICAL)


class Child:
    """A session: fn(fin, fout) runs in the child, with the given environment."""

    def __init__(self, root, env, fn):
        self.cin, pout = os.pipe()
        pin, self.cout = os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            os.close(pin)
            os.close(pout)
            rc = 3
            try:
                for d in ("home", "tmp"):
                    os.makedirs(os.path.join(root, d), exist_ok=True)
                os.environ["HOME"] = os.path.join(root, "home")
                os.environ["TMPDIR"] = os.path.join(root, "tmp")
                tempfile.tempdir = None
                os.environ.update(env)
                fn(os.fdopen(self.cin), os.fdopen(self.cout, "w"))
                import atexit

                atexit._run_exitfuncs()
                rc = 0
            except BaseException:
                import traceback

                traceback.print_exc()
                sys.stderr.flush()
            finally:
                os._exit(rc)
        os.close(self.cin)
        os.close(self.cout)
        self.w, self.r = os.fdopen(pout, "w"), os.fdopen(pin)

    def send(self, o):
        self.w.write(json.dumps(o) + "\n")
        self.w.flush()

    def recv(self):
        line = self.r.readline()
        return json.loads(line) if line else None

    def ask(self, o):
        self.send(o)
        return self.recv()

    def close(self):
        try:
            self.send(dict(op="quit"))
        except BrokenPipeError:
            pass
        try:
            self.w.close()
        except BrokenPipeError:
            pass
        self.r.close()
        return os.waitpid(self.pid, 0)[1]


def line_killer(k, part="/earthkit/regrid/"):
    """A trace function which ends the process at the k-th executed line of the code under test."""
    n = 0

    def trace(frame, event, arg):
        nonlocal n
        if part not in frame.f_code.co_filename:
            return None
        if event == "line":
            n += 1
            if n == k:
                os._exit(9)
        return trace

    return trace
