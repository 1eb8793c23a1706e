"""A web server of the drivers' own, in a process of its own, whose every answer is under control.

A resource is dict(body=bytes as latin-1 text, etag, st, head, ranges) with
  st     ok, missing (404), error (500), forbidden (403), cut (only `cut` bytes of the body are sent)
  head   whether HEAD requests are answered (else 405)
  ranges whether ranges are announced and served
`switch` {after: "GET /path", set: {...}} changes resources right after a request is answered."""

import json
import os
import sys
import threading
from http.server import BaseHTTPRequestHandler
from http.server import ThreadingHTTPServer


class Server:
    def __init__(self):
        cin, self.w = os.pipe()
        self.r, cout = os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            try:
                os.close(self.w)
                os.close(self.r)
                serve(os.fdopen(cin), os.fdopen(cout, "w"))
            finally:
                os._exit(0)
        os.close(cin)
        os.close(cout)
        self.w, self.r = os.fdopen(self.w, "w"), os.fdopen(self.r)
        self.port = json.loads(self.r.readline())

    def ask(self, o):
        self.w.write(json.dumps(o) + "\n")
        self.w.flush()
        return json.loads(self.r.readline())

    def set(self, res, switch=None):
        return self.ask(dict(set=res, switch=switch))

    def log(self):
        return self.ask(dict(log=True))

    def close(self):
        self.w.close()
        self.r.close()
        os.waitpid(self.pid, 0)


def serve(fin, fout):
    lock = threading.Lock()
    res, log, switch = {}, [], []

    class H(BaseHTTPRequestHandler):
        def log_message(self, *a):
            pass

        def answer(self, get):
            with lock:
                r = dict(res.get(self.path) or dict(st="missing", body="", head=True))
                log.append(dict(m=self.command, path=self.path, range=self.headers.get("range", "")))
                try:
                    self.reply(get, r)
                except (BrokenPipeError, ConnectionResetError):
                    pass
                for s in list(switch):
                    if s["after"] == f"{self.command} {self.path}":
                        switch.remove(s)
                        for k, v in s["set"].items():
                            res[k] = v

        def reply(self, get, r):
            if not get and not r.get("head", True):
                self.send_response(405)
                self.end_headers()
                return
            st = r["st"]
            if st in ("missing", "error", "forbidden"):
                self.send_response({"missing": 404, "error": 500, "forbidden": 403}[st])
                self.send_header("Content-Length", "4")
                self.end_headers()
                if get:
                    self.wfile.write(b"oops")
                return
            body = r["body"].encode("latin-1")
            full, start = len(body), 0
            rng = self.headers.get("range")
            if get and rng and r.get("ranges"):
                start = int(rng.split("=")[1].split("-")[0])
                self.send_response(206)
                self.send_header("Content-Range", f"bytes {start}-{full - 1}/{full}")
            else:
                self.send_response(200)
            if r.get("ranges"):
                self.send_header("Accept-Ranges", "bytes")
            if r.get("etag"):
                self.send_header("ETag", r["etag"])
            self.send_header("Content-Length", str(full - start))
            self.send_header("Content-Type", "application/octet-stream")
            self.end_headers()
            if get:
                end = full
                if st == "cut":
                    end = min(full - 1, max(start, r["cut"]))
                self.wfile.write(body[start:end])
                self.wfile.flush()
                self.close_connection = True

        def do_GET(self):
            self.answer(True)

        def do_HEAD(self):
            self.answer(False)

    class S(ThreadingHTTPServer):
        daemon_threads = True
        request_queue_size = 64

        def handle_error(self, *a):
            pass

    s = S(("127.0.0.1", 0), H)
    threading.Thread(target=s.serve_forever, kwargs=dict(poll_interval=0.05), daemon=True).start()
    fout.write(json.dumps(s.server_address[1]) + "\n")
    fout.flush()
    for line in fin:
        o = json.loads(line)
        with lock:
            r = True
            if "set" in o:
                for k, v in o["set"].items():
                    res[k] = v
                switch[:] = [o["switch"]] if o.get("switch") else []
            if "log" in o:
                r = list(log)
                log.clear()
        fout.write(json.dumps(r) + "\n")
        fout.flush()
    os._exit(0)
