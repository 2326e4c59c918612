"""A stand-in Maxwell server with fault injection, and a fast client clock."""
import email
import http.server
import io
import os
import socket
import struct
import threading
import time

import h5py
import numpy as np
import scipy.sparse.linalg

from spins import fdfd_tools
from spins.fdfd_tools import operators

os.environ["NO_PROXY"] = "*"
os.environ["no_proxy"] = "*"

v = fdfd_tools.vec


class Server:

    def __init__(self, rng, solve, p_fault=0.0, hold=(0, 3)):
        self.files = {}
        self.lock = threading.Lock()
        self.rng = rng
        self.p_fault = p_fault
        self.hold = hold
        self.events = {}
        self.problems = []
        self.wait = {}
        self.finished = set()
        self.violations = []
        self.solve = solve
        outer = self

        class Handler(http.server.BaseHTTPRequestHandler):
            protocol_version = "HTTP/1.1"

            def log_message(self, *a):
                pass

            def drop(self):
                self.close_connection = True
                self.connection.setsockopt(socket.SOL_SOCKET,
                                           socket.SO_LINGER,
                                           struct.pack("ii", 1, 0))
                self.connection.close()
                self.wfile = io.BytesIO()

            def reply(self, code, body=b"", cut=None):
                self.send_response(code)
                self.send_header("Content-Length", str(len(body)))
                self.send_header("Connection", "close")
                self.end_headers()
                if cut is not None:  # the connection ends within the reply
                    outer.ev("cut_replies")
                    self.wfile.write(body[:cut])
                    self.wfile.flush()
                    self.close_connection = True
                    return
                self.wfile.write(body)
                self.close_connection = True

            def do_POST(self):
                body = self.rfile.read(int(self.headers["Content-Length"]))
                fault = outer.fault("upload")
                if fault == 1:
                    return self.drop()
                msg = email.message_from_bytes(
                    b"Content-Type: " + self.headers["Content-Type"].encode() +
                    b"\r\n\r\n" + body)
                parts = {
                    q.get_param("name", header="content-disposition"):
                    q.get_payload(decode=True) for q in msg.get_payload()
                }
                outer.store(parts["key"].decode(), parts["file"])
                if fault == 2:
                    return self.drop()
                self.reply(200)

            def do_GET(self):
                name = self.path.lstrip("/")
                kind = "poll" if name.split(".")[-1] in (
                    "request", "finished") else "download"
                fault = outer.fault(kind)
                if fault == 1:
                    return self.drop()
                data = outer.get(name, kind)
                if data is None:
                    return self.drop() if fault else self.reply(404)
                self.reply(200, data, len(data) * 2 // 3 if fault else None)

        class Http(http.server.ThreadingHTTPServer):

            def handle_error(self, request, client_address):
                pass

        self.http = Http(("127.0.0.1", 0), Handler)
        self.http.daemon_threads = True
        self.addr = "127.0.0.1:%d" % self.http.server_address[1]
        self.thread = threading.Thread(target=self.http.serve_forever,
                                       kwargs={"poll_interval": 0.01},
                                       daemon=True)
        self.thread.start()

    def ev(self, name):
        self.events[name] = self.events.get(name, 0) + 1

    def fault(self, kind):
        with self.lock:
            if self.rng.random() < self.p_fault:
                self.ev("faults")
                self.ev(kind + "_faults")
                return int(self.rng.integers(1, 3))
            return 0

    def store(self, name, data):
        with self.lock:
            self.files[name] = data
            if name.endswith("request"):
                self.ev("requests")
                if name in self.wait:
                    return  # the same request, sent again after a fault
                self.wait[name] = int(self.rng.integers(*self.hold))
                self.run(name[:-len("request")])

    def run(self, prefix):
        mine = {n[len(prefix):]: d for n, d in self.files.items()
                if n.startswith(prefix)}
        try:
            self.files[prefix + "status"] = b"0.5\n0.25\n1e-06\n"
            out = self.solve(self, read_problem(mine))
            out["time_info"] = np.array([1.5])
            for n, out in out.items():
                buf = io.BytesIO()
                with h5py.File(buf, "w") as f:
                    f.create_dataset("data", data=out)
                mine[n] = buf.getvalue()
                self.files[prefix + n] = mine[n]
        except Exception as exc:
            self.violations.append("incomplete request: %r" % exc)
            for n in ["E_" + c + q for c in "xyz" for q in "ri"]:
                self.files[prefix + n] = b""

    def get(self, name, kind):
        with self.lock:
            if kind == "poll":
                self.ev("polls")
                req = name.rsplit(".", 1)[0] + ".request"
                if name.endswith("request"):
                    if req not in self.wait:
                        self.violations.append("polled before the request")
                        return None
                    self.wait[req] -= 1
                    return b"x" if self.wait[req] >= 0 else None
                if self.wait.get(req, 9) < 0:
                    self.wait[req] -= 1
                    if self.wait[req] < -2:  # removed, but not yet finished
                        self.finished.add(req)
                        return b"ok"
                return None
            req = name.rsplit(".", 1)[0] + ".request"
            if req not in self.finished:
                self.violations.append("download before the solve finished")
            return self.files.get(name)

    def close(self):
        self.http.shutdown()
        self.http.server_close()


def read_problem(files):
    def data(name, key="data"):
        with h5py.File(io.BytesIO(files[name]), "r") as f:
            return f[key][()]

    def field(name):
        return [data("%s_%sr" % (name, c)) + 1j * data("%s_%si" % (name, c))
                for c in "xyz"]

    g = lambda key: data("grid", key)
    out = {
        "omega": complex(g("omega_r")[0], g("omega_i")[0]),
        "dxes": [[g(s + c + "r") + 1j * g(s + c + "i") for c in "xyz"]
                 for s in ["sd_", "sp_"]],
        "shape": list(g("shape")),
        "pemc": g("pemc"),
        "solver": int(g("solver")),
        "bloch_phase": g("bloch_phase"),
        "n_eig": int(g("n_eig")[0]),
        "max_iters": int(g("max_iters")[0]),
        "err_thresh": float(g("err_thresh")[0]),
    }
    for n, key in [("e", "epsilon"), ("J", "J"), ("m", "mu"), ("A", "E0")]:
        out[key] = field(n)
    return out


def solve_uploaded(server, p):
    server.problems.append(p)
    L = np.array([np.real(np.sum(d)) for d in p["dxes"][0]])
    k = np.angle(np.asarray(p["bloch_phase"])[:, 0]) / L
    A = operators.e_full(p["omega"], p["dxes"], v(p["epsilon"]),
                         mu=v(p["mu"]), bloch_vec=k)
    x = scipy.sparse.linalg.spsolve(A.tocsc().astype(complex),
                                    -1j * p["omega"] * v(p["J"]))
    E = fdfd_tools.unvec(x, p["shape"])
    return {"E_%s%s" % (c, q): fn(E[i]) for i, c in enumerate("xyz")
            for q, fn in [("r", np.real), ("i", np.imag)]}


class Fast:
    """The waiting times of the client are shortened, nothing else."""

    def __enter__(self):
        self.old = time.sleep
        time.sleep = lambda s: self.old(min(s, 0.002))
        return self

    def __exit__(self, *a):
        time.sleep = self.old
