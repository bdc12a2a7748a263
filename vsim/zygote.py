"""Simulated process restarts.

The zygote is a fresh interpreter, with another hash seed, that has only imported
glum; `call(fn, payload)` runs fn(payload) in a process forked from the zygote,
i.e. in one that shares no state with the present history except what the
payload carries.
"""
import importlib
import os
import pickle
import signal
import socket
import struct
import sys
import traceback

from . import boot

HASHSEED = "918273"
_addr = None


class Died(Exception):
    pass


def _read(c, n):
    out = b""
    while len(out) < n:
        d = c.recv(min(n - len(out), 1 << 20))
        if not d:
            return None
        out += d
    return out


def _send(c, data):
    c.sendall(struct.pack("<Q", len(data)) + data)


def _recv(c):
    h = _read(c, 8)
    if h is None:
        return None
    return _read(c, struct.unpack("<Q", h)[0])


def start():
    """Start the zygote; processes forked from this one share it."""
    global _addr
    if _addr is not None:
        return
    srv = socket.socket(socket.AF_UNIX)
    addr = f"\0vsim-{os.getpid()}-{os.urandom(6).hex()}"
    srv.bind(addr)
    srv.listen(64)
    # the zygote ends when the last process that holds the other end does
    rd, wr = os.pipe()
    if os.fork() == 0:
        try:
            os.close(wr)
            for fd in (srv.fileno(), rd):
                os.set_inheritable(fd, True)
            env = dict(os.environ, PYTHONHASHSEED=HASHSEED, PYTHONPATH=boot.VERIF.as_posix())
            bench = any(os.path.join(p, "") == boot.BENCH_DIR.replace("glum_benchmarks" + os.sep, "") for p in sys.path)
            args = [str(srv.fileno()), str(rd), boot._loaded.get("variant", "plain"), "bench" if bench else "-"]
            os.execve(sys.executable, [sys.executable, "-m", "vsim.zygote", *args], env)
        finally:
            os._exit(1)
    os.close(rd)
    srv.close()
    _addr = addr


def _work(req, w):
    try:
        mod, fn, payload = pickle.loads(req)
        f = getattr(importlib.import_module(mod), fn)
        try:
            res = ("ok", f(payload))
        except BaseException as e:  # noqa: BLE001
            res = ("raise", f"{type(e).__name__}: {e}", traceback.format_exc()[-1500:])
        try:
            data = pickle.dumps(res)
        except Exception as e:  # noqa: BLE001
            data = pickle.dumps(("raise", f"unpicklable result: {e}", ""))
        with os.fdopen(w, "wb") as fh:
            fh.write(data)
    finally:
        os._exit(0)


def _handle(c):
    """One request, in a process of its own."""
    req = _recv(c)
    if req is None:
        return
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        c.close()
        _work(req, w)
    os.close(w)
    with os.fdopen(r, "rb") as fh:
        data = fh.read()
    _, status = os.waitpid(pid, 0)
    if os.WIFSIGNALED(status) or not data:
        data = pickle.dumps(("died", os.WTERMSIG(status) if os.WIFSIGNALED(status) else -1))
    _send(c, data)


def serve(sfd, rd):
    import select

    signal.signal(signal.SIGINT, signal.SIG_IGN)
    signal.signal(signal.SIGCHLD, signal.SIG_IGN)
    srv = socket.socket(fileno=sfd)
    while True:
        ready, _, _ = select.select([srv, rd], [], [])
        if srv not in ready:
            os._exit(0)
        c, _ = srv.accept()
        if os.fork() == 0:
            signal.signal(signal.SIGCHLD, signal.SIG_DFL)
            try:
                srv.close()
                os.close(rd)
                _handle(c)
            finally:
                os._exit(0)
        c.close()


def call(mod, fn, payload):
    start()
    with socket.socket(socket.AF_UNIX) as c:
        c.connect(_addr)
        _send(c, pickle.dumps((mod, fn, payload)))
        data = _recv(c)
    if data is None:
        raise Died("the simulated host is gone")
    return pickle.loads(data)


if __name__ == "__main__":
    import vsim.zygote as me

    boot.boot(sys.argv[3], bench=sys.argv[4] == "bench")
    for _p in ("c08", "c10", "c11"):
        importlib.import_module("vsim.props." + _p)
    me.serve(int(sys.argv[1]), int(sys.argv[2]))
