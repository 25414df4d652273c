"""Evaluation in a process in which nothing of the code under test has been used before.

A server process imports the modules and nothing more; every request is answered by a fork of it.
"""

import importlib
import os
import pickle
import struct
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
_server = [None, None]


def _read(f, n):
    b = b""
    while len(b) < n:
        c = f.read(n - len(b))
        if not c:
            raise EOFError
        b += c
    return b


def _send(f, obj):
    b = pickle.dumps(obj)
    f.write(struct.pack("<Q", len(b)) + b)
    f.flush()


def _recv(f):
    return pickle.loads(_read(f, struct.unpack("<Q", _read(f, 8))[0]))


def call(module, function, *args):
    """function(*args) of a module of the checks, in a process of its own: ("value", v) or ("error", text)."""
    if _server[0] is None or _server[1] != os.getpid() or _server[0].poll() is not None:
        _server[0] = subprocess.Popen([sys.executable, "-W", "ignore", "-m", "vlib.pristine", module], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                      cwd=HERE, env={**os.environ, "PYTHONPATH": HERE})
        _server[1] = os.getpid()
        if _recv(_server[0].stdout) != "ready":
            raise RuntimeError("no answer from the server")
    _send(_server[0].stdin, (module, function, args))
    return _recv(_server[0].stdout)


def serve(modules):
    from vlib import core

    out = os.fdopen(os.dup(1), "wb")
    os.dup2(2, 1)
    core.setup()
    for m in ("bias", "concentration", "cross_correlations", "functional", "halo_exclusion", "halo_model", "hod", "integrate_corr", "profiles", "tools", "wdm"):
        importlib.import_module("halomod." + m)
    for m in modules:
        getattr(importlib.import_module(m), "PREPARE", lambda: None)()
    src = os.fdopen(0, "rb")
    _send(out, "ready")
    while True:
        try:
            module, function, args = _recv(src)
        except EOFError:
            return
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                ans = ("value", getattr(importlib.import_module(module), function)(*args))
            except Exception as e:  # noqa: BLE001
                ans = ("error", f"{type(e).__name__}: {str(e)[:300]}")
            try:
                _send(out, ans)
            except BaseException:  # noqa: BLE001
                code = 1
            os._exit(code)
        if os.waitpid(pid, 0)[1] != 0:
            _send(out, ("error", "the process died"))


if __name__ == "__main__":
    serve(sys.argv[1:])
