"""Answers from a process in which nothing else has happened.

The first call forks a server from the calling process, which must not have used the code under test
yet (a check calls this before anything else).  Each request is answered by a child forked from that
server, so that whatever estimators leave behind in a process -- class attributes, module caches,
global random state -- is never there.
"""

from __future__ import annotations

import os
import pickle
import struct
import traceback

from harness.core import HarnessError

_server = None


def _send(fd, data):
    data = struct.pack("<Q", len(data)) + data
    while data:
        data = data[os.write(fd, data):]


def _read(fd, n):
    out = b""
    while len(out) < n:
        part = os.read(fd, n - len(out))
        if not part:
            return None
        out += part
    return out


def _receive(fd):
    head = _read(fd, 8)
    return None if head is None else _read(fd, struct.unpack("<Q", head)[0])


def _serve(requests, answers):
    while True:
        data = _receive(requests)
        if data is None:
            os._exit(0)
        pid = os.fork()
        if pid == 0:
            try:
                import numpy as np

                fn, args = pickle.loads(data)
                with np.errstate(all="ignore"):
                    out = ("ok", fn(*args))
            except BaseException:  # noqa: BLE001 - reported to the caller
                out = ("error", traceback.format_exc()[-2000:])
            _send(answers, pickle.dumps(out))
            os._exit(0)
        os.waitpid(pid, 0)


def start():
    """Fork the server now, unless it is there already."""
    global _server
    if _server is not None:
        return
    a, b = os.pipe(), os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(a[1])
        os.close(b[0])
        try:
            _serve(a[0], b[1])
        finally:
            os._exit(0)
    os.close(a[0])
    os.close(b[1])
    _server = (a[1], b[0])


def call(fn, *args):
    """``("ok", fn(*args))`` as a fresh process sees it, or ``("error", text)``."""
    start()
    _send(_server[0], pickle.dumps((fn, args)))
    data = _receive(_server[1])
    if data is None:
        raise HarnessError("the server of fresh processes ended")
    return pickle.loads(data)
