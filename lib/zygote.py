"""Runs calls in copies of this process as it was before anything else ran.

A server forked from the worker before its first case forks once more for every request, so each request finds the modules as they were just after their import.
"""
import ctypes
import os
import pickle
import signal
import struct

CPU_S = 30.0
_SERVER = {}


def _read(fd, num):
    data = b""
    while len(data) < num:
        part = os.read(fd, num - len(data))
        if not part:
            return None
        data += part
    return data


def _write(fd, data):
    data = struct.pack("<Q", len(data)) + data
    while data:
        data = data[os.write(fd, data):]


def _receive(fd):
    head = _read(fd, 8)
    return None if head is None else _read(fd, struct.unpack("<Q", head)[0])


def _answer(func, request, fd):
    """In the child of the server: run one request and send the outcome."""
    signal.signal(signal.SIGVTALRM, signal.SIG_DFL)
    signal.setitimer(signal.ITIMER_VIRTUAL, CPU_S)
    try:
        out = pickle.dumps(func(*request))
    except BaseException as exc:
        out = pickle.dumps(("harness", "{}: {}".format(
            type(exc).__name__, exc)))
    _write(fd, out)


def _serve(func, rfd, wfd):
    try:
        # Not to outlive the worker
        ctypes.CDLL(None).prctl(1, signal.SIGKILL)
    except (OSError, AttributeError):
        pass
    while True:
        data = _receive(rfd)
        if data is None:
            return
        cread, cwrite = os.pipe()
        child = os.fork()
        if child == 0:
            try:
                os.close(cread)
                _answer(func, pickle.loads(data), cwrite)
            finally:
                os._exit(0)
        os.close(cwrite)
        out = _receive(cread)
        os.close(cread)
        os.waitpid(child, 0)
        _write(wfd, pickle.dumps(("died", None)) if out is None else out)


def start(func):
    """Fork the server, once per process; to be called before any case runs."""
    if _SERVER.get("pid") == os.getpid():
        return
    r1, w1 = os.pipe()
    r2, w2 = os.pipe()
    if os.fork() == 0:
        try:
            os.close(w1)
            os.close(r2)
            _serve(func, r1, w2)
        finally:
            os._exit(0)
    os.close(r1)
    os.close(w2)
    _SERVER.update(pid=os.getpid(), read=r2, write=w1)


def call(*request):
    """The outcome of func(*request) in a process that did nothing before."""
    _write(_SERVER["write"], pickle.dumps(request))
    data = _receive(_SERVER["read"])
    if data is None:
        raise RuntimeError("the server of fresh processes is gone")
    out = pickle.loads(data)
    if out[0] == "harness":
        raise RuntimeError("in the fresh process: " + out[1])
    return out
