"""Answers of a process that has done nothing else.

A forked copy of the worker, made before its first case, waits for requests; each request is answered by a fork of that
copy, so that nothing earlier cases left behind (caches of classes, modules or compiled kernels) can reach the answer.
"""
import functools
import importlib
import os
import pickle
import struct
import traceback

from . import core

_pipes = None


def _write(fd, data):
    data = struct.pack("<Q", len(data)) + data
    while data:
        data = data[os.write(fd, data):]


def _read(fd):
    def exactly(n):
        out = b""
        while len(out) < n:
            part = os.read(fd, n - len(out))
            if not part:
                raise EOFError
            out += part
        return out
    return exactly(struct.unpack("<Q", exactly(8))[0])


def _answer(request):
    try:
        module, name, args = pickle.loads(request)
        import numpy as np
        with np.errstate(all="ignore"):
            return pickle.dumps((True, getattr(importlib.import_module(module), name)(*args)))
    except BaseException as e:
        return pickle.dumps((False, "".join(traceback.format_exception(e))[-2000:]))


def _serve(rd, wr):
    while True:
        try:
            request = _read(rd)
        except EOFError:
            os._exit(0)
        pid = os.fork()
        if pid == 0:
            _write(wr, _answer(request))
            os._exit(0)
        _, status = os.waitpid(pid, 0)
        if status != 0:
            _write(wr, pickle.dumps((False, f"the process ended with status {status}")))


def start():
    """Make the copy; to be called before the process has used geoana."""
    global _pipes
    if _pipes is not None and _pipes[2] == os.getpid():
        return
    a, b = os.pipe(), os.pipe()
    if os.fork() == 0:
        try:
            os.close(a[1])
            os.close(b[0])
            _serve(a[0], b[1])
        finally:
            os._exit(1)
    os.close(a[0])
    os.close(b[1])
    _pipes = a[1], b[0], os.getpid()


def call(module, name, *args):
    """(True, result) or (False, error)."""
    start()
    _write(_pipes[0], pickle.dumps((module, name, args)))
    return pickle.loads(_read(_pipes[1]))


def isolated(check):
    """Judge every case in a process of its own, so that a failure depends on its case alone and can be replayed."""
    module, name = check.__module__, check.__name__

    @functools.wraps(check)
    def run(c, ctx):
        ok, out = call("pbt.clean", "_judge", module, name, c)
        if not ok:
            core.fail(out)
        kind, msg, ctx.trivial, labels, known = out
        ctx.label(*labels)
        for k in known:
            ctx.known_finding(*k)
        if kind == "discard":
            raise core.Discard(msg)
        if kind == "violation":
            core.fail(msg)
    run.alone = check
    return run


def _judge(module, name, c):
    start()
    check = getattr(importlib.import_module(module), name).alone
    ctx = core.Ctx()
    kind, msg = "held", ""
    try:
        core.run_case(core.Facet(name, None, check, 0, 0, ""), c, ctx)
    except core.Discard as e:
        kind, msg = "discard", str(e)
    except core.Violation as e:
        kind, msg = "violation", str(e)
    return kind, msg, ctx.trivial, sorted(ctx.labels), list(ctx.known)
