"""Simulated processes: really forked, run one after the other, each with its own clock reading, pid and entropy."""
from __future__ import annotations

import os
import pickle

from .pool import _readn
from .world import REAL


class ProcDied(Exception):
    pass


def run(ctx, name, fn, pid=None, at=None, fresh=True):
    """Run fn() in a forked process.  Returns ("ok", value), ("exit", code) for a killed process, or raises what it raised.

    fresh: the process is a restarted one (its generators are seeded by the system); otherwise a plain fork."""
    w = ctx.world
    r, wr = REAL["pipe"]()
    old = w.proc
    ppid = w.pid
    vp = w.new_pid() if pid is None else pid
    child = REAL["fork"]()
    if child == 0:
        code = 70
        try:
            REAL["close"](r)
            w.fork_child(f"{old}/{name}", vp, ppid, w.now if at is None else at)
            if fresh:
                w.reseed_globals()
            try:
                out = ("ok", fn())
            except BaseException as e:  # noqa: BLE001
                import traceback

                from .runner import sut_frame

                fr = sut_frame(e.__traceback__)
                if fr is not None:  # a traceback does not leave the process
                    e.dst_sut = fr
                out = ("exc", e, traceback.format_exc()[-1500:])
            try:
                data = pickle.dumps((out, ctx.faults, ctx.probes, ctx.violations, ctx.log, w.now, w.max_now, ctx.digest()))
            except Exception:  # noqa: BLE001
                err = RuntimeError(repr(out))
                if out[0] == "exc" and hasattr(out[1], "dst_sut"):
                    err.dst_sut = out[1].dst_sut
                data = pickle.dumps((("exc", err, ""), ctx.faults, ctx.probes, ctx.violations, ctx.log, w.now, w.max_now, ctx.digest()))
            data = len(data).to_bytes(8, "little") + data
            while data:
                k = REAL["write"](wr, data)
                data = data[k:]
            code = 0
        finally:
            REAL["exit"](code)
    REAL["close"](wr)
    try:
        try:
            n = int.from_bytes(_readn(r, 8), "little")
            out, faults, probes, viol, log, now, mx, dig = pickle.loads(_readn(r, n))
        except EOFError:
            out = None
    finally:
        REAL["close"](r)
        _, st = REAL["waitpid"](child, 0)
    if out is None:
        ctx.event("proc_end", name, st)
        if os.WIFSIGNALED(st):
            return "signal", os.WTERMSIG(st)
        return "exit", os.WEXITSTATUS(st)
    ctx.faults, ctx.probes, ctx.violations, ctx.log = faults, probes, viol, log
    ctx.event("proc", name, dig)
    if mx > w.max_now:
        w.max_now = mx
    if at is None and now > w.now:
        w.now = now
    if out[0] == "exc":
        if isinstance(out[1], BaseException) and not isinstance(out[1], RuntimeError):
            raise out[1] from ProcDied(out[2])
        raise out[1]
    return out
