"""Cooperative scheduling of real threads on virtual time.

One thread holds the baton and runs; every other one waits.  A running thread can be pre-empted at any repository
line (sys.settrace 'line' events) and at every operation on a lock, queue, event, timer or sleep.  Which thread runs next is
decided by plan["threads"]: {"seed": s, "prob": p (chance of a pre-emption at a line), "points": [[line_no, choice], ...] (an explicit
list replaces prob when given), "line_cost": virtual seconds per repository line}.
"""
from __future__ import annotations

import _thread
import queue
import sys
import threading
import time as _time_mod

from .core import SimHang, StepLimit, stream
from .pool import REPO_SRC, STATE, Moment
from .world import rebind

_real_lock = _thread.allocate_lock
_real_start = _thread.start_new_thread
_get_ident = _thread.get_ident


class T:
    """One simulated thread."""

    def __init__(self, sched, name, daemon=False):
        self.sched, self.name, self.daemon = sched, name, daemon
        self.gate = _real_lock()
        self.gate.acquire()
        self.state = "ready"  # ready, blocked, done
        self.wake_at = None
        self.pred = None
        self.timed_out = False
        self.obj = None
        self.kbd_at = None  # virtual time at which an interrupt reaches the thread if it is waiting then
        self.kbd_hit = False
        self.lines = 0
        self.abort = None
        self.parent = None
        self.moment = Moment()


class Scheduler:
    def __init__(self, ctx, cfg=None):
        cfg = dict(cfg or {})
        self.ctx, self.cfg = ctx, cfg
        self.w = ctx.world
        self.rng = stream(ctx.seed, "threads", cfg.get("seed", 0))
        self.lrng = stream(ctx.seed, "lines", cfg.get("seed", 0))
        self.prob = float(cfg.get("prob", 0.02))
        pts = cfg.get("points")
        self.points = None if pts is None else {int(a): int(b) for a, b in pts}
        self.line_cost = float(cfg.get("line_cost", 1e-5))
        self.max_lines = int(cfg.get("max_lines", 3_000_000))
        self.threads = []
        self.by_ident = {}
        self.cur = None
        self.lines = 0
        self.switches = 0
        self.used_points = []
        self.stopping = None
        self.trace_on = bool(cfg.get("trace", True))
        self.sig = 0
        self.start_fail = set(cfg.get("start_fail", []))
        self.starts = 0
        self.exc_points = {}  # thread name -> (line number, exception factory)

    # ---- baton
    def me(self):
        return self.by_ident.get(_get_ident())

    def runnable(self):
        out = []
        for t in self.threads:
            if t.state == "ready":
                out.append(t)
            elif t.state == "blocked":
                if t.pred is not None and t.pred():
                    out.append(t)
                elif t.wake_at is not None and t.wake_at <= self.w.now:
                    out.append(t)
        return out

    def _resume(self, t):
        if t.state == "blocked":
            t.timed_out = not (t.pred is not None and t.pred())
            t.state, t.pred, t.wake_at = "ready", None, None
        self.cur = t
        t.gate.release()

    def pick(self, cands, why):
        if len(cands) == 1:
            return cands[0]
        return cands[self.rng.randrange(len(cands))]

    def switch(self, why):
        """Called by the running thread (already marked blocked, done or ready): hand the baton on."""
        me = self.cur
        while True:
            c = self.runnable()
            if c:
                break
            wakes = [t.wake_at for t in self.threads if t.state == "blocked" and t.wake_at is not None]
            if wakes:
                t = max(self.w.now, min(wakes))
                if self.w.time_limit is not None and t > self.w.time_limit:
                    lim, self.w.time_limit = self.w.time_limit, None
                    self.abort_main(StepLimit(f"virtual time passed {lim}"))
                    return
                self.w.now = t
                self.w.max_now = max(self.w.max_now, t)
                continue
            self.deadlock()
            return
        nxt = self.pick(c, why)
        if nxt is not me:
            self.switches += 1
            self.ctx.event("switch", why, nxt.name, self.lines)
        if nxt is me:
            if me.state == "blocked":
                me.timed_out = not (me.pred is not None and me.pred())
                me.state, me.pred, me.wake_at = "ready", None, None
            return
        self._resume(nxt)
        if me.state != "done":
            me.gate.acquire()
            if me.abort is not None:
                e, me.abort = me.abort, None
                raise e

    def abort_main(self, e):
        """Raise e in the main thread, from whichever thread noticed; the noticing thread is parked for good."""
        main = self.threads[0]
        main.state, main.pred, main.wake_at = "ready", None, None
        if self.cur is main:
            raise e
        main.abort = e
        me = self.cur
        self.cur = main
        main.gate.release()
        if me.state != "done":
            me.gate.acquire()
            if me.abort is not None:
                x, me.abort = me.abort, None
                raise x

    def deadlock(self):
        """Nobody can run: the main thread gets SimHang."""
        names = [t.name for t in self.threads if t.state == "blocked"]
        self.ctx.event("deadlock", names)
        self.abort_main(SimHang("all threads blocked: " + ", ".join(names)))

    def block(self, pred, timeout=None, why="block"):
        """Wait until pred() holds or the timeout passed.  True: pred holds."""
        me = self.me()
        if me is None:
            raise RuntimeError("blocking call from a thread the simulator does not know")
        if pred is not None and pred():
            self.yield_(why)
            if pred():
                return True
        me.state, me.pred = "blocked", pred
        me.wake_at = None if timeout is None else self.w.now + max(0.0, timeout)
        if me.kbd_at is not None and (me.wake_at is None or me.kbd_at < me.wake_at):
            me.wake_at = max(me.kbd_at, self.w.now)
            self.switch(why)
            if me.timed_out and me.kbd_at is not None and me.kbd_at <= self.w.now:
                me.kbd_at = None
                self.interrupted(me, why)
                raise KeyboardInterrupt
            return not me.timed_out
        self.switch(why)
        return not me.timed_out

    def interrupted(self, t, where):
        t.kbd_hit = True
        self.ctx.fault("interrupt:" + where)
        self.ctx.event("interrupt", t.name, where, round(self.w.now, 3))

    def yield_(self, why):
        """A scheduling point that need not block."""
        if self.me() is None or STATE.get("forking"):
            return
        if len([t for t in self.threads if t.state != "done"]) > 1 and self.rng.random() < 0.5:
            self.switch(why)

    # ---- tracing
    def tracer(self):
        def local(frame, event, arg):
            if event == "line":
                self.on_line(frame)
            return local

        def glob(frame, event, arg):
            if not frame.f_code.co_filename.startswith(REPO_SRC):
                return None
            if self.exc_points:
                me = self.me()
                ep = None if me is None else self.exc_points.get(me.name)
                if ep is not None and me.lines >= ep[0] - 1:
                    me.moment.enter(frame)
            return local

        return glob

    def on_line(self, frame):
        me = self.me()
        if me is None:
            return
        self.lines += 1
        me.lines += 1
        n = self.lines
        if self.line_cost:
            self.w.advance(self.line_cost)
        if n > self.max_lines:
            self.max_lines = 1 << 60
            raise StepLimit(f"more than {n - 1} repository lines executed")
        ep = self.exc_points.get(me.name)
        if ep is not None and me.lines >= ep[0] and me.moment.now(frame):
            del self.exc_points[me.name]
            me.kbd_hit = True
            self.ctx.fault("interrupt:" + ep[2])
            self.ctx.event("interrupt", me.name, frame.f_code.co_name, me.lines)
            raise ep[1]()
        if len(self.threads) < 2:
            return
        if self.points is not None:
            c = self.points.get(n)
            if c is None:
                return
            cands = self.runnable()
            nxt = cands[c % len(cands)]
        else:
            if self.lrng.random() >= self.prob:
                return
            cands = self.runnable()
            k = self.lrng.randrange(len(cands))
            nxt = cands[k]
            self.used_points.append([n, k])
        if nxt is not me:
            self.switches += 1
            self.ctx.fault("preemption")
            self.ctx.event("preempt", frame.f_code.co_name, nxt.name, n)
            self._resume(nxt)
            me.gate.acquire()
            if me.abort is not None:
                e, me.abort = me.abort, None
                raise e

    # ---- life of threads
    def adopt_main(self):
        t = T(self, "main")
        self.threads.append(t)
        self.by_ident[_get_ident()] = t
        self.cur = t
        t.obj = threading.current_thread()
        if self.trace_on:
            sys.settrace(self.tracer())
        return t

    def spawn(self, fn, name, daemon=False):
        t = T(self, name, daemon)
        self.threads.append(t)
        t.parent = self.me()

        def body():
            self.by_ident[_get_ident()] = t
            t.gate.acquire()
            try:
                if t.abort is None:
                    if self.trace_on:
                        sys.settrace(self.tracer())
                    fn()
            except StepLimit as e:
                sys.settrace(None)
                t.state = "done"
                self.abort_main(e)
                return
            except SimHang:
                pass
            finally:
                sys.settrace(None)
                if t.state != "done":
                    t.state = "done"
                    self.ctx.event("exit", t.name)
                    self.switch("exit")

        _real_start(body, ())
        self.ctx.event("spawn", name)
        return t

    def detach(self):
        """In a forked child: only the forking thread exists."""
        me = self.me()
        self.threads = [me] if me is not None else self.threads[:1]
        self.by_ident = {_get_ident(): self.threads[0]}
        self.cur = self.threads[0]
        self.trace_on = False
        self.exc_points = {}

    def alive(self):
        return [t for t in self.threads[1:] if t.state != "done"]

    def install(self):
        install(self)
        return self


class SimLock:
    _reentrant = False

    def __init__(self):
        self._owner = None
        self._count = 0

    def acquire(self, blocking=True, timeout=-1):
        s = SCHED[0]
        me = s.me()
        if me is None:
            self._owner, self._count = "outside", self._count + 1
            return True
        if self._owner is None or (self._reentrant and self._owner is me):
            if self._owner is None:
                s.yield_("lock")
            if self._owner is None or (self._reentrant and self._owner is me):
                self._owner = me
                self._count += 1
                return True
        if not blocking:
            return False
        ok = s.block(lambda: self._owner is None, None if timeout is None or timeout < 0 else timeout, "lock")
        if not ok:
            return False
        self._owner = me
        self._count = 1
        return True

    def release(self):
        if self._owner is None:
            raise RuntimeError("release unlocked lock")
        if self._reentrant:
            if self._owner is not SCHED[0].me() and self._owner != "outside":
                raise RuntimeError("cannot release un-acquired lock")
            self._count -= 1
            if self._count > 0:
                return
        self._owner = None
        self._count = 0
        s = SCHED[0]
        if s.me() is not None:
            s.yield_("unlock")

    def locked(self):
        return self._owner is not None

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()

    def _at_fork_reinit(self):
        self._owner, self._count = None, 0


class SimRLock(SimLock):
    _reentrant = True

    def _is_owned(self):
        return self._owner is SCHED[0].me()

    def _release_save(self):
        st = (self._owner, self._count)
        self._owner, self._count = None, 0
        return st

    def _acquire_restore(self, st):
        SCHED[0].block(lambda: self._owner is None, None, "lock")
        self._owner, self._count = st


SCHED = [None]


def install(sched):
    SCHED[0] = sched
    STATE["detach"] = sched.detach
    w = sched.w
    orig = {"Lock": threading.Lock, "RLock": threading.RLock}

    threading.Lock = SimLock
    threading.RLock = SimRLock
    threading._allocate_lock = SimLock
    threading._CRLock = None
    threading._PyRLock = SimRLock
    threading._time = w.mono
    queue.time = w.mono
    queue.SimpleQueue = queue._PySimpleQueue
    pairs = [(orig["Lock"], SimLock), (orig["RLock"], SimRLock)]

    # locks that repository modules created at import time
    for name, mod in list(sys.modules.items()):
        if mod is None or not (name == "mqt" or name.startswith("mqt.")):
            continue
        for holder in [mod, *[v for v in vars(mod).values() if isinstance(v, type) and str(v.__module__).startswith("mqt")]]:
            for k, v in list(vars(holder).items()):
                new = convert(v)
                if new is not None:
                    try:
                        setattr(holder, k, new)
                    except (AttributeError, TypeError):
                        pass

    Thread = threading.Thread

    def start(self):
        if getattr(self, "_sim", None) is not None:
            raise RuntimeError("threads can only be started once")
        th = self
        if not getattr(th, "_harness", False):
            sched.starts += 1
            if sched.starts in sched.start_fail:
                sched.ctx.fault("thread_start_failure")
                sched.ctx.event("start_fails", th.name)
                threading._limbo.pop(th, None)
                raise RuntimeError("can't start new thread")

        def body():
            threading._active[_get_ident()] = th
            th._ident = _get_ident()
            try:
                th.run()
            except (SimHang, StepLimit):
                raise
            except SystemExit:
                pass
            except BaseException as e:  # noqa: BLE001
                sched.ctx.event("thread_exception", th.name, type(e).__name__)
                sched.ctx.extra.setdefault("thread_exceptions", []).append((th.name, f"{type(e).__name__}: {e}"))
            finally:
                threading._active.pop(_get_ident(), None)

        self._sim = sched.spawn(body, self.name, self.daemon)
        self._ident = 1_000_000 + len(sched.threads)  # the real one comes when it first runs
        self._sim.obj = self
        self._started._flag = True
        sched.yield_("start")

    def join(self, timeout=None):
        t = getattr(self, "_sim", None)
        if t is None:
            raise RuntimeError("cannot join thread before it is started")
        if t is sched.me():
            raise RuntimeError("cannot join current thread")
        if getattr(self, "_join_broken", False):
            return
        try:
            sched.block(lambda: t.state == "done", timeout, "join")
        except KeyboardInterrupt:
            # up to CPython 3.12 an interrupted join takes the thread for ended (it releases the lock that stands for its life)
            self._join_broken = sys.version_info < (3, 13)
            raise

    def is_alive(self):
        t = getattr(self, "_sim", None)
        if t is None:
            return self is threading._main_thread
        return t.state != "done" and not getattr(self, "_join_broken", False)

    Thread.start, Thread.join, Thread.is_alive = start, join, is_alive
    Thread.ident = property(lambda self: getattr(self, "_ident", None))

    def start_new_thread(fn, args, kwargs=None):
        t = sched.spawn(lambda: fn(*args, **(kwargs or {})), f"raw{len(sched.threads)}")
        return id(t)

    _thread.start_new_thread = start_new_thread
    threading._start_new_thread = start_new_thread
    if hasattr(threading, "_start_joinable_thread"):
        threading._start_joinable_thread = None
    w.sleep_hook = lambda s: sched.block(None, s, "sleep")
    rebind(pairs)


def convert(v):
    """A simulated twin of a synchronisation object created before the simulator was installed."""
    t = type(v)
    if t is _thread.LockType:
        return SimLock()
    if t.__name__ == "RLock" and t.__module__ in ("_thread", "threading"):
        return SimRLock()
    if isinstance(v, threading.Condition):
        return threading.Condition(SimRLock())
    if isinstance(v, threading.Event):
        e = threading.Event()
        e._flag = v._flag
        return e
    if isinstance(v, threading.Semaphore):
        return type(v)(v._value)
    return None


_ = _time_mod
