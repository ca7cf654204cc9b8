"""Worker processes under the simulator's control.

Replaces multiprocessing pools and ProcessPoolExecutor.  Every worker is a real forked process, so what it
inherits, what is pickled and what is per-process is real; but one worker runs at a time, in the order of a
discrete-event schedule over virtual time, with a virtual clock and a virtual process id each.

cfg (plan["pool"]):
  cost      [lo, hi]  virtual seconds one item takes
  delay     [lo, hi]  virtual seconds between assignment and start
  tie       seed deciding which of several free workers takes the next chunk
  slow      {worker: factor}, stall {item: seconds}
  skew      {worker: seconds}  offset of that worker's clock reading (same machine, read at different instants)
  faults    [{"at": item, "kind": "exc", "etype": ..., "line": n} | {"at": item, "kind": "kill"} |
             {"at": "fork", "kind": "fork_fail", "n": k}]
Items are numbered over the whole run.
"""
from __future__ import annotations

import ast
import concurrent.futures
import concurrent.futures.process
import errno
import functools
import itertools
import multiprocessing as mp
import multiprocessing.pool
import os
import pickle
import sys
import time
import traceback

from .core import SimHang, stream
from .world import REAL, rebind

STATE = {}
REAL_OPEN = open


class WorkerDied(Exception):
    pass


ETYPES = {
    "MemoryError": lambda: MemoryError("injected"),
    "OSError": lambda: OSError(errno.EIO, "injected I/O error"),
    "ENOMEM": lambda: OSError(errno.ENOMEM, "injected: cannot allocate memory"),
    "RuntimeError": lambda: RuntimeError("injected"),
    "ValueError": lambda: ValueError("injected"),
    "FloatingPointError": lambda: FloatingPointError("injected"),
    "TimeoutError": lambda: TimeoutError("injected"),
    "SystemError": lambda: SystemError("injected"),
    "KeyboardInterrupt": lambda: KeyboardInterrupt(),
}

REPO_SRC = os.path.join(os.environ.get("DST_REPO", "/repo"), "src") + os.sep


@functools.cache
def cleanup_lines(path):
    """The lines of a file at which an interrupt hits a clean-up or the gap before one: finally, except, try and with statements."""
    out = set()
    try:
        with REAL_OPEN(path) as f:
            tree = ast.parse(f.read())
    except (OSError, SyntaxError):
        return out
    for node in ast.walk(tree):
        if isinstance(node, ast.Try):
            out.add(node.lineno)
            for part in (*node.handlers, *node.finalbody):
                out.update(range(part.lineno, part.end_lineno + 1))
        elif isinstance(node, (ast.With, ast.AsyncWith)):
            for item in node.items:
                out.update(range(node.lineno, item.context_expr.end_lineno + 1))
    return out


class Moment:
    """Where an asynchronous exception may be raised, from the line event at which it is due.

    It is put off while a clean-up is under way, and at the second of two line events with one line number: raised
    by a trace function when a loop within one line starts over, an exception passes the with and finally blocks by
    (CPython 3.12), which no real interrupt does."""

    def __init__(self):
        self.last = {}

    def enter(self, frame):
        self.last[frame] = None

    def now(self, frame):
        line = frame.f_lineno
        old = self.last.get(frame, line)
        self.last[frame] = line
        if old == line:
            return False
        f = frame
        while f is not None:
            p = f.f_code.co_filename
            if p == __file__ and f.f_code.co_name == "_serve":
                break  # what is further out belongs to the process that forked this one
            if p.startswith(REPO_SRC) and f.f_lineno in cleanup_lines(p):
                return False
            f = f.f_back
        self.last = {}
        return True


def raise_at_line(n, make, hit):
    """Trace function raising make() at the n-th executed repository line, or soon after it."""
    count = 0
    moment = Moment()

    def local(frame, event, arg):
        nonlocal count
        if event == "line":
            count += 1
            if count >= n and moment.now(frame):
                hit.append((frame.f_code.co_name, frame.f_lineno))
                sys.settrace(None)
                raise make()
        return local

    def glob(frame, event, arg):
        if not frame.f_code.co_filename.startswith(REPO_SRC):
            return None
        if count >= n - 1:
            moment.enter(frame)
        return local

    return glob


def _write(fd, data):
    data = len(data).to_bytes(8, "little") + data
    while data:
        k = REAL["write"](fd, data)
        data = data[k:]


def _readn(fd, n):
    out = b""
    while len(out) < n:
        b = REAL["read"](fd, n - len(out))
        if not b:
            raise EOFError
        out += b
    return out


def _read(fd):
    return _readn(fd, int.from_bytes(_readn(fd, 8), "little"))


class _Remote(Exception):
    def __init__(self, tb):
        self.tb = tb

    def __str__(self):
        return self.tb


class Worker:
    def __init__(self, sim, index, initializer, initargs):
        self.sim, self.index = sim, index
        w = sim.ctx.world
        self.vpid = w.new_pid()
        self.free_at = w.now
        self.skew = float(sim.cfg.get("skew", {}).get(str(index), 0.0))
        self.slow = float(sim.cfg.get("slow", {}).get(str(index), 1.0))
        self.done_chunks = 0
        self.dead = False
        r1, w1 = REAL["pipe"]()
        r2, w2 = REAL["pipe"]()
        sim.n_forked += 1
        self.proc_name = f"{w.proc}/w{sim.n_forked}"
        sys.stdout.flush()
        sys.stderr.flush()
        ppid = w.pid
        STATE["forking"] = True  # the locks that forking itself takes are no scheduling points
        pid = REAL["fork"]()
        STATE["forking"] = False
        if pid == 0:
            code = 0
            sys.settrace(None)
            if STATE.get("detach"):
                STATE["detach"]()  # of the parent's threads only the forking one lives on in the child
            try:
                for ww in sim.all_workers:
                    ww.close_fds()
                REAL["close"](w1)
                REAL["close"](r2)
                p = mp.Process(target=None)
                p._identity = (sim.n_forked,)
                p._name = f"ForkPoolWorker-{sim.n_forked}"
                mp.process._current_process = p
                w.fork_child(self.proc_name, self.vpid, ppid, w.now)
                self._serve(r1, w2, initializer, initargs)
            except BaseException:  # noqa: BLE001
                traceback.print_exc()
                code = 3
            finally:
                REAL["exit"](code)
        REAL["close"](r1)
        REAL["close"](w2)
        self.pid, self.wfd, self.rfd = pid, w1, r2
        sim.all_workers.append(self)

    def close_fds(self):
        for fd in (self.wfd, self.rfd):
            try:
                REAL["close"](fd)
            except OSError:
                pass

    # --- child side
    def _serve(self, rfd, wfd, initializer, initargs):
        ctx, w = self.sim.ctx, self.sim.ctx.world
        initialised = initializer is None
        while True:
            try:
                msg = pickle.loads(_read(rfd))
            except EOFError:
                return
            w.now = msg["start"] + self.skew
            w._jumped = set()
            t0 = w.now
            ctx.faults, ctx.probes, ctx.violations = {}, {}, []
            out = []
            try:
                if not initialised:
                    initializer(*initargs)
                    initialised = True
                func, star, mode = pickle.loads(msg["func"])
                for k, (args, kw) in enumerate(pickle.loads(msg["items"])):
                    plan = msg["plan"][k]
                    if plan["kill"]:
                        REAL["exit"](9)
                    hit = []
                    try:
                        if plan["exc"]:
                            sys.settrace(raise_at_line(plan["exc"]["line"], ETYPES[plan["exc"]["etype"]], hit))
                        try:
                            r = func(*args, **kw)
                        finally:
                            sys.settrace(None)
                            if hit:
                                ctx.fault("worker_exception:" + plan["exc"]["etype"])
                        out.append((True, r, None))
                        w.advance(plan["cost"])
                    except Exception as e:  # noqa: BLE001
                        out.append((False, e, traceback.format_exc()))
                        if mode == "map":  # mapstar stops at the first failing item of a chunk
                            break
                    except BaseException as e:  # noqa: BLE001  worker leaves its loop: it dies
                        if isinstance(e, (KeyboardInterrupt, SystemExit)):
                            REAL["exit"](1)
                        raise
            except Exception as e:  # noqa: BLE001
                out.append((False, e, traceback.format_exc()))
            res = {"end": w.now - self.skew, "faults": ctx.faults, "probes": ctx.probes, "viol": ctx.violations,
                   "t0": t0, "urandom": w._ent_n}
            packed = []
            for ok, v, tb in out:
                try:
                    packed.append((ok, pickle.dumps(v), tb))
                except Exception as e:  # noqa: BLE001
                    packed.append((False, pickle.dumps(mp.pool.MaybeEncodingError(e, repr(v)[:200])), str(e)))
            res["out"] = packed
            _write(wfd, pickle.dumps(res))

    # --- parent side
    def run(self, msg):
        try:
            _write(self.wfd, pickle.dumps(msg))
            return pickle.loads(_read(self.rfd))
        except (EOFError, BrokenPipeError):
            self.dead = True
            return None

    def stop(self):
        self.close_fds()
        try:
            REAL["waitpid"](self.pid, 0)
        except ChildProcessError:
            pass


class PoolSim:
    """One per run: owns fault bookkeeping and item numbering."""

    def __init__(self, ctx, cfg):
        self.ctx, self.cfg = ctx, dict(cfg or {})
        self.item = 0
        self.n_forked = 0
        self.n_pools = 0
        self.n_pool_forks = 0
        self.all_workers = []
        self.rng = stream(ctx.seed, "pool", self.cfg.get("tie", 0))
        self.trace = []

    def u(self, key, default):
        lo, hi = self.cfg.get(key, default)
        return lo + (hi - lo) * self.rng.random()

    def item_plan(self, it):
        p = {"exc": None, "kill": False, "cost": self.u("cost", (0.0005, 0.003))}
        st = self.cfg.get("stall", {}).get(str(it))
        if st:
            p["cost"] += st
            self.ctx.fault("worker_stall")
        for f in self.cfg.get("faults", ()):
            if f["at"] == it:
                if f["kind"] == "exc":
                    p["exc"] = f
                elif f["kind"] == "kill":
                    p["kill"] = True
        return p


class Engine:
    """A set of workers and a FIFO of chunks; chunks are executed lazily when someone needs a result."""

    def __init__(self, n, initializer=None, initargs=(), maxtasks=None):
        self.sim = STATE["sim"]
        self.init, self.maxtasks = (initializer, initargs), maxtasks
        sim = self.sim
        sim.n_pools += 1
        if n is None:
            n = sim.ctx.world.ncpu
        if n < 1:
            raise ValueError("Number of processes must be at least 1")
        self.workers = []
        self.broken = False
        self.queue = []
        self.n = n
        sim.ctx.probe("pools")
        for f in sim.cfg.get("faults", ()):
            if f["at"] == "fork" and f.get("pool", 1) == sim.n_pools and f["n"] < n:
                for i in range(f["n"]):
                    self.workers.append(Worker(sim, i, *self.init))
                self.kill()
                sim.ctx.fault("fork_fail")
                raise OSError(errno.EAGAIN, "Resource temporarily unavailable (injected)")
        for i in range(n):
            self.workers.append(Worker(sim, i, *self.init))
        sim.ctx.event("pool", n)

    def submit(self, func, calls, mode, on_done):
        """calls: list of (args, kwargs) forming one chunk."""
        sim = self.sim
        chunk = {"first": sim.item, "func": pickle.dumps((func, False, mode)),
                 "items": pickle.dumps(calls), "n": len(calls), "done": on_done,  # a chunk is pickled as one, as the real pools do
                 "at": sim.ctx.world.now, "plan": None, "ready_at": None, "res": None}
        sim.item += len(calls)
        chunk["plan"] = [sim.item_plan(chunk["first"] + k) for k in range(len(calls))]
        self.queue.append(chunk)
        return chunk

    def run_next(self):
        """Give the next chunk to the worker that is free first and run it there."""
        sim, ctx = self.sim, self.sim.ctx
        live = [w for w in self.workers if not w.dead]
        if not self.queue:
            return False
        if not live:
            return False
        chunk = self.queue.pop(0)
        best = min(max(w.free_at, chunk["at"]) for w in live)
        cands = [w for w in live if max(w.free_at, chunk["at"]) <= best + 1e-12]
        wk = cands[sim.rng.randrange(len(cands))]
        start = best + sim.u("delay", (0.0, 0.0002))
        if wk.slow != 1.0:
            ctx.fault("slow_worker")
        for p in chunk["plan"]:
            p["cost"] *= wk.slow
        if wk.skew:
            ctx.fault("worker_clock_offset")
        msg = {"start": start, "first": chunk["first"], "items": chunk["items"], "func": chunk["func"], "plan": chunk["plan"]}
        res = wk.run(msg)
        if res is None:
            if any(p["kill"] for p in chunk["plan"]):
                ctx.fault("worker_kill")
            else:
                ctx.probe("worker_died_itself")
            ctx.event("worker_died", wk.index, chunk["first"])
            chunk["ready_at"] = None
            chunk["res"] = "lost"
            wk.stop()
            sim.all_workers.remove(wk)
            self.on_death(wk)
            chunk["done"](chunk)
            return True
        wk.free_at = res["end"]
        for k, v in res["faults"].items():
            ctx.fault(k, v)
        for k, v in res["probes"].items():
            ctx.probe(k, v)
        ctx.violations.extend(res["viol"])
        chunk["ready_at"] = res["end"]
        chunk["res"] = []
        for ok, raw, tb in res["out"]:
            v = pickle.loads(raw)
            if not ok:
                v.__cause__ = _Remote(tb)
            chunk["res"].append((ok, v))
        ctx.event("chunk", wk.index, wk.vpid, chunk["first"], chunk["n"], round(start, 9), round(res["end"], 9))
        sim.trace.append((wk.index, chunk["first"]))
        wk.done_chunks += 1
        if self.maxtasks and wk.done_chunks >= self.maxtasks:
            self.replace(wk)
        chunk["done"](chunk)
        return True

    def replace(self, wk):
        i = self.workers.index(wk)
        if not wk.dead:
            wk.stop()
            self.sim.all_workers.remove(wk)
        nw = Worker(self.sim, wk.index, *self.init)
        nw.free_at = max(wk.free_at, self.sim.ctx.world.now)
        self.workers[i] = nw

    def on_death(self, wk):  # multiprocessing.Pool: a new worker takes the place, the task is lost
        self.replace(wk)

    def run_all(self):
        while self.run_next():
            pass

    def kill(self):
        for w in self.workers:
            if not w.dead:
                w.stop()
                if w in self.sim.all_workers:
                    self.sim.all_workers.remove(w)
        self.workers = []
        self.queue = []

    def advance_to(self, t):
        w = self.sim.ctx.world
        if t > w.now:
            if w.sleep_hook is not None:
                w.sleep_hook(t - w.now)  # the waiting thread lets others run
            else:
                w.advance(t - w.now)


class SimAsyncResult:
    def __init__(self, pool, total, callback=None, error_callback=None, single=False):
        self._pool, self._total, self._single = pool, total, single
        self._parts = {}
        self._left = total
        self._ready_at = 0.0
        self._ok, self._value = True, None
        self._cb, self._ecb = callback, error_callback
        self._lost = False

    def _done(self, idx, chunk):
        if chunk["res"] == "lost":
            self._lost = True
            return
        self._parts[idx] = chunk["res"]
        self._ready_at = max(self._ready_at, chunk["ready_at"])
        for ok, v in chunk["res"]:
            if not ok and self._ok:
                self._ok, self._value = False, v
                break
        self._left -= 1
        if self._left == 0:
            if self._ok:
                self._value = [v for i in sorted(self._parts) for _, v in self._parts[i]]
                if self._single:
                    self._value = self._value[0]
                if self._cb:
                    self._cb(self._value)
            elif self._ecb:
                self._ecb(self._value)

    def ready(self):
        self._pool._e.run_all()
        return self._left == 0 and self._ready_at <= self._pool._e.sim.ctx.world.now

    def successful(self):
        if not self.ready():
            raise ValueError("not ready")
        return self._ok

    def wait(self, timeout=None):
        e = self._pool._e
        while self._left and e.run_next():
            pass
        w = e.sim.ctx.world
        if self._left:  # a chunk was lost with its worker: multiprocessing never finishes this result
            if timeout is None:
                raise SimHang("waiting for the result of a task whose worker died")
            w.advance(timeout)
            return
        if timeout is not None and self._ready_at > w.now + timeout:
            w.advance(timeout)
            return
        e.advance_to(self._ready_at)

    def get(self, timeout=None):
        self.wait(timeout)
        if self._left or self._ready_at > self._pool._e.sim.ctx.world.now:
            raise mp.TimeoutError
        if self._ok:
            return self._value
        raise self._value


class SimPool:
    """multiprocessing.pool.Pool."""

    def __init__(self, processes=None, initializer=None, initargs=(), maxtasksperchild=None, context=None):
        self._closed = False
        self._e = Engine(processes, initializer, initargs, maxtasksperchild)
        self._processes = self._e.n

    def _check(self):
        if self._closed:
            raise ValueError("Pool not running")

    @staticmethod
    def _chunks(items, size):
        it = iter(items)
        while True:
            x = list(itertools.islice(it, size))
            if not x:
                return
            yield x

    def _map_async(self, func, calls, chunksize, callback, ecb):
        self._check()
        if chunksize is None:
            chunksize, extra = divmod(len(calls), self._e.n * 4)
            if extra:
                chunksize += 1
        if not calls:
            chunksize = 1
        chunks = list(self._chunks(calls, max(1, chunksize)))
        r = SimAsyncResult(self, len(chunks), callback, ecb)
        if not chunks:
            r._value = []
        for i, c in enumerate(chunks):
            self._e.submit(func, c, "map", lambda ch, i=i: r._done(i, ch))
        return r

    def map(self, func, iterable, chunksize=None):
        return self._map_async(func, [((x,), {}) for x in iterable], chunksize, None, None).get()

    def map_async(self, func, iterable, chunksize=None, callback=None, error_callback=None):
        return self._map_async(func, [((x,), {}) for x in iterable], chunksize, callback, error_callback)

    def starmap(self, func, iterable, chunksize=None):
        return self._map_async(func, [(tuple(x), {}) for x in iterable], chunksize, None, None).get()

    def starmap_async(self, func, iterable, chunksize=None, callback=None, error_callback=None):
        return self._map_async(func, [(tuple(x), {}) for x in iterable], chunksize, callback, error_callback)

    def apply_async(self, func, args=(), kwds={}, callback=None, error_callback=None):  # noqa: B006
        self._check()
        r = SimAsyncResult(self, 1, callback, error_callback, single=True)
        self._e.submit(func, [(tuple(args), dict(kwds))], "apply", lambda ch: r._done(0, ch))
        return r

    def apply(self, func, args=(), kwds={}):  # noqa: B006
        return self.apply_async(func, args, kwds).get()

    def _imap(self, func, iterable, chunksize, ordered):
        self._check()
        done = []
        calls = [((x,), {}) for x in iterable]
        chunks = list(self._chunks(calls, max(1, chunksize)))
        subs = [self._e.submit(func, c, "map", lambda ch, i=i: done.append((i, ch))) for i, c in enumerate(chunks)]
        del subs
        self._e.run_all()
        lost = any(ch["res"] == "lost" for _, ch in done)
        done = [(i, ch) for i, ch in done if ch["res"] != "lost"]
        done.sort(key=(lambda x: x[0]) if ordered else (lambda x: (x[1]["ready_at"], x[0])))
        expect = 0
        for i, ch in done:
            if ordered and i != expect:
                break
            expect += 1
            self._e.advance_to(ch["ready_at"])
            for ok, v in ch["res"]:
                if not ok:
                    raise v
                yield v
        if lost:
            raise SimHang("waiting for the result of a task whose worker died")

    def imap(self, func, iterable, chunksize=1):
        return self._imap(func, iterable, chunksize, True)

    def imap_unordered(self, func, iterable, chunksize=1):
        return self._imap(func, iterable, chunksize, False)

    def close(self):
        self._closed = True

    def terminate(self):
        self._closed = True
        self._e.kill()

    def join(self):
        if not self._closed:
            raise ValueError("Pool is still running")
        self._e.run_all()
        self._e.kill()

    def __enter__(self):
        self._check()
        return self

    def __exit__(self, *a):
        self.terminate()


class ExecEngine(Engine):
    def on_death(self, wk):  # ProcessPoolExecutor: the whole pool breaks
        self.broken = True
        for w in self.workers:
            if not w.dead:
                w.stop()
                if w in self.sim.all_workers:
                    self.sim.all_workers.remove(w)
                w.dead = True


class SimExecutor(concurrent.futures.Executor):
    """concurrent.futures.ProcessPoolExecutor."""

    def __init__(self, max_workers=None, mp_context=None, initializer=None, initargs=(), *, max_tasks_per_child=None):
        if max_workers is not None and max_workers <= 0:
            raise ValueError("max_workers must be greater than 0")
        self._e = ExecEngine(max_workers, initializer, initargs, max_tasks_per_child)
        self._shut = False

    def submit(self, fn, /, *args, **kw):
        return self._submit(fn, [(args, kw)], "exec", single=True)

    def _submit(self, fn, calls, mode, single):
        if self._e.broken:
            raise concurrent.futures.process.BrokenProcessPool("A child process terminated abruptly")
        if self._shut:
            raise RuntimeError("cannot schedule new futures after shutdown")
        e = self._e
        f = _LazyFuture(e)

        def done(ch):
            if ch["res"] == "lost":
                e.broken = True
                return
            f._ready_at = ch["ready_at"]
            for ok, v in ch["res"]:
                if not ok:
                    f.set_exception(v)
                    return
            f.set_result(ch["res"][0][1] if single else [v for _, v in ch["res"]])

        f._chunk = e.submit(fn, calls, mode, done)
        return f

    def map(self, fn, *iterables, timeout=None, chunksize=1):
        if chunksize < 1:
            raise ValueError("chunksize must be >= 1.")
        calls = list(zip(*iterables))
        chunks = [calls[i:i + chunksize] for i in range(0, len(calls), chunksize)]
        futs = [self._submit(fn, [(c, {}) for c in ch], "map", single=False) for ch in chunks]

        def gen():
            try:
                for f in futs:
                    yield from f.result()
            finally:
                for f in futs:
                    f.cancel()

        return gen()

    def shutdown(self, wait=True, *, cancel_futures=False):
        self._shut = True
        if cancel_futures:
            for ch in self._e.queue:
                ch["cancelled"] = True
            self._e.queue = []
        if not self._e.broken:
            self._e.run_all()
        self._e.kill()


class _LazyFuture(concurrent.futures.Future):
    def __init__(self, e):
        super().__init__()
        self._e = e
        self._ready_at = None
        self._chunk = None

    def _force(self):
        while not super().done() and not self._e.broken and self._e.run_next():
            pass
        if not super().done():
            if self._e.broken:
                self.set_exception(concurrent.futures.process.BrokenProcessPool(
                    "A process in the process pool was terminated abruptly while the future was running or pending."))
            else:
                raise SimHang("future never completes")
        if self._ready_at is not None:
            self._e.advance_to(self._ready_at)

    def cancel(self):
        if self._chunk in self._e.queue:
            self._e.queue.remove(self._chunk)
        return super().cancel()

    def done(self):
        if not super().done():
            self._force()
        return super().done()

    def result(self, timeout=None):
        if not super().cancelled():
            self._force()
        return super().result(0)

    def exception(self, timeout=None):
        if not super().cancelled():
            self._force()
        return super().exception(0)


def _as_completed(fs, timeout=None):
    fs = list(fs)
    for f in fs:
        f._force() if isinstance(f, _LazyFuture) else None
    return iter(sorted(fs, key=lambda f: (getattr(f, "_ready_at", 0) or 0)))


def _wait(fs, timeout=None, return_when="ALL_COMPLETED"):
    fs = set(fs)
    for f in fs:
        if isinstance(f, _LazyFuture):
            f._force()
    return concurrent.futures._base.DoneAndNotDoneFutures(fs, set())


def install(ctx, cfg):
    sim = PoolSim(ctx, cfg)
    STATE["sim"] = sim

    def pool(processes=None, initializer=None, initargs=(), maxtasksperchild=None):
        return SimPool(processes, initializer, initargs, maxtasksperchild)

    pairs = [(mp.Pool, pool), (mp.pool.Pool, SimPool), (concurrent.futures.ProcessPoolExecutor, SimExecutor),
             (concurrent.futures.as_completed, _as_completed), (concurrent.futures.wait, _wait)]
    mp.Pool = pool
    mp.pool.Pool = SimPool
    mp.context.BaseContext.Pool = lambda self, *a, **k: pool(*a, **k)
    concurrent.futures.ProcessPoolExecutor = SimExecutor
    concurrent.futures.process.ProcessPoolExecutor = SimExecutor
    concurrent.futures.as_completed = _as_completed
    concurrent.futures.wait = _wait
    rebind(pairs)
    return sim


_ = time
