"""Clocks, entropy, process ids and CPU counts of the simulated machine."""
from __future__ import annotations

import builtins
import datetime as _dt
import hashlib
import os
import random
import sys
import time

import numpy as np

REAL = {
    "time": time.time, "monotonic": time.monotonic, "sleep": time.sleep, "urandom": os.urandom,
    "getpid": os.getpid, "fork": os.fork, "exit": os._exit, "read": os.read, "write": os.write,
    "close": os.close, "pipe": os.pipe, "waitpid": os.waitpid, "open": builtins.open, "perf": time.perf_counter,
    "replace": os.replace, "unlink": os.unlink, "osopen": os.open,
}


def rebind(pairs):
    """Rebind names that repository modules imported directly (from x import y)."""
    table = {id(o): (o, n) for o, n in pairs}
    for name, mod in list(sys.modules.items()):
        if mod is None or not (name == "mqt" or name.startswith("mqt.")):
            continue
        d = getattr(mod, "__dict__", None)
        if not d:
            continue
        for k, v in list(d.items()):
            hit = table.get(id(v))
            if hit is not None and hit[0] is v:
                d[k] = hit[1]


class World:
    """plan["world"]: base (wall epoch), gran (tick of the wall clock, s), jumps [[t, delta]], cost (s per clock call),
    pid, ncpu."""

    def __init__(self, ctx, cfg=None):
        cfg = dict(cfg or {})
        self.ctx = ctx
        self.base = float(cfg.get("base", 1_700_000_000.25))
        self.gran = float(cfg.get("gran", 0.0))
        self.jumps = sorted(cfg.get("jumps", []))
        self.cost = float(cfg.get("cost", 1e-6))
        self.ncpu = int(cfg.get("ncpu", 2))
        self.pid = int(cfg.get("pid", 4000))
        self.next_pid = self.pid + 1
        self.reuse_pids = bool(cfg.get("reuse_pids", False))
        self.first_pid = self.next_pid
        self.now = 0.0  # true virtual time of this process
        self.max_now = 0.0
        self.slept = 0
        self.sleep_limit = None
        self.sleep_hook = None  # threads simulator takes over sleeping
        self.time_limit = None
        self.on_clock = None
        self.proc = "main"
        self._ent_n = 0
        self._jumped = set()

    # ---- clocks
    def advance(self, dt):
        if dt > 0:
            self.now += dt
        if self.now > self.max_now:
            self.max_now = self.now
        if self.time_limit is not None and self.now > self.time_limit:
            from .core import StepLimit

            lim, self.time_limit = self.time_limit, None
            raise StepLimit(f"virtual time passed {lim}")

    def wall(self):
        self.advance(self.cost)
        w = self.base + self.now
        for i, (t, d) in enumerate(self.jumps):
            if self.now >= t:
                w += d
                if i not in self._jumped:
                    self._jumped.add(i)
                    self.ctx.fault("clock_jump_back" if d < 0 else "clock_jump_forward")
        if self.gran > 0:
            w = int(w / self.gran) * self.gran
        if self.on_clock:
            self.on_clock("wall")
        return w

    def mono(self):
        self.advance(self.cost)
        if self.on_clock:
            self.on_clock("mono")
        return 1000.0 + self.now

    def sleep(self, s):
        if s < 0:
            raise ValueError("sleep length must be non-negative")
        self.slept += 1
        if self.sleep_limit is not None and self.slept > self.sleep_limit:
            from .core import StepLimit

            self.sleep_limit = None
            raise StepLimit("too many sleeps")
        if self.sleep_hook is not None:
            self.sleep_hook(s)
        else:
            self.advance(s)

    # ---- entropy
    def urandom(self, n):
        self._ent_n += 1
        out = b""
        i = 0
        key = f"{self.ctx.seed}|{self.proc}|{self._ent_n}".encode()
        while len(out) < n:
            out += hashlib.sha256(key + b"|%d" % i).digest()
            i += 1
        return out[:n]

    def extreme_draws(self, prob):
        """Unlucky entropy: some draws of generators made by numpy.random.default_rng come out next to 0 or next to 1.

        The real generator is put into a state whose next raw output begins with 24 equal bits (in both halves); everything after that is its
        real stream.  Such draws happen with probability 1e-7 in reality, so no run waits for them."""
        w = self
        real = np.random.default_rng
        mult = 0x2360ED051FC65DA44385DF649FCCF645
        inv = pow(mult, -1, 1 << 128)
        picks = random.Random(int.from_bytes(self.urandom(8), "big"))

        def bend(gen):
            if picks.random() >= prob:
                return
            bg = gen.bit_generator
            st = bg.state
            if st["bit_generator"] != "PCG64":
                return
            out = picks.getrandbits(8) << 32 | picks.getrandbits(8)  # both halves: integers() uses one of them
            if picks.random() < 0.5:
                out |= 0xFFFFFF00FFFFFF00
            hi = picks.getrandbits(58)  # top 6 bits zero: the output is not rotated
            st["state"]["state"] = (((hi << 64 | (hi ^ out)) - st["state"]["inc"]) * inv) % (1 << 128)
            st["has_uint32"], st["uinteger"] = 0, 0
            bg.state = st
            w.ctx.fault("extreme_draw")

        class SimGenerator(np.random.Generator):
            def choice(self, *a, **k):
                bend(self)
                return super().choice(*a, **k)

            def random(self, *a, **k):
                bend(self)
                return super().random(*a, **k)

            def integers(self, *a, **k):
                bend(self)
                return super().integers(*a, **k)

            def uniform(self, *a, **k):
                bend(self)
                return super().uniform(*a, **k)

            def binomial(self, *a, **k):
                bend(self)
                return super().binomial(*a, **k)

        def default_rng(seed=None):
            if isinstance(seed, np.random.Generator):
                return seed
            g = real(seed)
            return SimGenerator(g.bit_generator) if type(g) is np.random.Generator else g

        np.random.default_rng = default_rng
        rebind([(real, default_rng)])

    def new_pid(self):
        if self.reuse_pids and self.next_pid - self.first_pid >= 64:
            self.next_pid = self.first_pid
        p = self.next_pid
        self.next_pid += 1
        return p

    # ---- installation (the process ends with the run: nothing is undone)
    def install(self):
        self.ctx.world = self
        w = self
        new = {
            "time": w.wall, "time_ns": lambda: int(w.wall() * 1e9),
            "monotonic": w.mono, "monotonic_ns": lambda: int(w.mono() * 1e9),
            "perf_counter": w.mono, "perf_counter_ns": lambda: int(w.mono() * 1e9),
            "process_time": w.mono, "process_time_ns": lambda: int(w.mono() * 1e9),
            "sleep": w.sleep,
        }
        pairs = []
        for k, f in new.items():
            pairs.append((getattr(time, k), f))
            setattr(time, k, f)

        real_dt = _dt.datetime

        class SimDateTime(real_dt):
            @classmethod
            def now(cls, tz=None):
                return real_dt.fromtimestamp(w.wall(), tz)

            @classmethod
            def utcnow(cls):
                return real_dt.fromtimestamp(w.wall(), _dt.timezone.utc).replace(tzinfo=None)

            @classmethod
            def today(cls):
                return cls.now()

        pairs.append((real_dt, SimDateTime))
        _dt.datetime = SimDateTime

        def getpid():
            return w.pid

        def getppid():
            return 1 if w.proc == "main" else w.ppid

        def ur(n):
            return w.urandom(n)

        ncpu = lambda: w.ncpu  # noqa: E731
        for k, f in (("getpid", getpid), ("getppid", getppid), ("urandom", ur), ("cpu_count", ncpu)):
            pairs.append((getattr(os, k), f))
            setattr(os, k, f)
        if hasattr(os, "getrandom"):
            pairs.append((os.getrandom, lambda n, flags=0: w.urandom(n)))
            os.getrandom = pairs[-1][1]
        if hasattr(os, "sched_getaffinity"):
            os.sched_getaffinity = lambda pid=0: set(range(w.ncpu))
        if hasattr(os, "process_cpu_count"):
            os.process_cpu_count = ncpu
        random._urandom = ur
        import multiprocessing as mp

        pairs.append((mp.cpu_count, ncpu))
        mp.cpu_count = ncpu
        mp.context.BaseContext.cpu_count = lambda self: w.ncpu
        real_seed = random.Random.seed

        def seed(self, a=None, version=2):
            if a is None:
                a = int.from_bytes(w.urandom(32), "big")
            return real_seed(self, a, version)

        random.Random.seed = seed
        old = random.seed
        random.seed = random._inst.seed
        pairs.append((old, random.seed))
        import uuid

        uuid._generate_time_safe = None
        uuid._UuidCreate = None
        uuid._last_timestamp = None
        uuid._node = 0x0242AC110002
        rebind(pairs)
        import tempfile

        tempfile._name_sequence = None
        self.reseed_globals()
        return self

    def reseed_globals(self):
        """What a new process does: the random module and numpy's global generator are seeded from the system."""
        random.seed()
        np.random.seed(int.from_bytes(self.urandom(4), "big"))

    def fork_child(self, proc, pid, ppid, now):
        """Called in a forked worker: numpy's global state is inherited (as in reality), `random` reseeds itself."""
        self.proc, self.pid, self.ppid, self._ent_n = proc, pid, ppid, 0
        self.now = now
        self.max_now = now
        random.seed()
