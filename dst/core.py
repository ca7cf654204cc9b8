"""Run context: event log, violations, counters, random streams."""
from __future__ import annotations

import hashlib
import json
import random


class SimHang(BaseException):
    """The simulated program can make no further progress (nothing runnable, nothing pending)."""


class StepLimit(BaseException):
    """The simulated program used more steps than any correct execution of this plan needs."""


class Killed(BaseException):
    """The simulated process was killed here."""


def stream(*labels) -> random.Random:
    """An independent deterministic generator for these labels."""
    h = hashlib.sha256(json.dumps(labels, sort_keys=True, default=str).encode()).digest()
    r = random.Random.__new__(random.Random)
    random.Random.__init__(r, 0)
    r.seed(int.from_bytes(h, "big"))
    return r


class Ctx:
    def __init__(self, plan):
        self.plan = plan
        self.seed = plan.get("seed", 0)
        self._h = hashlib.sha256()
        self.n_events = 0
        self.log = []
        self.violations = []
        self.faults = {}
        self.probes = {}
        self.world = None
        self.scratch = None
        self.extra = {}

    def event(self, kind, *data):
        s = json.dumps([kind, *data], default=str)
        self._h.update(s.encode())
        self.n_events += 1
        if len(self.log) < 400:
            self.log.append(s)
        elif len(self.log) == 400:
            self.log.append("...")

    def fault(self, kind, n=1):
        self.faults[kind] = self.faults.get(kind, 0) + n

    def probe(self, name, n=1):
        self.probes[name] = self.probes.get(name, 0) + n

    def violate(self, sig, msg):
        """sig identifies what is broken (used to match known findings and to keep minimisation on one failure)."""
        self.event("VIOLATION", sig, msg)
        self.violations.append({"sig": sig, "msg": str(msg)[:2000]})

    def digest(self):
        return self._h.hexdigest()


def jdump(x):
    return json.dumps(x, sort_keys=True, separators=(",", ":"))
