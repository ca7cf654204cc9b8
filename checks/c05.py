"""C05: options of one run never leak into another run or another backend."""
from __future__ import annotations

import copy
import os
import shutil
import sys
import threading

import numpy as np

from dst import fs as simfs
from dst import models, noise, noisyrun, pool, threads

PROPERTY = "C05"
NATIVE = True
RUNS = {"quick": 500, "thorough": 20000}
TIME = {"quick": 90, "thorough": 2400}
RULE = ("one evaluation is one simulated history of constructing backends, setting options and running circuits, with failing and interrupted runs "
        "in between, compared with a reference model of the options; distinct means a different event log")
COMPONENTS = {"real": ["Backend option handling", "TNSim", "MISim with its native simulator", "FakeIonTraps2Trits", "Innsbruck01", "stochastic_simulation", "result saving"],
              "stub": ["executor/pool scheduling", "clocks", "entropy", "disk faults", "interrupts at chosen repository lines"]}
ASSUMPTIONS = ["noise models are told apart by the outcomes they make possible"]
SHRINK = ["ops"]
DEFAULTS = {"shots": 50, "memory": False, "noise_model": None, "full_state_memory": False, "file_path": None, "file_name": None}
CIRC = {"dims": [4], "gates": [{"g": "h", "q": 0}, {"g": "h", "q": 0, "dag": True}]}
MCIRC = {"dims": [4], "gates": [{"g": "z", "q": 0}]}


def _nz(be, k):
    if k is None:
        return None
    if be == "misim":
        return {"zero": [{"gates": ["z"], "mode": "local", "kind": "math", "p": 0.0, "q": 0.0}],
                "A": [{"gates": ["z"], "mode": "local", "kind": "math", "p": 1.0, "q": 0.0}],
                "B": [{"gates": ["z"], "mode": "local", "kind": "math", "p": 1.0, "q": 0.0}, {"gates": ["z"], "mode": "all", "kind": "math", "p": 1.0, "q": 1.0}]}[k]
    return {"zero": [{"gates": ["h"], "mode": "local", "kind": "sub", "p": 0.0, "q": 0.0, "levels": [[0, 1]]}],
            "A": [{"gates": ["h"], "mode": "local", "kind": "sub", "p": 0.0, "q": 1.0, "levels": [[0, 1]]}],
            "B": [{"gates": ["h"], "mode": "local", "kind": "sub", "p": 0.0, "q": 1.0, "levels": [[0, 2]]}]}[k]


def _fields(rng, n_max=4):
    out = {}
    for k in rng.sample(sorted(DEFAULTS), rng.randint(0, n_max)):
        out[k] = {"shots": lambda: rng.choice([50, 51, 60, 77, 20]), "memory": lambda: rng.random() < 0.6,
                  "full_state_memory": lambda: rng.random() < 0.6,
                  "noise_model": lambda: rng.choice([None, "zero", "A", "A", "B", "B"]), "file_path": lambda: rng.choice([None, "d1", "d2", "missing"]),
                  "file_name": lambda: rng.choice([None, "a.h5", "b.h5"])}[k]()
    return out


def _saving(rng, f):
    f.update(memory=rng.random() < 0.8, file_path=rng.choice(["d1", "d1", "d2"]), file_name=rng.choice(["a.h5", "b.h5"]))
    f.setdefault("noise_model", rng.choice(["zero", "A", "B"]))
    return f


def gen(rng, tier, i):
    ops = []
    kinds = [rng.choice(["tnsim", "tnsim", "misim", "misim", "faketraps2trits", "innsbruck01"]) for _ in range(rng.randint(1, 3))]
    for b, k in enumerate(kinds):
        f = _fields(rng) if rng.random() < 0.6 else {}
        if rng.random() < 0.5:
            f.setdefault("noise_model", rng.choice(["A", "B"]))
        ops.append({"op": "new", "b": b, "kind": k, "fields": f})
    for _ in range(rng.randint(3, 12)):
        b = rng.randrange(len(kinds))
        x = rng.random()
        if x < 0.2:
            ops.append({"op": "set", "b": b, "fields": _fields(rng, 3)})
        elif x < 0.3:
            f = _fields(rng, 2)
            bad = rng.choice(["shot", "noise", "Shots", "state", "name", "options", "_options", "run", ""])
            ops.append({"op": "setbad", "b": b, "fields": f, "bad": bad, "first": rng.random() < 0.5})
        elif x < 0.4:
            two = rng.sample(range(len(kinds)), 2) if len(kinds) > 1 and rng.random() < 0.5 else [b, b]
            ops.append({"op": "pair", "runs": [{"b": k, "fields": _saving(rng, _fields(rng, rng.choice([0, 2, 6])))} for k in two]})
        else:
            o = {"op": "run", "b": b, "fields": _fields(rng, rng.choice([0, 2, 6]))}
            z = rng.random()
            if z < 0.55:
                _saving(rng, o["fields"])
                if z > 0.35:  # no place to save to, or no name
                    del o["fields"][rng.choice(["file_path", "file_path", "file_name", "memory"])]
            y = rng.random()
            if y < 0.12:
                o["fault"] = {"kind": "worker"}
            elif y < 0.24:
                o["fault"] = {"kind": "interrupt", "line": rng.choice([rng.randint(1, 30), rng.randint(1, 200)])}
            elif y < 0.3:
                o["fault"] = {"kind": "disk"}
            ops.append(o)
    return {"world": noisyrun.gen_world(rng), "pool": {"tie": rng.randrange(100)}, "ops": ops,
            "threads": {"seed": rng.randrange(1 << 30), "prob": rng.choice([0.01, 0.05, 0.2])}}


def shrink(plan):
    for i, o in enumerate(plan["ops"]):
        for k in o.get("fields", {}):
            c = copy.deepcopy(plan)
            del c["ops"][i]["fields"][k]
            yield c


def execute(plan, ctx):
    from mqt.qudits.simulation import MQTQuditProvider

    sim = pool.install(ctx, plan["pool"])
    sched = threads.Scheduler(ctx, {"line_cost": 0.0, **plan["threads"], "trace": False})
    if any(o["op"] == "pair" for o in plan["ops"]):
        sched.adopt_main()
        sched.install()
        sched.trace_on = True
    fs = simfs.FS(ctx, ctx.scratch, {}).install()
    prov = MQTQuditProvider()
    backs, kinds, mods = {}, {}, {}

    def val(b, k, v):
        if k == "noise_model" and v is not None:
            return noise.build(_nz(kinds[b], v))
        if k == "file_path" and v is not None:
            return os.path.join(ctx.scratch, v)
        return v

    def call(b, f, tag=""):
        return {k: val(b, k, tag + v if k == "file_path" and v else v) for k, v in f.items()}

    def unchanged(n, o):
        for bb in backs:
            got = backs[bb].options
            for k, v in mods[bb].items():
                if k in ("noise_model", "file_path"):
                    if (got.get(k) is None) != (v is None):
                        ctx.violate("options-differ", f"after operation {n} ({o['op']}) option {k} of backend {bb} is {got.get(k)!r}; set was {v!r}")
                        return False
                elif got.get(k, DEFAULTS[k]) != v:
                    ctx.violate("options-differ", f"after operation {n} ({o['op']}) option {k} of backend {bb} is {got.get(k)!r}; set was {v!r}")
                    return False
        return True

    for n, o in enumerate(plan["ops"]):
        b = o.get("b")
        ctx.probe(o["op"])
        if o["op"] == "pair":  # two runs, of one backend or of two, in two threads
            rs = [Run(ctx, backs[r["b"]], kinds[r["b"]], mods[r["b"]], r, call(r["b"], r["fields"], f"p{k}"), n, f"p{k}")
                  for k, r in enumerate(o["runs"]) if r["b"] in backs]
            ths = []
            for k, r in enumerate(rs):
                t = threading.Thread(target=r.go, name=f"run{k}")
                t._harness = True
                ths.append(t)
            sim.cfg["faults"], fs.faults = [], []
            for t in ths:
                t.start()
            for t in ths:
                t.join()
            if not all(r.judge(False) for r in rs) or not unchanged(n, o):
                return
            continue
        if o["op"] == "new":
            kinds[b] = o["kind"]
            backs[b] = prov.get_backend(o["kind"], **call(b, o["fields"]))
            mods[b] = {**DEFAULTS, **({"noise_model": "builtin"} if o["kind"] == "faketraps2trits" else {}), **o["fields"]}
            continue
        if b not in backs:
            continue
        be = backs[b]
        if o["op"] == "set":
            be.set_options(**call(b, o["fields"]))
            mods[b].update(o["fields"])
        elif o["op"] == "setbad":
            f = call(b, o["fields"])
            f = {o["bad"]: 1, **f} if o["first"] else {**f, o["bad"]: 1}
            try:
                be.set_options(**f)
            except Exception:  # noqa: BLE001
                pass
            else:
                ctx.violate("bad-option-accepted", f"set_options accepted the unrecognised option {o['bad']!r}")
                return
        else:
            if not _run(plan, ctx, sim, fs, sched, be, kinds[b], mods[b], o, call(b, o["fields"]), n):
                return
        if not unchanged(n, o):
            return


def _run(plan, ctx, sim, fs, sched, be, kind, mod, o, opts, n):
    r = Run(ctx, be, kind, mod, o, opts, n)
    fault = o.get("fault")
    sim.cfg["faults"] = []
    if fault and fault["kind"] == "worker":
        sim.cfg["faults"] = [{"at": sim.item + 3, "kind": "exc", "etype": "RuntimeError", "line": 2}]
    fs.faults = []
    if fault and fault["kind"] == "disk":
        fs.faults = [{"at": fs.n, "kind": "enospc"}]
    if fault and fault["kind"] == "interrupt":
        hit = []
        sys.settrace(pool.raise_at_line(fault["line"], KeyboardInterrupt, hit))
    before = dict(ctx.faults)
    r.go()
    sys.settrace(None)
    if fault and fault["kind"] == "interrupt" and hit:
        ctx.fault("interrupt")
    fs.heal()
    return r.judge(any(ctx.faults[k] > before.get(k, 0) for k in ctx.faults if not k.startswith(("clock", "slow", "worker_stall", "worker_clock"))))


class Run:
    """One run of a backend and what must be true of it."""

    def __init__(self, ctx, be, kind, mod, o, opts, n, tag=""):
        self.ctx, self.be, self.kind, self.o, self.opts, self.n, self.tag = ctx, be, kind, o, opts, n, tag
        self.eff = {**mod, **o["fields"]}
        self.circ = MCIRC if kind == "misim" else CIRC
        if kind == "faketraps2trits" and self.eff["noise_model"] == "builtin":
            self.circ = {"dims": [3, 2], "gates": [{"g": "h", "q": 0}, {"g": "csum", "q": [0, 1]}]}
        for d in ("d1", "d2"):
            if tag:
                d = tag + d
            shutil.rmtree(os.path.join(ctx.scratch, d), ignore_errors=True)
            os.mkdir(os.path.join(ctx.scratch, d))
        self.c = models.build(self.circ)
        self.job = self.err = None

    def go(self):
        try:
            self.job = self.be.run(self.c, **self.opts)
        except (Exception, KeyboardInterrupt) as e:  # noqa: BLE001
            self.err = e

    def judge(self, hitf):
        ctx, kind, eff, n, o, circ, err, job = self.ctx, self.kind, self.eff, self.n, self.o, self.circ, self.err, self.job
        tag = self.tag
        noisy = eff["noise_model"] is not None
        bad = kind != "innsbruck01" and noisy and eff["shots"] < 50
        saves = noisy and kind != "innsbruck01" and (eff["memory"] or eff["full_state_memory"]) and eff["file_path"] and eff["file_name"]
        if saves and eff["file_path"] == "missing":
            bad = True
        if kind == "innsbruck01":
            bad = eff["shots"] < 50
        ctx.event("run", n, sorted(o["fields"]), None if err is None else type(err).__name__, hitf)
        if err is not None:
            if not hitf and not bad:
                ctx.violate("run-fails", f"operation {n}: a run with the options {eff} raised {type(err).__name__}: {err}")
                return False
            ctx.probe("failed_run")
            return True
        if bad and kind != "innsbruck01" and eff["shots"] >= 50:
            ctx.violate("save-not-tried", f"operation {n}: results were to be saved in a missing directory, yet the run returned")
            return False
        if bad:
            ctx.violate("shots-not-used", f"operation {n}: a noisy run of {eff['shots']} shots is refused by this backend, yet the run returned")
            return False
        if kind == "innsbruck01":
            return True
        res = job.result().get_counts()
        if not noisyrun.check_state_vector(ctx, job.result().get_state_vector(), circ):
            return False
        files = {os.path.join(d, x) for d in (tag + "d1", tag + "d2") for x in os.listdir(os.path.join(ctx.scratch, d))}
        want = {os.path.join(tag + eff["file_path"], eff["file_name"])} if saves else set()
        if files != want:
            ctx.violate("file-option", f"operation {n}: with the options {eff} the run wrote {sorted(files)} instead of {sorted(want)}")
            return False
        if not noisy:
            if len(res):
                ctx.violate("noise-option", f"operation {n}: a run without noise model returned {len(res)} shots")
                return False
            return True
        if len(res) != eff["shots"]:
            ctx.violate("shots-option", f"operation {n}: {len(res)} results where the options say {eff['shots']}")
            return False
        states = not np.isscalar(res[0])
        if states != bool(eff["full_state_memory"]):
            ctx.violate("full-state-option", f"operation {n}: full_state_memory is {eff['full_state_memory']}, results are {type(res[0]).__name__}")
            return False
        if eff["noise_model"] != "builtin":
            if not noisyrun.check_results(ctx, res, circ, _nz(kind, eff["noise_model"]), kind if kind == "misim" else "tnsim", eff["shots"], eff["full_state_memory"]):
                return False
        if want and not noisyrun.check_saved(ctx, os.path.join(ctx.scratch, next(iter(want))), res, eff["full_state_memory"]):
            return False
        return True
