"""C04: a failing shot surfaces as an error, never as a partial result."""
from __future__ import annotations

import copy
import math
import os

import numpy as np

from dst import models, noise, noisyrun, pool

PROPERTY = "C04"
NATIVE = True
RUNS = {"quick": 1200, "thorough": 20000}
TIME = {"quick": 90, "thorough": 2400}
RULE = ("one evaluation is one simulated process with noisy runs in which worker code raises at a chosen repository line of a chosen shot, a worker "
        "process is killed, or forking fails, followed by runs without faults; distinct means a different event log")
COMPONENTS = {"real": ["TNSim", "MISim with its native simulator", "stochastic_simulation", "NoisyCircuitFactory", "result saving",
                       "worker processes (really forked and really killed)"],
              "stub": ["executor/pool scheduling (its documented failure behaviour re-implemented)", "clocks", "process ids", "entropy"]}
ASSUMPTIONS = ["a dead worker breaks a ProcessPoolExecutor and makes a multiprocessing.Pool wait for ever, as CPython does"]
SHRINK = ["runs", "pool.faults", "world.jumps"]


def bound(cfg, shots):
    """More virtual time than running every shot of the run once, on one worker, takes."""
    slow = max([1.0, *cfg.get("slow", {}).values()])
    stall = sum(cfg.get("stall", {}).values())
    return slow * (stall + shots * cfg["cost"][1]) + shots * cfg["delay"][1] + 2 * sum(abs(x) for x in cfg.get("skew", {}).values()) + 60


def gen(rng, tier, i):
    runs = []
    total = 0
    n_runs = rng.choice([1, 2, 2, 3])
    same = rng.random() < 0.7
    be = rng.choice(["tnsim", "misim"])
    faults = []
    forks = 0
    for j in range(n_runs):
        if not same:
            be = rng.choice(["tnsim", "misim"])
        c, nz = noisyrun.gen_case(rng, be, rng.randint(1, 4), total=12)
        shots = rng.choice([50, 50, 57, 80])
        if j < n_runs - 1 or rng.random() < 0.3 or n_runs == 1:
            k = rng.random()
            if k < 0.15:
                faults.append({"at": "fork", "kind": "fork_fail", "n": rng.randint(0, 3), "pool": j + 1})
                forks += 1
            else:
                for _ in range(rng.choice([1, 1, 1, 2, 4])):
                    it = total + rng.choice([0, shots - 1, rng.randrange(shots), rng.randrange(shots)])
                    if rng.random() < 0.25:
                        faults.append({"at": it, "kind": "kill"})
                    else:
                        faults.append({"at": it, "kind": "exc", "etype": rng.choice(sorted(pool.ETYPES)),
                                       "line": rng.choice([rng.randint(1, 3), rng.randint(1, 40), int(math.exp(rng.uniform(0, 7.3))), int(math.exp(rng.uniform(3, 7)))])})
        # a failed fork submits no items; item numbers then continue from the items really submitted
        runs.append({"backend": be, "circuit": c, "noise": nz, "shots": shots, "full": rng.random() < 0.3, "save": rng.random() < 0.6})
        total += shots
    return {"world": noisyrun.gen_world(rng), "pool": {**noisyrun.gen_pool(rng, total), "faults": faults}, "runs": runs,
            "old_file": rng.random() < 0.5}


def shrink(plan):
    for i, r in enumerate(plan["runs"]):
        for k in range(len(r["circuit"]["gates"])):
            c = copy.deepcopy(plan)
            del c["runs"][i]["circuit"]["gates"][k]
            yield c
    for k in ("slow", "stall", "skew"):
        if k in plan["pool"]:
            c = copy.deepcopy(plan)
            del c["pool"][k]
            yield c


def execute(plan, ctx):
    from mqt.qudits.simulation import MQTQuditProvider

    sim = pool.install(ctx, plan["pool"])
    prov = MQTQuditProvider()
    backs = {n: prov.get_backend(n) for n in ("tnsim", "misim")}
    ctx.world.time_limit = 40 * 3600.0
    for j, r in enumerate(plan["runs"]):
        nm = noise.build(r["noise"])
        c = models.build(r["circuit"])
        name = f"res{j}.h5"
        path = os.path.join(ctx.scratch, name)
        before = None
        if r["save"] and plan["old_file"]:
            with open(path, "wb") as f:
                f.write(b"earlier results")
            before = b"earlier results"
        opts = {"noise_model": nm, "shots": r["shots"], "full_state_memory": r["full"], "memory": True,
                "file_path": ctx.scratch if r["save"] else None, "file_name": name if r["save"] else None}
        base = dict(ctx.faults)
        t0 = ctx.world.now
        try:
            job = backs[r["backend"]].run(c, **opts)
            err = None
        except Exception as e:  # noqa: BLE001
            err = e
        except KeyboardInterrupt as e:
            err = e
        kinds = [k for k in ctx.faults if k.startswith(("worker_exception", "worker_kill", "fork_fail")) and ctx.faults[k] > base.get(k, 0)]
        died = ctx.probes.get("worker_died_itself", 0)
        if died > plan.get("_died", 0):
            kinds.append("worker_died")
            plan["_died"] = died
        spent = ctx.world.now - t0
        ctx.event("run", j, kinds, None if err is None else type(err).__name__)
        if kinds:
            for k in kinds:
                ctx.probe(f"{r['backend']}:{k.split(':')[0]}")
            if err is None:
                res = job.result().get_counts()
                ctx.violate("error-swallowed", f"run {j}: {', '.join(kinds)} in a worker, but the run returned {len(res)} results")
                return
            if spent > bound(plan["pool"], r["shots"]):
                ctx.violate("late-error", f"the error took {spent} s")
                return
            now = open(path, "rb").read() if os.path.exists(path) else None
            if now != before:
                ctx.violate("file-after-error", f"run {j} failed ({', '.join(kinds)}) but wrote a results file")
                return
            continue
        if err is not None:
            ctx.violate("fault-free-run-fails", f"run {j} had no fault but raised {type(err).__name__}: {err}")
            return
        res = job.result().get_counts()
        noisyrun.check_state_vector(ctx, job.result().get_state_vector(), r["circuit"])
        if not noisyrun.check_results(ctx, res, r["circuit"], r["noise"], r["backend"], r["shots"], r["full"]):
            return
        if r["save"] and not noisyrun.check_saved(ctx, path, res, r["full"]):
            return
        left = [n for n in os.listdir(ctx.scratch) if n not in [f"res{k}.h5" for k in range(len(plan["runs"]))]]
        if left:
            ctx.probe("leftover_files")
        ctx.event("ok", j, np.round(np.ravel(res[0]), 6).tolist()[:4] if r["full"] else [int(x) for x in res])
    del sim
