"""C01: noisy runs return exactly the requested shots, all valid, and save the same."""
from __future__ import annotations

import copy
import os

import numpy as np

from dst import models, noise, noisyrun, pool

PROPERTY = "C01"
NATIVE = True
RUNS = {"quick": 300, "thorough": 12000}
TIME = {"quick": 75, "thorough": 2400}
RULE = ("one evaluation is one simulated process that makes up to three noisy runs with the shots spread over simulated workers; "
        "distinct means a different event log (schedule, clock readings, results)")
COMPONENTS = {"real": ["TNSim", "MISim with its native simulator", "stochastic_simulation", "NoisyCircuitFactory", "result saving with h5py",
                       "worker processes (really forked, real pickling)"],
              "stub": ["executor/pool scheduling", "clocks", "process ids", "entropy", "CPU count"]}
ASSUMPTIONS = ["noise entries are ones every gate they name can carry"]
SHRINK = ["runs", "world.jumps"]


def gen(rng, tier, i):
    runs = []
    w = noisyrun.gen_world(rng)
    for _ in range(rng.choice([1, 1, 2, 3])):
        be = rng.choice(["tnsim", "misim"])
        c, nz = noisyrun.gen_case(rng, be, rng.randint(1, 6), overlap=True)
        full = rng.random() < 0.35
        wide = rng.random() < 0.1
        if wide:
            c, nz = noisyrun.gen_wide(rng, be)
            full = False
        runs.append({"backend": be, "circuit": c, "noise": nz, "shots": rng.choice([50, 50, 51, 53, 64, 97, 100, rng.randint(50, 130)]),
                     "full": full, "wide": wide, "memory": rng.random() < 0.7, "save": rng.random() < 0.6, "how": rng.choice(["run", "construct", "set"])})
    return {"world": w, "pool": noisyrun.gen_pool(rng, 60), "runs": runs, "extreme": rng.choice([0, 0.02, 0.2])}


def shrink(plan):
    for i, r in enumerate(plan["runs"]):
        for k in range(len(r["circuit"]["gates"])):
            if len(r["circuit"]["gates"]) > 1:
                c = copy.deepcopy(plan)
                del c["runs"][i]["circuit"]["gates"][k]
                yield c
        for k in range(len(r["noise"])):
            c = copy.deepcopy(plan)
            del c["runs"][i]["noise"][k]
            yield c
        if r["shots"] > 50:
            c = copy.deepcopy(plan)
            c["runs"][i]["shots"] = 50
            yield c
    for k in ("slow", "stall", "skew"):
        if k in plan["pool"]:
            c = copy.deepcopy(plan)
            del c["pool"][k]
            yield c


def execute(plan, ctx):
    from mqt.qudits.simulation import MQTQuditProvider

    pool.install(ctx, plan["pool"])
    if plan["extreme"]:
        ctx.world.extreme_draws(plan["extreme"])
    prov = MQTQuditProvider()
    backs = {n: prov.get_backend(n) for n in ("tnsim", "misim")}
    for j, r in enumerate(plan["runs"]):
        nm = noise.build(r["noise"])
        c = models.build(r["circuit"])
        opts = {"noise_model": nm, "shots": r["shots"], "full_state_memory": r["full"], "memory": r["memory"]}
        path = os.path.join(ctx.scratch, f"res{j}.h5")
        if r["save"]:
            opts.update(file_path=ctx.scratch, file_name=f"res{j}.h5")
        else:
            opts.update(file_path=None, file_name=None)
        b = backs[r["backend"]]
        if r["how"] == "run":
            job = b.run(c, **opts)
        elif r["how"] == "set":
            b.set_options(**opts)
            job = b.run(c)
        else:
            b = type(b)(prov, **opts)
            job = b.run(c)
        res = job.result().get_counts()
        ctx.probe(r["backend"] + ("_states" if r["full"] else "_outcomes") + ("_wide" if r["wide"] else ""))
        noisyrun.check_state_vector(ctx, job.result().get_state_vector(), r["circuit"])
        ok = noisyrun.check_wide(ctx, res, r["circuit"], r["noise"], r["backend"], r["shots"]) if r["wide"] else noisyrun.check_results(ctx, res, r["circuit"], r["noise"], r["backend"], r["shots"], r["full"])
        if not ok:
            return
        if r["save"] and (r["full"] or r["memory"]):
            ctx.probe("saved")
            if not noisyrun.check_saved(ctx, path, res, r["full"]):
                return
        elif not r["save"] and os.listdir(ctx.scratch) and any(n.startswith(f"res{j}") for n in os.listdir(ctx.scratch)):
            ctx.violate("unasked-file", "a run that was not asked to save wrote a file")
        if r["full"]:
            ctx.event("run", j, [np.floor((np.ravel(x).view(float) + 1.7e-5) * 1e4).astype(int).tolist()[:8] for x in res[:5]])
        else:
            ctx.event("run", j, [int(x) for x in res])
