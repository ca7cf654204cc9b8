"""C06: a run that reports success has saved its results completely."""
from __future__ import annotations

import copy
import os

from dst import fs as simfs
from dst import models, noise, noisyrun, pool, savecase

PROPERTY = "C06"
NATIVE = True
RUNS = {"quick": 500, "thorough": 30000}
TIME = {"quick": 90, "thorough": 2400}
RULE = ("one evaluation is one simulated process making up to four saving runs while the disk fills up, fails, tears or shortens writes at "
        "numbered steps and recovers; distinct means a different event log")
COMPONENTS = {"real": ["TNSim", "MISim with its native simulator", "stochastic_simulation", "save_info", "h5py's file format code on the simulated disk"],
              "stub": ["disk (real scratch files behind an interposed layer)", "executor/pool scheduling", "clocks", "entropy"]}
ASSUMPTIONS = ["data that a successful write call accepted is readable afterwards (no operating-system crash)"]
SHRINK = ["runs"]


def gen(rng, tier, i):
    runs = []
    for _ in range(rng.randint(1, 4)):
        r = savecase.gen_run(rng)
        if rng.random() < 0.03:  # outcomes beyond 65535
            r.update(backend="tnsim", full=False, shots=50, noise=[{"gates": ["h"], "mode": "local", "kind": "math", "p": 0.0, "q": 0.0}],
                     circuit={"dims": [260, 260], "gates": [{"g": "x", "q": q, "dag": True} for q in (0, 1)]})
        r["where"] = rng.choice(["dir", "dir", "dir", "dir", "missing", "file", "relative", "slash"])
        r["place"] = rng.choice(["absent", "absent", "old", "old", "directory", "symlink", "dangling"])
        r["faults"] = savecase.gen_faults(rng, savecase.KINDS) if rng.random() < 0.75 else []
        r["heal"] = rng.random() < 0.5
        r["memory"] = rng.random() < 0.8 or not r["full"]
        runs.append(r)
    return {"world": noisyrun.gen_world(rng), "pool": {"tie": rng.randrange(100)}, "runs": runs}


def shrink(plan):
    for i, r in enumerate(plan["runs"]):
        for k in range(len(r["faults"])):
            c = copy.deepcopy(plan)
            del c["runs"][i]["faults"][k]
            yield c
        for key, v in (("where", "dir"), ("place", "absent")):
            if r[key] != v:
                c = copy.deepcopy(plan)
                c["runs"][i][key] = v
                yield c


def execute(plan, ctx):
    from mqt.qudits.simulation import MQTQuditProvider

    pool.install(ctx, plan["pool"])
    fs = simfs.FS(ctx, ctx.scratch, {})
    fs.install()
    fs.active = False
    prov = MQTQuditProvider()
    backs = {n: prov.get_backend(n) for n in ("tnsim", "misim")}
    for j, r in enumerate(plan["runs"]):
        root = os.path.join(ctx.scratch, f"r{j}")
        os.mkdir(root)
        d = os.path.join(root, "out")
        given = d
        if r["where"] == "file":
            with open(d, "w") as f:
                f.write("no directory")
        elif r["where"] != "missing":
            os.mkdir(d)
        if r["where"] == "relative":
            os.chdir(root)
            given = "out"
        elif r["where"] == "slash":
            given = d + "/"
        path = os.path.join(d, r["name"])
        if os.path.isdir(d):
            if r["place"] == "old":
                with open(path, "wb") as f:
                    f.write(b"old" * 2000)
            elif r["place"] == "directory":
                os.mkdir(path)
            elif r["place"] == "symlink":
                with open(os.path.join(root, "elsewhere"), "wb") as f:
                    f.write(b"old")
                os.symlink(os.path.join(root, "elsewhere"), path)
            elif r["place"] == "dangling":
                os.symlink(os.path.join(root, "elsewhere"), path)
        fs.n, fs.faults, fs.ops = 0, list(r["faults"]), []
        fs.active = True
        before = dict(ctx.faults)
        err = None
        try:
            job = backs[r["backend"]].run(models.build(r["circuit"]), noise_model=noise.build(r["noise"]), shots=r["shots"],
                                          full_state_memory=r["full"], memory=r["memory"], file_path=given, file_name=r["name"])
        except Exception as e:  # noqa: BLE001
            err = e
        steps = fs.n
        if r["heal"] or err is None:
            fs.heal()
        fs.active = False
        hit = [k for k in ctx.faults if ctx.faults[k] > before.get(k, 0) and k in ("disk_full", "io_error", "torn_write", "permission_denied", "short_write")]
        ctx.event("run", j, steps, hit, None if err is None else type(err).__name__)
        broken = r["where"] in ("missing", "file") or r["place"] == "directory"
        if err is None:
            ctx.probe("success_with_fault" if hit else "success")
            if broken:
                ctx.violate("broken-place-accepted", f"run {j}: returned normally although the results cannot be stored there ({r['where']}, {r['place']})")
                return
            if not noisyrun.check_saved(ctx, path, job.result().get_counts(), r["full"]):
                return
            continue
        ctx.probe("error")
        if not hit and not broken and not fs.full and not fs.denied:
            ctx.violate("fault-free-save-fails", f"run {j}: no fault, but {type(err).__name__}: {err}")
            return
        fs.heal()
