"""C19: native simulation survives memory exhaustion cleanly."""
from __future__ import annotations

import copy

import numpy as np

from dst import models, native, noise, noisyrun, pool

PROPERTY = "C19"
NATIVE = True
RUNS = {"quick": 1500, "thorough": 60000}
TIME = {"quick": 90, "thorough": 2400}
RULE = ("one evaluation is one simulated history of noise-free and noisy runs of the native simulator in which chosen memory allocations fail, once or from a point on, in the "
        "calling process or in worker processes, each followed by further runs; distinct means a different event log")
COMPONENTS = {"real": ["the native decision-diagram simulator and its binding, compiled from the repository with a failing allocator", "MISim", "stochastic_simulation"],
              "stub": ["operator new (fails on demand, poisons fresh and freed memory)", "the interpreter's object allocators inside the native call (fail on demand)", "executor/pool scheduling", "entropy", "clocks"]}
ASSUMPTIONS = ["C++ allocations of the extension and allocations by the interpreter inside the native call fail; those inside the shared C++ library and of the pure Python parts do not"]
SHRINK = ["ops"]


def gen(rng, tier, i):
    circs = []
    for _ in range(rng.randint(1, 2)):
        while True:
            dims = models.gen_dims(rng, 4, rng.choice([2, 3, 5, 7]), 64)
            c = models.gen_circuit(rng, dims, rng.randint(1, 6), models.MI_GATES, dag=0.3, sorted_levels=True)
            nz = noise.gen_noise(rng, c, "misim")
            if nz:
                break
        circs.append({"c": c, "noise": nz})
    ops = []
    for _ in range(rng.randint(4, 16)):
        k = rng.choice(["run"] * 8 + ["noisy", "new", "tn"])
        o = {"k": k, "c": rng.randrange(len(circs)), "b": rng.randrange(2)}
        if k in ("run", "noisy") and rng.random() < 0.75:
            x = rng.random()
            o["at"] = rng.random() if x < 0.8 else rng.choice([0.0, 0.01, 0.99]) if x < 0.95 else 1.5
            o["sticky"] = rng.random() < 0.4
            if k == "noisy":
                o["at"] = rng.choice([rng.random(), 1.0 + rng.random(), 1.0 + 10 * rng.random()])
            if rng.random() < 0.4:
                # an allocation by the interpreter inside one native call fails instead
                o["py"] = rng.choice([rng.random(), rng.random(), 0.8 + 0.4 * rng.random()])
                o["skip"] = 0 if k == "run" else rng.choice([0, 1, rng.randrange(50)])
                del o["at"]
        if k == "noisy":
            o["full"] = rng.random() < 0.3
        ops.append(o)
    return {"world": {"ncpu": rng.choice([1, 2, 4]), "cost": 0.0}, "pool": {"tie": rng.randrange(100)}, "circuits": circs, "ops": ops}


def shrink(plan):
    for i, x in enumerate(plan["circuits"]):
        for k in range(len(x["c"]["gates"])):
            c = copy.deepcopy(plan)
            del c["circuits"][i]["c"]["gates"][k]
            yield c
    for i, o in enumerate(plan["ops"]):
        for k in ("at", "py"):
            if k in o:
                c = copy.deepcopy(plan)
                del c["ops"][i][k]
                yield c


def execute(plan, ctx):
    from mqt.qudits.simulation import MQTQuditProvider

    pool.install(ctx, plan["pool"])
    lib = native.LIB
    prov = MQTQuditProvider()
    tn = prov.get_backend("tnsim")
    bes = [prov.get_backend("misim") for _ in range(2)]
    plans = [x["c"] for x in plan["circuits"]]
    circs = [models.build(c) for c in plans]
    want = [models.state(c) for c in plans]
    size, pysize = [], []
    for c in circs:
        lib.dst_alloc_arm(-1, 0)
        bes[0].run(c)
        size.append(int(lib.dst_alloc_count()))
        native.py_arm(-1)
        bes[0].run(c)
        pysize.append(native.PY_FAIL["count"])
    ctx.event("sizes", size, pysize)
    for n, o in enumerate(plan["ops"]):
        i = o["c"]
        c, p = circs[i], plans[i]
        if o["k"] == "new":
            bes[o["b"]] = MQTQuditProvider().get_backend("misim")
            continue
        if o["k"] == "tn":
            if not models.close(tn.run(c).result().get_state_vector(), want[i], 1e-6):
                ctx.violate("wrong-state:tn", f"operation {n}")
                return
            continue
        nz = plan["circuits"][i]["noise"]
        at = None if "at" not in o else int(o["at"] * size[i])
        lib.dst_alloc_arm(-1 if at is None else at, 1 if o.get("sticky") else 0)
        if "py" in o:
            native.py_arm(int(o["py"] * pysize[i]), 1 if o.get("sticky") else 0, o["skip"])
        err = job = None
        try:
            job = bes[o["b"]].run(c) if o["k"] == "run" else bes[o["b"]].run(c, noise_model=noise.build(nz), shots=50, full_state_memory=o["full"])
        except Exception as e:  # noqa: BLE001
            err = e
        failed = int(lib.dst_alloc_failed())
        lib.dst_alloc_arm(-1, 0)
        pyfailed = native.PY_FAIL["failed"] if "py" in o else 0
        native.PY_FAIL["at"] = None
        ctx.event("run", n, o["k"], at, failed, o.get("py"), pyfailed, None if err is None else type(err).__name__)
        if pyfailed:
            ctx.fault("interpreter_allocation_failed")
        if failed:
            ctx.fault("allocation_failed")
        elif not pyfailed and err is not None:
            ctx.fault("allocation_failed_in_worker")
        if err is not None:
            if not (failed or pyfailed) and (o["k"] == "run" or (at is None and "py" not in o)):
                ctx.violate("fault-free-run-fails", f"operation {n} ({o['k']}) had no failing allocation but raised {type(err).__name__}: {err}")
                return
            # pybind11 reports a Python object that it could not create with a RuntimeError
            if not isinstance(err, MemoryError) and not ("py" in o and isinstance(err, RuntimeError) and str(err).startswith("Could not allocate")):
                ctx.violate("wrong-error", f"operation {n} ({o['k']}): allocation {at if at is not None else 'of the interpreter'} of circuit {p} failed; the run raised {type(err).__name__}: {err} instead of a memory error")
                return
            ctx.probe("memory_error")
            continue
        if not models.close(job.result().get_state_vector(), want[i], 1e-6):
            ctx.violate("wrong-state", f"operation {n} ({o['k']}, {failed + pyfailed} failed allocations): circuit {p} gave {np.round(np.ravel(job.result().get_state_vector()), 4).tolist()[:12]}")
            return
        if o["k"] == "noisy" and not noisyrun.check_results(ctx, job.result().get_counts(), p, nz, "misim", 50, o["full"]):
            return
        ctx.probe("right_" + o["k"] + ("_despite_failure" if failed or pyfailed else ""))
    for i, c in enumerate(circs):
        for be in bes:
            if not models.close(be.run(c).result().get_state_vector(), want[i], 1e-6):
                ctx.violate("wrong-state", f"after all operations circuit {plans[i]} gives a wrong state")
                return
