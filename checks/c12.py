"""C12: concurrent variational compilations do not disturb each other."""
from __future__ import annotations

from dst import varsim

PROPERTY = "C12"
RUNS = {"quick": 500, "thorough": 20000}
TIME = {"quick": 90, "thorough": 2400}
RULE = ("one evaluation is one simulated schedule of 2-4 threads that compile variationally (or sparsify) with a scripted optimiser; the scheduler pre-empts "
        "at repository lines, locks, queues and sleeps; distinct means a different event log")
COMPONENTS = {"real": ["variational_compile", "binary_search_compile", "Optimizer and its objective functions", "ansatz, parametrisation, instantiation", "sparsify", "threading.Timer"],
              "stub": ["scipy's dual_annealing (scripted: evaluates the real objective at scripted points and times, or fails)", "thread scheduling, clocks"]}
ASSUMPTIONS = ["threads interleave at line granularity in repository code"]
SHRINK = ["ops"]
shrink = varsim.shrink


def gen(rng, tier, i):
    n = rng.choice([2, 2, 3, 4])
    ops = []
    for _ in range(n):
        if ops and rng.random() < 0.05:
            ops.append({**varsim.gen_compile(rng, dims=[2, 2]), "op": "sparsify", "other": True, "bad": None})
        else:
            ops.append({**varsim.gen_compile(rng, p_fail=0.1, p_slow=0.15), "other": rng.random() < 0.1})
    varsim.related(rng, ops)
    for o in ops:
        o["gap"] = rng.choice([0.0, 0.0, 0.0, 1.0, 500.0])
    return {"world": {"cost": 0.0}, "par": True, "threads": {"seed": rng.randrange(1 << 30), "prob": rng.choice([0.0005, 0.003, 0.02, 0.1])}, "ops": ops}


def execute(plan, ctx):
    sim = varsim.Sim(ctx, plan)

    def each(sim, ops):
        for op in ops:
            op.faulted = False
            if op.spec["op"] == "sparsify":
                if op.out != "circuit":
                    ctx.violate("sparsify", f"a concurrent sparsification raised {type(op.err).__name__}: {op.err}")
                continue
            for sig, msg in varsim.judge_circuit(op):
                ctx.violate(sig, f"caller {op.i}: {msg}")
                break
        return True

    sim.run(each)
