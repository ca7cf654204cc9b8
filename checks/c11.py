"""C11: variational compilation returns a circuit within tolerance, or an error."""
from __future__ import annotations

from dst import models, varsim

PROPERTY = "C11"
RUNS = {"quick": 600, "thorough": 20000}
TIME = {"quick": 90, "thorough": 2400}
RULE = ("one evaluation is one simulated history of variational compilations one after another, some failing or timing out, with a scripted or the real "
        "optimiser on virtual time; distinct means a different event log")
COMPONENTS = {"real": ["variational_compile", "binary_search_compile", "Optimizer and its objective functions", "ansatz, parametrisation, instantiation", "threading.Timer",
                       "scipy's dual_annealing in part of the runs"],
              "stub": ["scipy's dual_annealing in the other runs (scripted: evaluates the real objective at scripted points and times, or fails)", "thread scheduling, clocks"]}
ASSUMPTIONS = ["infidelity is 1 - |tr(A^dagger B)| / D"]
SHRINK = ["ops"]
shrink = varsim.shrink


def gen(rng, tier, i):
    ops = [varsim.gen_compile(rng, p_kbd=0.12, p_fail=0.15, p_slow=0.25) for _ in range(rng.choice([1, 2, 2, 3, 4]))]
    varsim.related(rng, ops)
    if rng.random() < 0.12:
        o = ops[-1]
        o.update(dims=[2, 2], ansatz="LS", layers=rng.choice([1, 2]), tol=rng.choice([0.1, 0.03]), real=rng.choice([3, 10, 30]))
        o["lstar"] = min(o["lstar"], o["layers"])
        o.pop("bad", None)
    return {"world": {"cost": 0.0}, "threads": {"seed": rng.randrange(1 << 30), "prob": 0.002, "trace": rng.random() < 0.3}, "ops": ops}


def execute(plan, ctx):
    sim = varsim.Sim(ctx, plan)

    def each(sim, ops):
        op = ops[0]
        op.faulted = False
        for sig, msg in varsim.judge_circuit(op):
            ctx.violate(sig, f"compilation {op.i}: {msg}")
            return False
        if op.out == "circuit" and not any(c["found"] for c in op.calls) and not op.spec.get("real"):
            # the optimiser may also have returned a point whose error equals the tolerance; the infidelity was judged above
            ctx.probe("found_at_return")
        if models.circuit_fingerprint(op.circuit) != op.before:
            ctx.violate("target-changed", "the compilation changed the circuit of its target gate")
            return False
        return True

    sim.run(each)
