"""C10: variational compilation always ends and leaves nothing running."""
from __future__ import annotations

from dst import varsim

PROPERTY = "C10"
RUNS = {"quick": 500, "thorough": 20000}
TIME = {"quick": 90, "thorough": 2400}
RULE = ("one evaluation is one simulated history of variational compilations (sequential or in threads) with a scripted optimiser on virtual time; "
        "distinct means a different event log (evaluations, timeouts, thread switches, outcomes)")
COMPONENTS = {"real": ["variational_compile", "binary_search_compile", "Optimizer and its objective functions", "ansatz and parametrisation", "threading.Timer"],
              "stub": ["scipy's dual_annealing (scripted: evaluates the real objective at scripted points and times, or fails)", "thread scheduling, clocks"]}
ASSUMPTIONS = ["a time limit is noticed at the next evaluation of the objective"]
SHRINK = ["ops", "threads.start_fail"]
shrink = varsim.shrink


def gen(rng, tier, i):
    par = rng.random() < 0.3
    n = rng.choice([1, 2, 3]) if not par else rng.choice([2, 2, 3])
    plan = {"world": {"cost": 0.0, "jumps": [[rng.choice([10.0, 2000.0]), rng.choice([-86400.0, 7200.0])]] if rng.random() < 0.3 else []}, "par": par,
            "threads": {"seed": rng.randrange(1 << 30), "prob": rng.choice([0.001, 0.01]), "trace": rng.random() < 0.5},
            "ops": varsim.related(rng, [varsim.gen_compile(rng, p_kbd=0.0 if par else 0.25, p_fail=0.25, p_slow=0.35) for _ in range(n)])}
    if rng.random() < 0.2:
        plan["threads"]["start_fail"] = [rng.randint(1, 6)]
    return plan


def execute(plan, ctx):
    sim = varsim.Sim(ctx, plan)
    sim.w.time_limit = 1e9

    def each(sim, ops):
        t1 = sim.w.now
        sim.settle()
        left = sim.sched.alive()
        if left:
            ctx.violate("left-running", f"after the compilation ended ({ops[-1].out}: {ops[-1].err}) these threads are still alive: {[(t.name, t.state, t.wake_at) for t in left]}")
            return False
        total = sum(varsim.allowance(o.spec["dims"]) + c["max_delay"] + (c["script"] or {}).get("delay", 0.0) * (c["raised"] is not None)
                    for o in ops for c in o.calls)
        for o in ops:
            if o.out not in ("circuit", "error", "interrupted"):
                ctx.violate("no-outcome", "the compilation ended without a circuit or an error")
                return False
            for sig, msg in o.bad:
                if sig == "never-stopped":
                    ctx.violate(sig, msg)
                    return False
            if o.t1 - o.t0 > total + 20.0 * (1 + sum(len(x.calls) for x in ops)):
                ctx.violate("too-long", f"the compilation took {o.t1 - o.t0:.0f} s; the layer counts it tried have {total:.0f} s in all")
                return False
            ns = [c["n"] for c in o.calls]
            if len(ns) > o.spec["layers"] + 1:
                ctx.violate("tried-twice", f"{len(ns)} searches for at most {o.spec['layers']} layers: {ns}")
                return False
        del t1
        return True

    sim.run(each)
