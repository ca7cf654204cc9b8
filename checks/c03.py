"""C03: outcome frequencies follow the circuit and the declared noise."""
from __future__ import annotations

import copy
import math

import numpy as np

from dst import models, noise, noisyrun, pool, stats

PROPERTY = "C03"
NATIVE = True
RUNS = {"quick": 170, "thorough": 5000}
TIME = {"quick": 100, "thorough": 3000}
ALPHA = 1e-11
RULE = ("one evaluation is one simulated noisy run of thousands of shots, its outcome frequencies (or its average state) compared with the exact "
        "density matrix of the circuit under the declared noise; distinct means a different event log")
COMPONENTS = {"real": ["TNSim", "MISim with its native simulator and its noise generator", "stochastic_simulation", "NoisyCircuitFactory", "measurement"],
              "stub": ["executor/pool scheduling", "clocks", "process ids", "entropy (seeded)", "CPU count"]}
ASSUMPTIONS = ["tail probability of a false alarm per run below 1e-10",
               "MISim's noise: per gate and mode one shift draw and one phase draw, applied to all qudits of the mode"]
SHRINK = ["circuit.gates", "noise", "world.jumps"]


def gen(rng, tier, i):
    be = rng.choice(["tnsim", "misim"])
    if i % 24 == 11:  # an outcome so rare that only many shots tell whether it is lost
        d, th = rng.randint(2, 4), 2 * math.asin(math.sqrt(rng.uniform(0.0033, 0.006)))
        c = {"dims": [d], "gates": [{"g": "r", "q": 0, "p": [0, 1, round(th, 6), 0.3]}]}
        nz = [{"gates": ["z"], "mode": "local", "kind": "math", "p": 0.1, "q": 0.1}]
        return {"world": noisyrun.gen_world(rng), "pool": noisyrun.gen_pool(rng, 1000), "backend": be, "circuit": c, "noise": nz, "full": False, "shots": 9000}
    ng = rng.choice([1, 1, 2, 2, 3, 4])
    while True:
        c, nz = noisyrun.gen_case(rng, be, ng, total=18, nmin=rng.choice([1, 2, 2]), strong=0.8, n_max=2)
        if be == "misim" and len(c["dims"]) > 1 and rng.random() < 0.25:
            # a control on level 0 of a qudit still in |0>: the control makes no difference, its line matters for the noise
            e = models.gen_gate(rng, c["dims"], [g for g in models.MI_GATES if g in models.SINGLE], sorted_levels=True)
            q = rng.choice([x for x in range(len(c["dims"])) if x != e["q"]])
            e["c"] = [[q], [0]]
            c["gates"].insert(0, e)
            nz = noise.gen_noise(rng, c, be, strong=0.8, n_max=2)
            if not nz:
                continue
        sites = sum(len(g) for g in noise.all_draws(c, nz, be))
        if 1 <= sites <= 24 and any(len(a) > 1 and 0.02 < a[1][0] for g in noise.all_draws(c, nz, be) for a in g):
            break
    full = rng.random() < 0.25
    w = noisyrun.gen_world(rng)
    return {"world": w, "pool": noisyrun.gen_pool(rng, 1000), "backend": be, "circuit": c, "noise": nz, "full": full,
            "shots": (1500 if be == "tnsim" else 2500) * (1 if tier == "quick" else 2)}


def shrink(plan):
    for k in ("slow", "stall", "skew"):
        if k in plan["pool"]:
            c = copy.deepcopy(plan)
            del c["pool"][k]
            yield c


def execute(plan, ctx):
    from mqt.qudits.simulation import MQTQuditProvider

    pool.install(ctx, plan["pool"])
    circuit, nz, be, n = plan["circuit"], plan["noise"], plan["backend"], plan["shots"]
    if not circuit["gates"]:
        return
    rho = noise.density(circuit, nz, be)
    D = math.prod(circuit["dims"])
    c = models.build(circuit)
    job = MQTQuditProvider().get_backend(be).run(c, noise_model=noise.build(nz), shots=n, full_state_memory=plan["full"])
    ctx.probe(be + ("_states" if plan["full"] else "_outcomes"))
    for ent in nz:
        ctx.probe(f"{be}_{ent['kind']}_{ent['mode']}")
    noisyrun.check_state_vector(ctx, job.result().get_state_vector(), circuit)
    res = job.result().get_counts()
    if not noisyrun.check_results(ctx, res, circuit, nz, be, n, plan["full"], rho):
        return
    if plan["full"]:
        a = np.array([np.ravel(x) for x in res])
        got = a.T @ a.conj() / n
        t = math.sqrt(math.log(4 * D * D / ALPHA) / (2 * n))
        dev = np.maximum(np.abs(np.real(got - rho)), np.abs(np.imag(got - rho)))
        k = np.unravel_index(int(np.argmax(dev)), dev.shape)
        ctx.event("rho", np.round(got, 6).ravel().tolist()[:40])
        if dev[k] > t:
            ctx.violate("wrong-average-state", f"over {n} states the average of amplitude {k[0]} times conjugate amplitude {k[1]} is {got[k]:.4f}, not {rho[k]:.4f} (bound {t:.3f})")
            return
        cnt = None
    else:
        cnt = np.bincount([int(x) for x in res], minlength=D)
        ctx.event("counts", cnt.tolist())
        pr = np.real(np.diag(rho))
        bad = stats.freq_deviation(cnt, pr, n, ALPHA / D)
        if bad:
            ctx.violate("wrong-frequency", f"outcome {bad[0]} occurred {bad[1]} times in {n} shots; its probability is {bad[2]:.5f} (tail {bad[3]:.1e})")
            return
        bad = stats.chi2_bad(cnt, pr, n, ALPHA)
        if bad:
            ctx.violate("wrong-frequency", f"counts {cnt.tolist()} do not fit {np.round(pr * n, 1).tolist()}: chi2 {bad[0]:.1f} with {bad[1]} degrees of freedom")
