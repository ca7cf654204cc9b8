"""C02: shots are statistically independent of each other."""
from __future__ import annotations

import copy
import math

import numpy as np
from scipy import stats as ss

from dst import models, noise, noisyrun, pool, procs, stats

PROPERTY = "C02"
NATIVE = True
RUNS = {"quick": 200, "thorough": 9000}
TIME = {"quick": 90, "thorough": 2400}
RULE = ("one evaluation is one simulated history of noisy runs of one circuit in up to three (restarted) processes; the number of equal pairs "
        "of shots, overall, per distance and across runs, is compared with its exact law for independent shots; distinct means a different event log")
COMPONENTS = {"real": ["TNSim", "MISim with its native simulator and its noise generator", "stochastic_simulation", "NoisyCircuitFactory",
                       "numpy generators", "worker processes (really forked)"],
              "stub": ["executor/pool scheduling", "clocks", "process ids", "operating-system entropy (seeded stream per process)", "CPU count"]}
ASSUMPTIONS = ["operating-system entropy differs between processes and calls",
               "generic rotation angles: different noise realisations give different states"]
SHRINK = ["procs", "world.jumps"]


def gen(rng, tier, i):
    be = rng.choice(["tnsim", "misim"])
    kind = rng.choice(["states", "states", "uniform", "noise_outcomes", "counts"])
    full = kind == "states"
    shots = rng.choice([50, 60, 75, 100])
    if kind == "states":
        n = rng.randint(2, 3)
        dims = [rng.randint(2, 3) for _ in range(n)]
        gates = [{"g": "h", "q": q} for q in range(n)]
        s, target = 1.0, 1e-14
        if be == "tnsim":
            nz = [{"gates": ["cuone"], "mode": "local", "kind": "math", "p": 0.9, "q": 0.0}]
            if rng.random() < 0.3:
                nz = [{"gates": ["cuone"], "mode": "local", "kind": "sub", "p": 0.75, "q": 0.5, "levels": [[0, 1]]}]
            while s > target:
                q = rng.randrange(n)
                e = {"g": "cu_one", "q": q, "p": {"mat": [dims[q], rng.randrange(100000)]}}
                gates.append(e)
                s *= noise.collision({"dims": dims, "gates": [e]}, nz, be)
        else:
            nz = [{"gates": ["rxy"], "mode": "local", "kind": "math", "p": 0.5, "q": 0.5}]
            while s > target:
                q = rng.randrange(n)
                a = rng.randrange(dims[q] - 1)
                gates.append({"g": "r", "q": q, "p": [a, a + 1, round(rng.uniform(0.4, 2.6), 6), round(rng.uniform(-3, 3), 6)]})
                s *= 0.25
        c = {"dims": dims, "gates": gates}
    elif kind == "uniform":
        d = rng.choice([2, 3, 4] if be == "tnsim" else [2, 3, 5])
        n = int(math.log(rng.choice([800, 3000]), d)) + 1
        dims = [d] * n
        c = {"dims": dims, "gates": [{"g": "h", "q": q} for q in range(n)]}
        nz = [{"gates": ["h"], "mode": "local", "kind": "math", "p": rng.choice([0.0, 0.3]), "q": 0.0}]
    elif kind == "noise_outcomes":
        if be == "tnsim":
            d = rng.choice([2, 3])
            n = 10 if d == 2 else 6
            nz = [{"gates": ["z"], "mode": "local", "kind": "math", "p": 1.0, "q": 0.0}]
        else:
            d, n = 2, 10
            nz = [{"gates": ["z"], "mode": "local", "kind": "math", "p": 0.5, "q": 0.3}]
        dims = [d] * n
        c = {"dims": dims, "gates": [{"g": "z", "q": q} for q in range(n)]}
    else:
        dims = rng.choice([[2, 4, 4], [6, 6], [5, 7], [2, 3, 5]] if be == "tnsim" else [[2, 2, 3, 3], [5, 7], [6, 6]])
        c = {"dims": dims, "gates": [{"g": "h", "q": q} for q in range(len(dims))]}
        nz = [{"gates": ["h"], "mode": "local", "kind": "math", "p": 0.0, "q": 0.2}]
        shots = rng.choice([600, 1000])
    ps = []
    for _ in range(rng.choice([1, 1, 2, 3]) if kind != "counts" else 1):
        ps.append({"runs": rng.choice([1, 1, 2]) if kind != "counts" else 1, "pid": rng.choice([None, 5000, 5000]), "at": rng.choice([0.0, 0.0, 2.0]),
                   "fresh": rng.random() < 0.7})
    w = noisyrun.gen_world(rng)
    if rng.random() < 0.4:
        w["gran"] = 3600.0
    return {"world": w, "pool": noisyrun.gen_pool(rng, shots), "kind": kind, "backend": be, "circuit": c, "noise": nz, "shots": shots,
            "full": full, "procs": ps}


def shrink(plan):
    for i, p in enumerate(plan["procs"]):
        if p["runs"] > 1:
            c = copy.deepcopy(plan)
            c["procs"][i]["runs"] = 1
            yield c
    if plan["shots"] > 50:
        c = copy.deepcopy(plan)
        c["shots"] = 50
        yield c
    for k in ("slow", "stall", "skew"):
        if k in plan["pool"]:
            c = copy.deepcopy(plan)
            del c["pool"][k]
            yield c


def execute(plan, ctx):
    from mqt.qudits.simulation import MQTQuditProvider

    pool.install(ctx, plan["pool"])
    circuit, nz = plan["circuit"], plan["noise"]
    backend = MQTQuditProvider().get_backend(plan["backend"])

    def do(p):
        out = []
        for _ in range(p["runs"]):
            c = models.build(circuit)
            job = backend.run(c, noise_model=noise.build(nz), shots=plan["shots"], full_state_memory=plan["full"])
            r = job.result().get_counts()
            if plan["full"]:
                out.append([np.round(np.ravel(x), 7) + 0.0 for x in r])
            else:
                out.append([int(x) for x in r])
        return out

    runs = []
    for i, p in enumerate(plan["procs"]):
        r = procs.run(ctx, f"p{i}", lambda p=p: do(p), pid=p["pid"], at=p["at"], fresh=p["fresh"])
        if r[0] != "ok":
            ctx.violate("process-crash", f"{r}")
            return
        runs += r[1]
    ctx.probe(f"{plan['backend']}_{plan['kind']}")
    ctx.event("results", [[x[:3].tolist() if plan["full"] else x for x in r][:60] for r in runs])
    if plan["full"]:
        keys = [[x.tobytes() for x in r] for r in runs]
    else:
        keys = runs
    ids = {}
    keys = [np.array([ids.setdefault(k, len(ids)) for k in r]) for r in keys]
    n = sum(len(k) for k in keys)
    allk = np.concatenate(keys)
    if plan["full"]:
        s2 = noise.collision(circuit, nz, plan["backend"])
        limit = 0 if n * n * s2 < 1e-9 else stats.pairs_threshold(n, s2)
    else:
        rho = noise.density(circuit, nz, plan["backend"]) if math.prod(circuit["dims"]) <= 40 else None
        D = math.prod(circuit["dims"])
        pr = np.full(D, 1.0 / D) if rho is None else np.real(np.diag(rho))
        s2, s3 = float(np.sum(pr ** 2)), float(np.sum(pr ** 3))
        limit = stats.pairs_threshold(n, s2, s3)
    got = stats.equal_pairs(allk)
    if got > limit:
        where = [(a, b) for a in range(len(allk)) for b in range(a) if allk[a] == allk[b]][:6]
        ctx.violate("repeated-shots", f"{got} pairs of equal shots among {n} where independent shots give at most {limit:.0f}; e.g. shots {where}")
        return
    # pairs at one distance within a run, and the same position of two runs: binomial exactly
    cells = 0
    for a in keys:
        cells += len(a)
    cells += len(keys) ** 2
    alpha = 1e-11
    for ri, a in enumerate(keys):
        for lag in range(1, len(a)):
            m = len(a) - lag
            k = int(np.sum(a[lag:] == a[:-lag]))
            if k > m * s2 and ss.binom.sf(k - 1, m, s2) < alpha / cells:
                ctx.violate("correlated-shots", f"run {ri}: {k} of {m} shots equal the one {lag} later (expected {m * s2:.3g})")
                return
        for rj in range(ri):
            m = min(len(a), len(keys[rj]))
            k = int(np.sum(a[:m] == keys[rj][:m]))
            if k > m * s2 and ss.binom.sf(k - 1, m, s2) < alpha / cells:
                ctx.violate("correlated-runs", f"{k} of {m} shots of run {ri} equal the same shot of run {rj} (expected {m * s2:.3g})")
                return
    if plan["kind"] == "counts":  # independent shots scatter: frequencies that agree too well are no independent samples
        D = math.prod(circuit["dims"])
        cnt = np.bincount(np.array(runs[0]), minlength=D)
        x = float(np.sum((cnt - n / D) ** 2) / (n / D))
        if ss.chi2.cdf(x * 1.3, D - 1) < 1e-10:
            ctx.violate("too-regular", f"the counts of {n} shots scatter less than independent shots can: chi2 {x:.3f} with {D - 1} degrees of freedom")
            return
        # the order must be as random as the values: long-range trends
        u = np.array(runs[0]) - (D - 1) / 2
        z = abs(float(np.sum(u[1:] * u[:-1]))) / (math.sqrt(n - 1) * (D * D - 1) / 12)
        if z > 8:
            ctx.violate("correlated-shots", f"neighbouring shots are correlated: {z:.1f} standard deviations")
