"""One noisy run of a plan on a real backend under the simulated pool, and what must be true of it."""
from __future__ import annotations

import math
import os
import random as _random

import numpy as np

from . import models, noise

TN_GATES = [*models.SINGLE, "csum", "cx", "ls", "ms", "cu_two", "cu_multi"]
TN_GATES = [g for g in TN_GATES if not g.startswith("noise")]
TN_SIMPLE = ["h", "x", "z", "r", "rz", "rh", "virtrz", "csum", "cx", "ls", "cu_one"]


def gen_case(rng, backend, n_gates, total=27, nmax=3, dmax=4, nmin=1, **nk):
    """A circuit and a noise model its gates can carry."""
    while True:
        dims = models.gen_dims(rng, nmax, min(dmax, 7), total, nmin)
        if backend == "tnsim":
            c = models.gen_circuit(rng, dims, n_gates, TN_GATES, ctrl=0.2, dag=0.2)
        else:
            c = models.gen_circuit(rng, dims, n_gates, models.MI_GATES, dag=0.2, sorted_levels=True)
            c["gates"] = [e for e in c["gates"] if not (e["g"] in ("csum", "cx") and e["q"][0] > e["q"][1] and False)]
        nz = noise.gen_noise(rng, c, backend, **nk)
        if nz:
            return c, nz


def gen_wide(rng, backend, limit=None):
    """A register with many basis states, single-qudit gates and local noise: every qudit's law is its own."""
    limit = limit or rng.choice([600, 3000, 3000, 70000])
    while True:
        dims, n = [], 1
        while n <= limit / 4:
            d = rng.randint(2, 7 if backend == "misim" else rng.choice([3, 9]))
            dims.append(d)
            n *= d
        if 256 < n <= limit * 2:
            break
    allowed = ["h", "x", "r"] if backend == "misim" else ["h", "x", "r", "cu_one", "pm"]
    gates = []
    for q in range(len(dims)):
        g = models.gen_gate(rng, [dims[q]], allowed, sorted_levels=True)
        gates.append({**g, "q": q})
    gates += [{"g": "x", "q": rng.randrange(len(dims))} for _ in range(rng.randint(0, 3))]
    tags = sorted({noise.tag(e) for e in gates})
    nz = [{"gates": [t], "mode": "local", "kind": "math", "p": rng.choice([0.0, 0.1, 1.0]), "q": rng.choice([0.0, 0.1])} for t in tags if rng.random() < 0.6]
    return {"dims": dims, "gates": gates}, nz or [{"gates": ["h"], "mode": "local", "kind": "math", "p": 0.1, "q": 0.0}]


def check_wide(ctx, res, plan, nz, backend, shots):
    """check_results for gen_wide's circuits, outcome by outcome and digit by digit."""
    dims = plan["dims"]
    if not isinstance(res, (list, np.ndarray, tuple)) or len(res) != shots:
        ctx.violate("shot-count", f"{len(res)} results for {shots} shots")
        return False
    laws = []
    for q, d in enumerate(dims):
        own = {"dims": [d], "gates": [{**e, "q": 0} for e in plan["gates"] if e["q"] == q]}
        laws.append(np.real(np.diag(noise.density(own, nz, backend))))
    for i, x in enumerate(res):
        k = outcome(x)
        if k is None:
            ctx.violate("outcome-type", f"result {i} is {x!r}")
            return False
        if not 0 <= k < math.prod(dims):
            ctx.violate("impossible-outcome", f"result {i} is {k} on {dims}")
            return False
        for q in reversed(range(len(dims))):
            k, y = divmod(k, dims[q])
            if laws[q][y] < 1e-9:
                ctx.violate("impossible-outcome", f"result {i} is {int(x)}: qudit {q} of {dims} cannot be measured in level {y}")
                return False
    return True


def gen_pool(rng, shots):
    cfg = {"tie": rng.randrange(1 << 20), "cost": rng.choice([[0.001, 0.001], [0.0001, 0.02], [0.0, 0.0], [0.01, 0.5]]),
           "delay": rng.choice([[0.0, 0.0], [0.0, 0.0002], [0.0, 0.5]])}
    if rng.random() < 0.3:
        cfg["slow"] = {str(rng.randrange(8)): rng.choice([3.0, 50.0]) for _ in range(rng.randint(1, 2))}
    if rng.random() < 0.3:
        cfg["stall"] = {str(rng.randrange(shots)): rng.choice([0.5, 30.0, 3600.0]) for _ in range(rng.randint(1, 3))}
    if rng.random() < 0.3:
        cfg["skew"] = {str(rng.randrange(8)): rng.choice([-2.0, 2.0, 1e-3, -1e-3])}
    return cfg


def gen_world(rng):
    return {"ncpu": rng.choice([1, 2, 2, 3, 4, 8]), "cost": rng.choice([0.0, 1e-6]), "gran": rng.choice([0.0, 0.0, 0.001, 1.0, 3600.0]),
            "jumps": [[rng.choice([0.0005, 0.01, 0.3]), -rng.choice([0.001, 0.3, 3600.0])] for _ in range(rng.choice([0, 0, 1, 2]))],
            "reuse_pids": rng.random() < 0.2}


def outcome(x):
    """A measurement outcome as an int, or None if it is not one."""
    if isinstance(x, (bool, np.bool_)) or not isinstance(x, (int, np.integer)):
        return None
    return int(x)


def check_state_vector(ctx, sv, plan, sig="wrong-noise-free-state", controls_known=False):
    want = models.state(plan)
    a = np.asarray(sv)
    if not models.close(a, want, 1e-6):
        ctx.violate(sig, f"the noise-free state vector is wrong: {np.round(a.ravel(), 4).tolist()[:16]} instead of {np.round(want, 4).tolist()[:16]}")
        return False
    return True


def check_results(ctx, res, plan, nz, backend, shots, full, rho=None):
    """Number, type and validity of the results of one run."""
    if not isinstance(res, (list, np.ndarray, tuple)):
        ctx.violate("results-type", f"results are a {type(res).__name__}")
        return False
    if len(res) != shots:
        ctx.violate("shot-count", f"{len(res)} results for {shots} shots")
        return False
    n = math.prod(plan["dims"])
    if rho is None:
        rho = noise.density(plan, nz, backend)
    if full:
        w, v = np.linalg.eigh(rho)
        null = v[:, w < 1e-9]
        for i, x in enumerate(res):
            a = np.asarray(x)
            if a.size != n or not np.all(np.isfinite(a)):
                ctx.violate("state-shape", f"result {i} is no state of {n} amplitudes: shape {a.shape}")
                return False
            a = a.ravel()
            if abs(np.linalg.norm(a) - 1) > 1e-6:
                ctx.violate("state-norm", f"result {i} has norm {np.linalg.norm(a)}")
                return False
            if null.shape[1] and np.linalg.norm(null.conj().T @ a) > 1e-4:
                ctx.violate("impossible-state", f"result {i} is not a state the noisy circuit can produce")
                return False
    else:
        pr = np.real(np.diag(rho))
        for i, x in enumerate(res):
            k = outcome(x)
            if k is None:
                ctx.violate("outcome-type", f"result {i} is {x!r}")
                return False
            if not 0 <= k < n or pr[k] < 1e-9:
                ctx.violate("impossible-outcome", f"result {i} is {k}, which the noisy circuit on {plan['dims']} cannot produce")
                return False
    return True


def read_saved(path):
    import h5py

    with h5py.File(path, "r") as f:
        if "shots" in f:
            d = f["shots"][:]
            return "shots", [int(x) for x in d["nr"]], [int(x) for x in d["shot"]]
        d = f["vectors"][:]
        return "vectors", [x.decode() for x in d["name"]], [np.array(x) for x in d["vector_data"]]


def check_saved(ctx, path, res, full, sig="saved"):
    if not os.path.exists(path):
        ctx.violate(sig + "-missing", "the run that was asked to save its results returned without a results file")
        return False
    try:
        kind, names, vals = read_saved(path)
    except Exception as e:  # noqa: BLE001
        ctx.violate(sig + "-unreadable", f"the results file cannot be read: {type(e).__name__}: {e}")
        return False
    if kind != ("vectors" if full else "shots"):
        ctx.violate(sig + "-kind", f"the results file holds {kind}")
        return False
    if len(vals) != len(res):
        ctx.violate(sig + "-count", f"{len(vals)} saved results, {len(res)} returned")
        return False
    if full:
        if len(set(names)) != len(names):
            ctx.violate(sig + "-names", "two saved states share a name")
            return False
        for i, (a, b) in enumerate(zip(vals, res)):
            if not np.array_equal(np.ravel(a), np.ravel(b)):
                ctx.violate(sig + "-differ", f"saved state {i} is not the returned one")
                return False
    else:
        if names != list(range(len(names))):
            ctx.violate(sig + "-numbering", f"saved shots are numbered {names[:10]}...")
            return False
        if vals != [int(x) for x in res]:
            i = next(i for i, (a, b) in enumerate(zip(vals, res)) if a != int(b))
            ctx.violate(sig + "-differ", f"saved shot {i} is {vals[i]}, returned was {int(res[i])}")
            return False
    return True


_ = _random
