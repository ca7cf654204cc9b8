"""Circuits for the compiler checks, and the meaning of compiled circuits."""
from __future__ import annotations

import math

import numpy as np

from . import models

BACKENDS = {"faketraps2trits": [3, 3], "faketraps2six": [6, 6], "faketraps3six": [6, 6, 6], "innsbruck01": [3, 3]}
LOCAL = ["h", "x", "z", "s", "r", "r", "rz", "rh", "virtrz", "pm", "cu_one"]
LEVELS = ["O0", "O1", "O2"]


TWO = ["csum", "ls", "ms", "cu_two"]  # decomposed into hundreds of gates


def gen_case(rng, backend, n_max=5, ent=True, nq=None, two=0.0):
    full = BACKENDS[backend]
    n = nq or rng.randint(1, len(full) if backend != "faketraps3six" or rng.random() < 0.25 else 2)
    allowed = LOCAL + (["cx"] * 5 if n > 1 and ent else [])
    if n > 1 and max(full[:n]) < 4 and rng.random() < two:
        allowed, n_max = [*allowed, *TWO], min(n_max, 3)
    return models.gen_circuit(rng, full[:n], rng.randint(1, n_max), allowed, dag=0.25)


def batch_unitary(dims, items):
    """items: (matrix, lines, controls)"""
    n = math.prod(dims)
    u = np.eye(n, dtype=complex).reshape([*dims, n])
    for m, lines, c in items:
        u = models.apply_matrix(u, m, lines, [*dims, n], c)
    return u.reshape(n, n)


def plan_unitary(plan):
    d = plan["dims"]
    return batch_unitary(d, [(models.gate_matrix(e, d), [e["q"]] if isinstance(e["q"], int) else e["q"], e.get("c")) for e in plan["gates"]])


def entry(g):
    """A real gate as a plan entry, or None."""
    t = g.qasm_tag
    q = g.target_qudits
    dag = bool(g.dagger)
    if t == "rxy":
        return {"g": "r", "q": q, "p": [g.lev_a, g.lev_b, g.theta, g.phi], "dag": dag}
    if t == "rz":
        return {"g": "rz", "q": q, "p": [g.lev_a, g.lev_b, g.phi], "dag": dag}
    if t == "virtrz":
        return {"g": "virtrz", "q": q, "p": [g.lev_a, g.phi], "dag": dag}
    if t == "cx":
        return {"g": "cx", "q": list(q), "p": list(g.control_info["params"]), "dag": dag}
    return None


def circuit_unitary(c):
    dims = list(c.dimensions)
    items = []
    for g in c.instructions:
        e = entry(g)
        q = g.target_qudits
        if e is not None:
            m, lines = models.gate_matrix(e, dims), [q] if isinstance(q, int) else list(q)
        else:
            m, lines = np.asarray(g.to_matrix(identities=0)), [q] if isinstance(q, int) else sorted(q)
        cd = g.control_info["controls"]
        items.append((m, lines, None if cd is None else [list(cd.indices), list(cd.ctrl_states)]))
    return batch_unitary(dims, items)


def place(maps, dims):
    """Logical level j of a qudit sits on physical level maps[qudit][j]."""
    p = np.eye(1)
    for m, d in zip(maps, dims):
        p = np.kron(p, np.eye(d)[:, list(m)])
    return p


def maps_of(backend):
    return [list(g.log_phy_map) for g in backend.energy_level_graphs]


def graphs_fingerprint(backend):
    return [[list(g.log_phy_map), sorted((min(a, b), max(a, b), d.get("sensitivity")) for a, b, d in g.edges(data=True)), sorted(g.nodes)]
            for g in backend.energy_level_graphs]


def differs(v, u, tol=2e-3):
    """None if v equals u up to a global phase, else a measure of the difference."""
    if v.shape != u.shape or not np.all(np.isfinite(v)):
        return "shape"
    k = np.vdot(u, v)
    if abs(k) < 1e-9:
        return 1.0
    d = float(np.max(np.abs(v * (abs(k) / k) - u)))
    return d if d > tol else None
