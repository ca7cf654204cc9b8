"""C21: state preparation prepares the requested state after any history and in threads."""
from __future__ import annotations

import copy
import math

import numpy as np

from dst import compiling, histories, models

PROPERTY = "C21"
RUNS = {"quick": 3000, "thorough": 60000}
TIME = {"quick": 80, "thorough": 2400}
RULE = ("one evaluation is one simulated history of state preparations (related states, shared and separate circuits, exact and approximate), some interrupted or out of "
        "memory at a chosen repository line, one after another or in pre-empted threads; distinct means a different event log")
COMPONENTS = {"real": ["StatePrep", "micro decision diagrams with their process-wide nodes", "QuantumCircuit and gates"],
              "stub": ["thread scheduling", "interrupts and memory errors at chosen repository lines"]}
ASSUMPTIONS = ["threads interleave at line granularity in repository code", "approximate preparations lose at most one hundredth of the probability"]
SHRINK = ["ops", "threads.points"]
SHAPES = [[2], [3], [4], [7], [2, 2], [2, 3], [3, 2], [3, 3], [2, 4], [4, 2], [5, 2], [2, 2, 2], [2, 3, 2], [3, 2, 2], [2, 2, 3], [3, 3, 2], [4, 3], [2, 6], [6, 2], [3, 4], [2, 2, 2, 2]]
KINDS = ["dense", "dense", "sparse", "sparse", "basis", "real", "uniform", "phase", "prod", "repeat", "steep", "tiny"]


def vector(s, dims):
    n = math.prod(dims)
    g = np.random.RandomState(s["seed"])
    k = s["kind"]
    v = g.normal(size=n) + 1j * g.normal(size=n)
    if k == "sparse":
        v[g.random_sample(n) < 0.6] = 0
    elif k == "basis":
        v = np.zeros(n, complex)
        v[g.randint(n)] = np.exp(1j * g.randint(4) * np.pi / 2)
    elif k == "real":
        v = v.real.astype(complex)
    elif k == "uniform":
        v = np.ones(n, complex)
    elif k == "phase":
        v = np.exp(1j * np.pi / 4 * g.randint(0, 8, n))
    elif k == "prod":
        v = np.ones(1, complex)
        for d in dims:
            v = np.kron(v, g.normal(size=d) + 1j * g.normal(size=d))
    elif k == "repeat":  # equal and almost equal branches, which the reduction merges or must not merge
        d = dims[0]
        b = v[:n // d]
        f = [1, -1, 1j, 0, 1 + 1e-3, np.exp(0.01j)]
        v = np.concatenate([b * f[g.randint(len(f))] for _ in range(d)])
    elif k == "steep":
        v = v * 0.3 ** g.randint(0, 6, n)
    elif k == "tiny":
        v = np.where(g.random_sample(n) < 0.4, v * 0.02, v)
    for m, x in s.get("mod", []):
        i = x % n
        if m == "neg":
            v[i] = -v[i]
        elif m == "zero":
            v[i] = 0
        elif m == "conj":
            v = v.conj()
        elif m == "roll":
            v = np.roll(v, x)
        elif m == "swap":
            v[i], v[-1 - i] = v[-1 - i], v[i]
        elif m == "near":  # almost the state of before
            v = v + [1e-2, 3e-3, 1e-3][x % 3] * np.linalg.norm(v) * (g.normal(size=n) + 1j * g.normal(size=n)) / math.sqrt(n)
        elif m == "phase":
            v[i] *= np.exp(1j * (1 + x % 5))
    if np.linalg.norm(v) < 1e-9:
        v[0] = 1
    return v / np.linalg.norm(v)


def gen(rng, tier, i):
    par = rng.random() < 0.35
    shapes = rng.sample(SHAPES, rng.choice([1, 2, 2, 3]))
    if rng.random() < 0.4:  # the same number of states, other qudits
        n = math.prod(shapes[0])
        shapes = [s for s in SHAPES if math.prod(s) == n][:3]
    ops = []
    for _ in range(rng.randint(2, 5) if not par else rng.randint(2, 4)):
        base = [o for o in ops] and rng.random() < 0.6 and rng.choice(ops)
        if base:
            s = copy.deepcopy(base["state"])
            if rng.random() < 0.8:
                s.setdefault("mod", []).append([rng.choice(["neg", "zero", "conj", "roll", "swap", "phase", "near", "near"]), rng.randrange(40)])
            shape = base["shape"] if rng.random() < 0.6 else rng.randrange(len(shapes))
        else:
            s = {"kind": rng.choice(KINDS), "seed": rng.randrange(10 ** 6)}
            shape = rng.randrange(len(shapes))
        o = {"state": s, "shape": shape, "approx": rng.random() < 0.3, "own": rng.random() < 0.5, "list": rng.random() < 0.15, "set": rng.random() < 0.3}
        f = histories.gen_fault(rng, 0.25, [60, 400, 3000])
        if f:
            o["fault"] = f
        ops.append(o)
    return {"world": {"cost": 0.0}, "par": par, "shapes": shapes, "ops": ops, "threads": histories.gen_threads(rng)}


def execute(plan, ctx):
    from mqt.qudits.compiler.state_compilation.state_preparation import StatePrep
    from mqt.qudits.quantum_circuit import QuantumCircuit

    shapes = plan["shapes"]
    shared = [QuantumCircuit(len(d), list(d), 0) for d in shapes]
    vs = [vector(o["state"], shapes[o["shape"]]) for o in plan["ops"]]
    keep = [v.copy() for v in vs]
    before = [models.circuit_fingerprint(c) for c in shared]

    def act(n):
        o = plan["ops"][n]
        d = shapes[o["shape"]]
        c = QuantumCircuit(len(d), list(d), 0) if o["own"] else shared[o["shape"]]
        if o.get("set"):
            c = QuantumCircuit(len(d), list(d), 0)
            return c.set_initial_state(vs[n].tolist() if o["list"] else vs[n], o["approx"])
        return StatePrep(c, vs[n].tolist() if o["list"] else vs[n], o["approx"]).compile_state()

    def judge(n, c, err, faulty):
        o = plan["ops"][n]
        d = shapes[o["shape"]]
        ctx.probe(("approx" if o["approx"] else "exact") + ("_failed" if err is not None else ""))
        if err is not None:
            if faulty:
                return True
            ctx.violate("preparation-fails", f"preparation {n} of a state of {d} raised {type(err).__name__}: {err}")
            return False
        if list(c.dimensions) != d:
            ctx.violate("dimensions", f"preparation {n} for {d} gives a circuit of {c.dimensions}")
            return False
        st = models.zero_state(d)
        for g in c.instructions:
            e = compiling.entry(g)
            if e is None:
                ctx.violate("gates", f"preparation {n} uses the gate {g.qasm_tag}")
                return False
            cd = g.control_info["controls"]
            if cd is not None and len(cd.indices):
                e["c"] = [list(cd.indices), list(cd.ctrl_states)]
            st = models.apply_gate(st, e, d)
        f = abs(np.vdot(st.ravel(), vs[n])) ** 2
        ctx.event("prepared", n, len(c.instructions), round(float(f), 6))
        if not f >= (0.99 - 1e-6 if o["approx"] else 1 - 1e-9):
            ctx.violate("wrong-state", f"preparation {n} ({'approximate' if o['approx'] else 'exact'}) of a state of {d} reaches fidelity {f}")
            return False
        return True

    def between(n):
        for k, (v, w) in enumerate(zip(vs, keep)):
            if not np.array_equal(v, w):
                ctx.violate("input-changed", f"after preparation {n} the state given to preparation {k} has changed")
                return False
        for k, c in enumerate(shared):
            if models.circuit_fingerprint(c) != before[k]:
                ctx.violate("circuit-changed", f"after preparation {n} the circuit given to it has changed")
                return False
        return True

    histories.execute(plan, ctx, act, judge, between)
