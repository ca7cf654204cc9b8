"""Circuit plans (plain data), their construction through the public API, and an independent reference semantics."""
from __future__ import annotations

import math

import numpy as np

TWOPI = 2 * math.pi
MI_GATES = ("csum", "cx", "h", "r", "rz", "rh", "virtrz", "s", "x", "z")
MI_TAGS = {"csum": "csum", "cx": "cx", "h": "h", "r": "rxy", "rz": "rz", "rh": "rh", "virtrz": "virtrz", "s": "s", "x": "x", "z": "z"}
TAGS = {**MI_TAGS, "ls": "ls", "ms": "ms", "pm": "pm", "cu_one": "cuone", "cu_two": "cutwo", "cu_multi": "cumulti",
        "noisex": "noisex", "noisey": "noisey", "noisez": "virtrz", "randu": "rdu"}
SINGLE = ("h", "x", "z", "s", "r", "rz", "rh", "virtrz", "pm", "cu_one", "noisex", "noisey", "noisez")
PRIMES = (2, 3, 5, 7)


def unitary(n, seed):
    rs = np.random.RandomState(seed)
    q, r = np.linalg.qr(rs.normal(size=(n, n)) + 1j * rs.normal(size=(n, n)))
    d = np.diag(r)
    return q * (d / np.abs(d))


# ---------------------------------------------------------------- generation

def gen_angle(rng):
    k = rng.randrange(10)
    if k < 3:
        return rng.choice([math.pi, math.pi / 2, -math.pi / 2, math.pi / 4, 0.0, 2 * math.pi, -math.pi])
    return round(rng.uniform(-2 * math.pi, 2 * math.pi), rng.choice([2, 6, 15]))


def gen_gate(rng, dims, allowed, ctrl=0.0, dag=0.0, order=True, sorted_levels=False):
    n = len(dims)
    for _ in range(50):
        g = rng.choice(allowed)
        e = {"g": g}
        if g in SINGLE:
            q = rng.randrange(n)
            d = dims[q]
            e["q"] = q
            if g == "s" and d not in PRIMES:
                continue
            if g in ("r", "rz", "rh", "noisex", "noisey"):
                a, b = rng.sample(range(d), 2)
                if sorted_levels and a > b:
                    a, b = b, a
                e["p"] = [a, b] + {"r": [gen_angle(rng), gen_angle(rng)], "rz": [gen_angle(rng)]}.get(g, [])
            elif g == "virtrz":
                e["p"] = [rng.randrange(d), gen_angle(rng)]
            elif g == "noisez":
                e["p"] = rng.randrange(d)
            elif g == "pm":
                p = list(range(d))
                rng.shuffle(p)
                e["p"] = p
            elif g == "cu_one":
                e["p"] = {"mat": [d, rng.randrange(1000)]}
            if n > 1 and ctrl and rng.random() < ctrl and g not in ("pm",):
                others = [i for i in range(n) if i != q]
                idx = rng.sample(others, rng.randint(1, min(2, len(others))))
                e["c"] = [idx, [rng.randrange(dims[i]) for i in idx]]
        elif g in ("csum", "cx", "ls", "ms", "cu_two", "randu"):
            if n < 2:
                continue
            a, b = rng.sample(range(n), 2)
            if g in ("ls", "ms", "cu_two", "randu") or not order:
                a, b = min(a, b), max(a, b)
            e["q"] = [a, b]
            if g == "cx":
                la, lb = sorted(rng.sample(range(dims[b]), 2))
                if rng.random() < 0.25 and dims[a] > 1:
                    e["p"] = None
                else:
                    e["p"] = [la, lb, rng.randrange(dims[a]), rng.choice([0.0, math.pi / 2, math.pi, round(rng.uniform(0, TWOPI), 6)])]
            elif g in ("ls", "ms"):
                e["p"] = [round(rng.uniform(0, TWOPI), 6)]
            elif g == "cu_two":
                e["p"] = {"mat": [dims[a] * dims[b], rng.randrange(1000)]}
        elif g == "cu_multi":
            if n < 3:
                continue
            qs = sorted(rng.sample(range(n), 3))
            m = dims[qs[0]] * dims[qs[1]] * dims[qs[2]]
            if m > 64:
                continue
            e["q"] = qs
            e["p"] = {"mat": [m, rng.randrange(1000)]}
        if dag and rng.random() < dag and g not in ("cu_multi",):
            e["dag"] = True
        if e.get("c") and rng.random() < 0.3:
            e["via"] = "method"
        return e
    return {"g": "x", "q": 0}


def gen_dims(rng, nmax=3, dmax=4, total=36, nmin=1):
    while True:
        n = rng.randint(nmin, nmax)
        dims = [rng.randint(2, dmax) for _ in range(n)]
        if math.prod(dims) <= total:
            return dims


def gen_circuit(rng, dims, n_gates, allowed, **kw):
    return {"dims": list(dims), "gates": [gen_gate(rng, dims, allowed, **kw) for _ in range(n_gates)]}


# ---------------------------------------------------------------- construction

def param(p):
    if isinstance(p, dict):
        return unitary(*p["mat"])
    return list(p) if isinstance(p, (list, tuple)) else p


def add_gate(c, e):
    from mqt.qudits.quantum_circuit.components.extensions.controls import ControlData

    f = getattr(c, e["g"])
    q = list(e["q"]) if isinstance(e["q"], list) else e["q"]
    args = [q]
    if e["g"] == "cx":
        if e.get("p") is not None:
            args.append(list(e["p"]))
    elif "p" in e:
        args.append(param(e["p"]))
    by_method = e.get("via") == "method"
    if e.get("c") and not by_method:
        args.append(ControlData(list(e["c"][0]), list(e["c"][1])))
    g = f(*args)
    if e.get("c") and by_method:
        g = g.control(list(e["c"][0]), list(e["c"][1]))
    if e.get("dag"):
        g = g.dag()
    return g


def build(plan):
    from mqt.qudits.quantum_circuit import QuantumCircuit, QuantumRegister

    if plan.get("regs"):
        c = QuantumCircuit()
        k = 0
        for name, n in plan["regs"]:
            c.append(QuantumRegister(name, n, list(plan["dims"][k:k + n])))
            k += n
    else:
        c = QuantumCircuit(len(plan["dims"]), list(plan["dims"]), 0)
    for e in plan["gates"]:
        add_gate(c, e)
    return c


# ---------------------------------------------------------------- reference semantics

def base_matrix(e, dims):
    """The gate on its own target qudits, in the order of e["q"], control and inverse not applied."""
    g, q = e["g"], e["q"]
    if isinstance(q, int):
        d = dims[q]
        if g == "h":
            j = np.arange(d)
            return np.exp(2j * np.pi * np.outer(j, j) / d) / math.sqrt(d)
        if g == "x":
            m = np.zeros((d, d), complex)
            for i in range(d):
                m[(i + 1) % d, i] = 1
            return m
        if g == "z":
            return np.diag(np.exp(2j * np.pi * np.arange(d) / d))
        if g == "s":
            if d == 2:
                return np.diag([1, 1j]).astype(complex)
            return np.diag([np.exp(2j * np.pi * ((i * (i + 1) // 2) % d) / d) for i in range(d)])
        if g in ("r", "rz", "rh", "noisex", "noisey"):
            a, b = sorted(e["p"][:2])
            m = np.eye(d, dtype=complex)
            if g == "r":
                th, ph = e["p"][2], e["p"][3]
                m[a, a] = m[b, b] = math.cos(th / 2)
                m[a, b] = -1j * math.sin(th / 2) * np.exp(-1j * ph)
                m[b, a] = -1j * math.sin(th / 2) * np.exp(1j * ph)
            elif g == "rz":
                m[a, a] = np.exp(-0.5j * e["p"][2])
                m[b, b] = np.exp(0.5j * e["p"][2])
            elif g == "rh":
                s = 1 / math.sqrt(2)
                # R(-pi, 0) . R(pi/2, pi/2)
                m[np.ix_([a, b], [a, b])] = np.array([[0, 1j], [1j, 0]]) @ np.array([[s, -s], [s, s]])
            else:
                m[a, a] = m[b, b] = 0
                m[a, b], m[b, a] = (1, 1) if g == "noisex" else (-1j, 1j)
            return m
        if g in ("virtrz", "noisez"):
            lev, ph = e["p"] if g == "virtrz" else (e["p"], math.pi)
            m = np.eye(d, dtype=complex)
            m[lev, lev] = np.exp(-1j * ph)
            return m
        if g == "pm":
            return np.eye(d, dtype=complex)[:, e["p"]]
        if g == "cu_one":
            return param(e["p"])
        raise ValueError(g)
    ds = [dims[i] for i in q]
    n = math.prod(ds)
    if g == "csum":
        m = np.zeros((n, n), complex)
        for i in range(ds[0]):
            for j in range(ds[1]):
                m[i * ds[1] + (j + i) % ds[1], i * ds[1] + j] = 1
        return m
    if g == "cx":
        a, b, lev, ph = e["p"] if e.get("p") is not None else (0, 1, 1, 0.0)
        m = np.eye(n, dtype=complex)
        o = lev * ds[1]
        m[o + a, o + a] = m[o + b, o + b] = 0
        m[o + a, o + b] = -1j * math.cos(ph) - math.sin(ph)
        m[o + b, o + a] = -1j * math.cos(ph) + math.sin(ph)
        return m
    if g == "ls":
        m = np.eye(n, dtype=complex)
        for i in range(min(ds)):
            k = i * ds[1] + i
            m[k, k] = np.exp(-1j * e["p"][0])
        return m
    if g == "ms":
        s0, s1 = (np.zeros((d, d), complex) for d in ds)
        s0[0, 1] = s0[1, 0] = s1[0, 1] = s1[1, 0] = 1
        a = np.kron(np.eye(ds[0]), s1) + np.kron(s0, np.eye(ds[1]))
        w, v = np.linalg.eigh(a @ a)
        return (v * np.exp(-1j * e["p"][0] / 4 * w)) @ v.conj().T
    if g in ("cu_two", "cu_multi"):
        return param(e["p"])
    raise ValueError(g)


def apply_matrix(st, m, lines, dims, ctrl=None):
    td = [dims[i] for i in lines]
    k = len(lines)
    t = np.tensordot(m.reshape(td + td), st, axes=(list(range(k, 2 * k)), list(lines)))
    new = np.moveaxis(t, list(range(k)), list(lines))
    if not ctrl:
        return new
    idx = [slice(None)] * st.ndim
    for q, lev in zip(*ctrl):
        idx[q] = lev
    out = st.copy()
    out[tuple(idx)] = new[tuple(idx)]
    return out


def gate_matrix(e, dims):
    m = base_matrix(e, dims)
    return m.conj().T if e.get("dag") else m


def apply_gate(st, e, dims):
    lines = [e["q"]] if isinstance(e["q"], int) else e["q"]
    return apply_matrix(st, gate_matrix(e, dims), lines, dims, e.get("c"))


def zero_state(dims):
    st = np.zeros(dims, complex)
    st[(0,) * len(dims)] = 1
    return st


def state(plan):
    st = zero_state(plan["dims"])
    for e in plan["gates"]:
        st = apply_gate(st, e, plan["dims"])
    return st.ravel()


def full_unitary(plan):
    dims = plan["dims"]
    n = math.prod(dims)
    cols = []
    for k in range(n):
        st = np.zeros(n, complex)
        st[k] = 1
        st = st.reshape(dims)
        for e in plan["gates"]:
            st = apply_gate(st, e, dims)
        cols.append(st.ravel())
    return np.array(cols).T


# ---------------------------------------------------------------- observation of real circuits (public surface)

def gate_fingerprint(g):
    info = g.control_info
    p = info["params"]
    if isinstance(p, np.ndarray):
        p = [p.shape, p.dtype.str, p.tobytes().hex()[:4000]]
    elif p is not None:
        p = [repr(x) for x in p] if isinstance(p, (list, tuple)) else repr(p)
    cd = info["controls"]
    return [type(g).__name__, g.qasm_tag, repr(g.gate_type), repr(g.target_qudits), repr(g.dimensions), p,
            None if cd is None else [list(cd.indices), list(cd.ctrl_states)], bool(g.dagger), bool(g.is_long_range),
            repr(getattr(g, "lev_a", None)), repr(getattr(g, "lev_b", None)), repr(getattr(g, "theta", None)), repr(getattr(g, "phi", None))]


def gen_regs(rng, n):
    """Named registers for n qudits, or None for the default one."""
    x = rng.random()
    if x < 0.3:
        return [[rng.choice(["reg", "q", "Alice_1", "ctl", "qreg", "pi", "h"]), n]]
    if x < 0.6 and n > 1:
        k = rng.randint(1, n - 1)
        a, b = rng.choice([("field", "matter"), ("field", "matter"), ("q1", "q"), ("q", "q1"), ("a", "A"), ("reg_1", "reg_10"), ("dit", "it"), ("x0", "0x")])
        return [[a, k], [b, n - k]]
    if x < 0.7 and n > 2:
        return [["b", 1], ["a", n - 2], ["ab", 1]]
    return None


def circuit_fingerprint(c):
    return {"dims": list(c.dimensions), "n": c.num_qudits, "num_cl": c.num_cl, "number_gates": c.number_gates,
            "mappings": repr(c.mappings),
            "qregs": [[str(r.label), r.size, list(r.dimensions), repr(r.local_sitemap)] for r in c.quantum_registers],
            "cregs": [[str(r.label), r.size] for r in c.classic_registers],
            "sitemap": repr(c.sitemap), "inv": repr(c.inverse_sitemap), "clmap": repr(c.classic_site_map),
            "ids": [id(g) for g in c.instructions],
            "parents": [id(getattr(g, "parent_circuit", None)) for g in c.instructions],
            "gates": [gate_fingerprint(g) for g in c.instructions]}


def close(a, b, tol=1e-7):
    a, b = np.asarray(a).ravel(), np.asarray(b).ravel()
    return a.shape == b.shape and bool(np.all(np.isfinite(a))) and float(np.max(np.abs(a - b), initial=0.0)) <= tol


def same_up_to_phase(a, b, tol=1e-7):
    """Two unitaries (or states) equal up to a global phase."""
    a, b = np.asarray(a).ravel(), np.asarray(b).ravel()
    if a.shape != b.shape or not np.all(np.isfinite(a)):
        return False
    k = int(np.argmax(np.abs(b)))
    if abs(a[k]) < 1e-12:
        return False
    ph = b[k] / a[k]
    if abs(abs(ph) - 1) > tol * 10:
        return False
    return float(np.max(np.abs(a * ph - b))) <= tol
