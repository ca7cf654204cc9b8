"""Noise-model plans, their construction through the public API, and the reference law of noisy runs."""
from __future__ import annotations

import itertools
import math

import numpy as np

from . import models

MODES = {"local": "add_quantum_error_locally", "all": "add_all_qudit_quantum_error", "nonlocal": "add_nonlocal_quantum_error",
         "control": "add_nonlocal_quantum_error_on_control", "target": "add_nonlocal_quantum_error_on_target"}
LEVELLED = ("rxy", "rz", "rh", "cx")


def tag(e):
    return models.TAGS[e["g"]]


def lines(e):
    q = [e["q"]] if isinstance(e["q"], int) else list(e["q"])
    return (list(e["c"][0]) if e.get("c") else []) + q


def kind(e):
    n = len(lines(e))
    return {1: "SINGLE", 2: "TWO"}.get(n, "MULTI")


def affected(e, mode, n):
    ls = lines(e)
    if mode == "all":
        return list(range(n))
    if mode in ("local", "nonlocal"):
        return ls
    if mode == "control":
        return ls[:1]
    if kind(e) == "SINGLE":
        return ls
    return ls[max(1, len(e["c"][0]) if e.get("c") else 0):]


def compatible(e, mode):
    if mode == "nonlocal":
        return kind(e) != "SINGLE"
    if mode == "control":
        return kind(e) == "TWO"
    return True


def gate_levels(e):
    if e["g"] == "cx":
        p = e.get("p") or [0, 1]
        return tuple(sorted(p[:2]))
    return tuple(sorted(e["p"][:2]))


def _ok(ent, plan, backend):
    """Every gate the entry names can carry it."""
    dims = plan["dims"]
    n = len(dims)
    for e in plan["gates"]:
        if tag(e) not in ent["gates"]:
            continue
        if not compatible(e, ent["mode"]):
            return False
        qs = affected(e, ent["mode"], n)
        if backend == "misim":
            if e["g"] in ("r", "rz"):
                if max(e["p"][:2]) >= min(dims[q] for q in qs):
                    return False
            if e["g"] == "virtrz" and (e["p"][0] + 1 >= min(dims[q] for q in qs) and len(set(dims[q] for q in qs)) > 1):
                return False
        if ent["kind"] == "sub":
            lv = ent["levels"] or ([gate_levels(e)] if tag(e) in LEVELLED else None)
            if lv is None:
                return False
            if max(max(x) for x in lv) >= min(dims[q] for q in qs):
                return False
    return True


def gen_noise(rng, plan, backend, n_max=3, strong=0.5, probs=None, kinds=("math", "sub"), overlap=False):
    """A list of noise entries every gate of the plan's circuit can carry."""
    tags = sorted({tag(e) for e in plan["gates"]})
    out, used = [], set()
    want = rng.randint(1, n_max)
    for _ in range(60):
        if len(out) >= want:
            break
        if tags and rng.random() < 0.95:
            gs = rng.sample(tags, rng.randint(1, len(tags)))
        else:
            gs = ["ms"]
        if rng.random() < 0.2:
            gs.append(rng.choice(["no_such_gate", "cumulti"]))
            gs = list(dict.fromkeys(gs))
        mode = rng.choice(["local", "local", "all", "nonlocal", "control", "target"])
        k = rng.choice(kinds) if backend != "misim" else "math"

        def pr():
            if probs:
                return rng.choice(probs)
            x = rng.random()
            if x < 0.15:
                return 0.0
            if x < 0.3:
                return 1.0 if k == "math" or rng.random() < 0.5 else 0.5
            return round(rng.uniform(0, 1) if rng.random() < strong else rng.uniform(0, 0.1), rng.choice([1, 2, 4]))

        ent = {"gates": gs, "mode": mode, "kind": k, "p": pr(), "q": pr()}
        if k == "sub":
            dmin = min(plan["dims"])
            x = rng.random()
            if x < 0.3:
                ent["levels"] = []
            else:
                pairs = list(itertools.combinations(range(dmin), 2))
                rng.shuffle(pairs)
                sel = []
                for a in pairs:
                    if all(overlap or not set(a) & set(b) for b in sel) and len(sel) < rng.randint(1, 3):
                        sel.append(a)
                ent["levels"] = [list(a) if rng.random() < 0.7 else list(reversed(a)) for a in sel]
        if any((g, mode) in used for g in gs):
            continue
        if not _ok(ent, plan, backend):
            continue
        used |= {(g, mode) for g in gs}
        out.append(ent)
    return out


def build(plan):
    from mqt.qudits.simulation.noise_tools import Noise, NoiseModel, SubspaceNoise

    nm = NoiseModel()
    for e in plan:
        if e["kind"] == "math":
            nz = Noise(e["p"], e["q"])
        else:
            lv = [tuple(x) for x in e["levels"]]
            nz = SubspaceNoise(e["p"], e["q"], lv[0] if len(lv) == 1 else lv)
        getattr(nm, MODES[e["mode"]])(nz, list(e["gates"]))
    return nm


def fingerprint(nm):
    out = []
    for g, m in nm.quantum_errors.items():
        for mode, nz in m.items():
            if hasattr(nz, "subspace_w_probs"):
                v = [[list(k), x.probability_depolarizing, x.probability_dephasing, id(x)] for k, x in nz.subspace_w_probs.items()]
            else:
                v = [nz.probability_depolarizing, nz.probability_dephasing]
            out.append([g, mode, type(nz).__name__, id(nz), v])
    return out


# ---------------------------------------------------------------- the declared law

def draws(e, noise, dims, backend):
    """The independent random draws after gate e: each a list of (probability, [operations])."""
    n = len(dims)
    out = []
    for ent in noise:
        for g in ent["gates"]:
            if g != tag(e):
                continue
            qs = affected(e, ent["mode"], n)
            if backend == "misim":
                out += _mi_draws(e, ent, qs, dims)
            elif ent["kind"] == "math":
                for q in qs:
                    d = dims[q]
                    pe = ent["p"] / d / d
                    alts = [(1 - pe * (d * d - 1), [])]
                    for a in range(d):
                        for b in range(d):
                            if a or b:
                                alts.append((pe, [{"g": "x", "q": q}] * a + [{"g": "z", "q": q}] * b))
                    out.append(alts)
            else:
                lv = [tuple(sorted(x)) for x in ent["levels"]] or [gate_levels(e)]
                for q in qs:
                    for a, b in lv:
                        pe = ent["p"] / 4
                        out.append([(1 - 3 * pe, []), (pe, [{"g": "noisex", "q": q, "p": [a, b]}]),
                                    (pe, [{"g": "noisez", "q": q, "p": b}]), (pe, [{"g": "noisey", "q": q, "p": [a, b]}])])
                for q in qs:
                    for a, b in lv:
                        for lev in range(dims[q]):
                            if lev not in (a, b):
                                out.append([(1 - ent["q"], []), (ent["q"], [{"g": "noisez", "q": q, "p": lev}])])
    return [[(p, o) for p, o in alts if p > 0 or not o] for alts in out]


def _mi_draws(e, ent, qs, dims):
    xs, zs = [], []
    for q in qs:
        if tag(e) in ("rxy", "rz", "virtrz"):
            if tag(e) == "virtrz":
                a = e["p"][0]
                a, b = (a, a + 1) if a != dims[q] - 1 else (dims[q] - 2, dims[q] - 1)
            else:
                a, b = e["p"][:2]
            xs.append({"g": "r", "q": q, "p": [a, b, math.pi, math.pi / 2]})
            zs.append({"g": "rz", "q": q, "p": [a, b, math.pi]})
        else:
            xs.append({"g": "x", "q": q})
            zs.append({"g": "z", "q": q})
    return [[(1 - ent["p"], []), (ent["p"], xs)], [(1 - ent["q"], []), (ent["q"], zs)]]


def all_draws(plan, noise, backend):
    return [draws(e, noise, plan["dims"], backend) for e in plan["gates"]]


def _apply_rho(rho, e, dims):
    """rho: tensor dims+dims."""
    n = len(dims)
    m = models.gate_matrix(e, dims)
    ls = [e["q"]] if isinstance(e["q"], int) else e["q"]
    c = e.get("c")
    rho = models.apply_matrix(rho, m, ls, list(dims) * 2, c)
    c2 = [[i + n for i in c[0]], c[1]] if c else None
    return models.apply_matrix(rho, m.conj(), [q + n for q in ls], list(dims) * 2, c2)


def density(plan, noise, backend):
    dims = plan["dims"]
    st = models.zero_state(dims)
    rho = np.multiply.outer(st, st.conj())
    for e in plan["gates"]:
        rho = _apply_rho(rho, e, dims)
        for alts in draws(e, noise, dims, backend):
            new = 0
            for p, ops in alts:
                r = rho
                for o in ops:
                    r = _apply_rho(r, o, dims)
                new = new + p * r
            rho = new
    n = math.prod(dims)
    return rho.reshape(n, n)


def collision(plan, noise, backend):
    """Probability that two independent shots draw the same noise everywhere."""
    s = 1.0
    for g in all_draws(plan, noise, backend):
        for alts in g:
            s *= sum(p * p for p, _ in alts)
    return s
