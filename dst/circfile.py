"""Saving and loading circuits: generation, comparison."""
from __future__ import annotations

import math

import numpy as np

from . import models

GATES = [*models.SINGLE, "csum", "cx", "ls", "ms", "cu_two", "cu_multi"]
DIRS = ["d", "a b", "p(1)", "pi", "x.npy", "deep/er", "q[0]", "1;2", "ctl"]


def gen(rng, n_gates=None, custom=0.5):
    dims = models.gen_dims(rng, 3, 4, 36)
    if rng.random() < 0.12:  # levels with two digits
        dims = rng.choice([[11, 2], [2, 13], [12, 3], [14], [2, 11, 3], [21, 2]])
    allowed = GATES
    if rng.random() < custom:
        allowed = [*GATES, "cu_one", "cu_one", "cu_two", "cu_multi"]
    plan = models.gen_circuit(rng, dims, rng.randint(0, 7) if n_gates is None else n_gates, allowed, ctrl=0.3, dag=0.25)
    regs = models.gen_regs(rng, len(dims))
    if regs:
        plan["regs"] = regs
    return plan


def _num(p):
    if p is None:
        return ("none",)
    if isinstance(p, np.ndarray):
        return ("matrix", p)
    if isinstance(p, (list, tuple)):
        if len(p) == 0:
            return ("none",)
        return ("list", [x if isinstance(x, str) else float(x) for x in p])
    return ("value", p)


def _same_params(a, b):
    a, b = _num(a), _num(b)
    if a[0] != b[0]:
        return False
    if a[0] == "none":
        return True
    if a[0] == "matrix":
        return a[1].shape == b[1].shape and bool(np.all(a[1] == b[1]))
    if a[0] == "list":
        return len(a[1]) == len(b[1]) and all(x == y if isinstance(x, str) or isinstance(y, str) else abs(x - y) <= 1e-12 * max(1.0, abs(x))
                                              for x, y in zip(a[1], b[1]))
    return a[1] == b[1]


def _ints(x):
    return [int(v) for v in x] if isinstance(x, (list, tuple)) else int(x)


def differ(a, b):
    """The first difference between circuit a and its reloaded twin b, or None."""
    if list(a.dimensions) != list(b.dimensions):
        return f"dimensions {a.dimensions} became {b.dimensions}"
    ra = [[str(r.label), r.size, list(r.dimensions)] for r in a.quantum_registers]
    rb = [[str(r.label), r.size, list(r.dimensions)] for r in b.quantum_registers]
    if ra != rb:
        return f"registers {ra} became {rb}"
    if len(a.instructions) != len(b.instructions):
        return f"{len(a.instructions)} gates became {len(b.instructions)}"
    for i, (g, h) in enumerate(zip(a.instructions, b.instructions)):
        w = f"gate {i} ({g.qasm_tag})"
        if type(g) is not type(h) or g.qasm_tag != h.qasm_tag:
            return f"{w} became a {type(h).__name__}"
        if _ints(g.target_qudits) != _ints(h.target_qudits):
            return f"{w}: targets {g.target_qudits} became {h.target_qudits}"
        if bool(g.dagger) != bool(h.dagger):
            return f"{w}: inverse flag {g.dagger} became {h.dagger}"
        if not _same_params(g.control_info["params"], h.control_info["params"]):
            return f"{w}: parameters {g.control_info['params']} became {h.control_info['params']}"
        ca, cb = g.control_info["controls"], h.control_info["controls"]
        if (ca is None) != (cb is None) or (ca is not None and ([*ca.indices], [*ca.ctrl_states]) != ([*cb.indices], [*cb.ctrl_states])):
            return f"{w}: controls {ca} became {cb}"
        if g.gate_type != h.gate_type:
            return f"{w}: gate type {g.gate_type} became {h.gate_type}"
        for k in ("lev_a", "lev_b", "theta", "phi"):
            if abs(float(getattr(g, k)) - float(getattr(h, k))) > 1e-9:
                return f"{w}: {k} {getattr(g, k)} became {getattr(h, k)}"
    return None


def load(path, into=None):
    from mqt.qudits.quantum_circuit import QuantumCircuit

    c = QuantumCircuit() if into is None else into
    c.load_from_file(path)
    return c


def used_circuit(kind):
    """A circuit that was used for something else before it is loaded into."""
    from mqt.qudits.quantum_circuit import QuantumCircuit, QuantumRegister
    from mqt.qudits.quantum_circuit.components.classic_register import ClassicRegister

    if kind == "gates":
        c = QuantumCircuit(2, [3, 2], 0)
        c.h(0)
        c.csum([0, 1])
    elif kind == "registers":
        c = QuantumCircuit(QuantumRegister("q", 2, [2, 5]))
        c.append(QuantumRegister("z", 1, [4]))
        c.append_classic(ClassicRegister("meas", 3))
        c.x(2)
    elif kind == "mapped":
        c = QuantumCircuit(2, [3, 3], 0)
        c.x(0)
        c.set_mapping([[1, 0, 2], [2, 1, 0]])
    else:
        from mqt.qudits.simulation import MQTQuditProvider

        c = QuantumCircuit(2, [3, 3], 0)
        c.r(0, [0, 2, 1.0, 0.5])
        c = c.compileO1("faketraps2trits") if kind == "O1" else c.compileO0("faketraps2trits")
        MQTQuditProvider().get_backend("tnsim").run(c)
    return c


DERIVED = ["copy", "taken-over", "noisy", "zprop", "zrem", "resynth", "locqr", "logqr", "logent", "O0", "O1"]


def gen_derived(rng):
    """A circuit that comes from another one: how, and from which."""
    how = rng.choice(DERIVED)
    if how in ("copy", "taken-over", "noisy"):
        return how, gen(rng, rng.randint(1, 5))
    c = models.gen_circuit(rng, [3] * rng.choice([1, 2, 2]), rng.randint(1, 4),
                           ["h", "x", "z", "r", "rz", "rh", "virtrz", "cu_one", "cu_one", "csum"] + ([] if how in ("logent", "O0", "O1") else ["cu_two"] * 4), dag=0.25)
    return how, c


def derive(how, plan, ctx=None):
    """The circuit and, for a plain change of place, the plan it fulfils, or None."""
    from mqt.qudits.compiler.naive_local_resynth import NaiveLocResynthOptPass
    from mqt.qudits.compiler.onedit import LogLocQRPass, PhyLocQRPass, ZPropagationOptPass, ZRemovalOptPass
    from mqt.qudits.compiler.twodit import LogEntQRCEXPass
    from mqt.qudits.quantum_circuit import QuantumCircuit, QuantumRegister
    from mqt.qudits.simulation import MQTQuditProvider
    from mqt.qudits.simulation.noise_tools import Noise, NoiseModel, NoisyCircuitFactory

    c = models.build(plan)
    if how == "copy":
        return c.copy()
    if how == "taken-over":
        dims = list(c.dimensions)
        d = QuantumCircuit(QuantumRegister("other", 1, dims[:1]))
        if dims[1:]:
            d.append(QuantumRegister("q", len(dims) - 1, dims[1:]))
        d.set_instructions(c.instructions)
        return d
    if how == "noisy":
        nm = NoiseModel()
        nm.add_quantum_error_locally(Noise(0.5, 0.5), sorted(set(models.TAGS.values())))
        return NoisyCircuitFactory(nm, c).generate_circuit()
    if how in ("O0", "O1"):
        return getattr(c, "compile" + how)("faketraps2trits")
    p = {"zprop": ZPropagationOptPass, "zrem": ZRemovalOptPass, "resynth": NaiveLocResynthOptPass, "locqr": PhyLocQRPass, "logqr": LogLocQRPass, "logent": LogEntQRCEXPass}[how]
    return p(MQTQuditProvider().get_backend("faketraps2trits")).transpile(c)


def check_loads(path, plan, into=None, again=None):
    """None, or what is wrong with the circuit file at path, which should hold the circuit of plan, or that circuit itself."""
    try:
        got = load(path, into)
        if again:
            got = load(got.save_to_file(*again))
    except Exception as e:  # noqa: BLE001
        return f"loading raises {type(e).__name__}: {e}"
    want = models.build(plan) if isinstance(plan, dict) else plan
    d = differ(want, got)
    if d:
        return d
    if got.mappings is not None:
        return f"the loaded circuit has the final mapping {got.mappings}"
    if not isinstance(plan, dict):
        if plan.instructions and math.prod(plan.dimensions) <= 36 and not models.close(got.simulate(), plan.simulate(), 1e-7):
            return "the loaded circuit prepares another state"
    elif plan["gates"]:
        st = got.simulate()
        if not models.close(st, models.state(plan), 1e-7):
            return "the loaded circuit prepares another state"
    return None
