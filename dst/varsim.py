"""Variational compilations with a scripted optimiser on virtual time, alone, one after another or in several threads."""
from __future__ import annotations

import threading

import numpy as np

from . import models
from . import threads as simthreads
from .core import stream

DIMS = [[2, 2], [2, 2], [2, 3], [3, 2], [3, 3], [2, 4]]
ERRORS = {"ValueError": ValueError, "RuntimeError": RuntimeError, "MemoryError": MemoryError, "FloatingPointError": FloatingPointError,
          "LinAlgError": np.linalg.LinAlgError, "OSError": OSError, "SystemExit": SystemExit}


def allowance(dims):
    return 3600.0 * dims[0] * dims[1] / 4


def layers_of(bounds, dims):
    k = dims[0] ** 2 + dims[1] ** 2 - 2
    n, r = divmod(len(bounds), k)
    return n - 2 if r == 0 else None


# ---------------------------------------------------------------- generation

def gen_script(rng, dims, p_fail=0.15, p_slow=0.25, p_hit=0.85):
    a = allowance(dims)
    steps = []
    for _ in range(rng.randint(0, 3)):
        steps.append([rng.choice([0.0, 0.01, 1.0, a * 0.1, a * 0.2]), rng.choice(["rand", "rand", "near"])])
    x = rng.random()
    if x < p_fail:
        return {"steps": steps, "end": "raise", "error": rng.choice(list(ERRORS)), "delay": 1.0}
    if x < p_fail + p_slow * 0.3:
        return {"steps": steps, "end": "hover", "delay": rng.choice([a * 0.3, a * 0.45, a * 0.9]), "above": rng.choice([1.6, 2.0, 10.0, 100.0])}
    if x < p_fail + p_slow:
        return {"steps": steps, "end": "forever", "delay": rng.choice([a * 0.3, a * 0.45, a * 0.9, a * 2, a * 10, a * 1000])}
    if rng.random() < p_hit:
        steps.append([rng.choice([0.0, 1.0, a * 0.2, a * 0.3]), "hit"])
    if rng.random() < 0.3:
        steps.append([rng.choice([0.0, a * 3]), rng.choice(["rand", "hit"])])
    return {"steps": steps, "end": "return" if rng.random() < 0.8 else "forever", "delay": a * rng.choice([0.4, 2])}


def related(rng, ops):
    """Give the compilations of a history the same kind of ansatz and mirrored dimensions: what one leaves behind fits the next best."""
    if rng.random() < 0.35:
        a, b = rng.choice([[2, 3], [2, 3], [2, 4], [2, 2]]), rng.choice(["MS", "LS", "CU"])
        for o in ops:
            if o["op"] != "compile":
                continue
            dims = list(reversed(a)) if rng.random() < 0.5 else list(a)
            o.update(dims=dims, ansatz=b)
            if a == [2, 4]:
                o["layers"] = min(o["layers"], 3)
                o["lstar"] = min(o["lstar"], o["layers"])
            if rng.random() < 0.6:
                o["lstar"] = o["layers"] // 2
                o["other"] = False
    return ops


def gen_compile(rng, dims=None, p_kbd=0.0, **kw):
    dims = dims or rng.choice(DIMS)
    layers = rng.choice([0, 1, 1, 2, 2, 3, 4, 5, 7])
    lstar = layers // 2 if rng.random() < 0.6 else rng.randint(0, layers)
    if dims == [3, 3] or dims == [2, 4]:
        layers = min(layers, 3)
        lstar = min(lstar, layers)
    o = {"op": "compile", "dims": list(dims), "ansatz": rng.choice(["MS", "LS", "LS", "CU"]), "layers": layers, "lstar": lstar,
         "tol": rng.choice([1e-2, 1e-4, 1e-4, 1e-6, 0.05]), "xseed": rng.randrange(1 << 20), "prim": rng.choice(["csum", "cx", "cu_two"]),
         "scripts": [gen_script(rng, dims, **kw) for _ in range(4)], "gap": rng.choice([0.0, 0.0, 1.0, 500.0, 4000.0]),
         "other": rng.random() < 0.3}
    x = rng.random()
    if p_kbd and rng.random() < p_kbd:
        if rng.random() < 0.7:
            a = allowance(dims)
            o["kbd"] = rng.choice([0.0, 0.005, 0.5, 1.0, a * 0.05, a * 0.25, a * 0.5, a * 1.2]) * rng.choice([1.0, rng.random()])
        else:
            o["kbd_line"] = rng.choice([rng.randint(1, 60), rng.randint(1, 3000)])
    if x < 0.03:
        o["bad"] = rng.choice(["no-primitive", "ansatz", "layers"])
    return o


# ---------------------------------------------------------------- execution

class Op:
    def __init__(self, i, spec):
        self.i, self.spec = i, spec
        self.calls = []
        self.bad = []  # (sig, message)
        self.out = None
        self.err = None
        self.circ = None
        self.t0 = self.t1 = None
        self.thread = None


class Sim:
    def __init__(self, ctx, plan):
        self.ctx, self.plan = ctx, plan
        self.w = ctx.world
        self.ops = {}
        self.sched = simthreads.Scheduler(ctx, {"line_cost": 1e-6, "max_lines": 6_000_000, **plan.get("threads", {})})
        self.sched.adopt_main()
        self.sched.install()
        self.real = None

    def install(self):
        import scipy.optimize as so

        from .world import rebind

        from mqt.qudits.compiler.twodit.variational_twodit_compilation import layered_compilation  # noqa: F401

        real = so.dual_annealing
        self.real = real
        rebind([(real, self.anneal)])
        so.dual_annealing = self.anneal

    def op_of_thread(self):
        t = self.sched.me()
        while t is not None:
            if t in self.ops:
                return self.ops[t]
            t = t.parent
        return None

    # the scripted optimiser: evaluates the real objective where and when the script says
    def anneal(self, func, bounds, *args, **kw):
        op = self.op_of_thread()
        if op is None:
            raise RuntimeError("the optimiser was called by a thread the harness did not start")
        s = op.spec
        if s.get("real"):
            op.calls.append({"n": layers_of(bounds, s["dims"]), "t0": self.w.now, "found": False, "script": None, "max_delay": 0.0, "raised": None, "late": False})
            return self.real(func, bounds, *args, **{**kw, "maxiter": s["real"]})
        n = layers_of(bounds, s["dims"])
        k = len(op.calls)
        sc = s["scripts"][k % len(s["scripts"])]
        call = {"n": n, "t0": self.w.now, "found": False, "script": sc, "max_delay": 0.0, "raised": None, "late": False, "missed": False}
        op.calls.append(call)
        self.ctx.event("anneal", op.i, k, n)
        rng = np.random.RandomState((s["xseed"] + 77 * k) % (1 << 31))
        lo, hi = np.array([b[0] for b in bounds], float), np.array([b[1] for b in bounds], float)
        best = [np.inf, (lo + hi) / 2]

        def ev(delay, kind):
            call["max_delay"] = max(call["max_delay"], delay)
            if delay:
                self.w.sleep(delay)
                if delay > 100:
                    self.ctx.fault("slow_evaluation")
            x = lo + (hi - lo) * rng.rand(len(lo))
            exact = False
            if isinstance(kind, tuple):
                x, kind = kind[1], "at"
            if kind in ("hit", "near") and n == s["lstar"] and op.xstar is not None and len(op.xstar) == len(lo):
                x = np.array(op.xstar) + (0.0 if kind == "hit" else 0.5 * (rng.rand(len(lo)) - 0.5))
                exact = kind == "hit"
            t = self.w.now - call["t0"]
            try:
                v = float(func(x))
            except TimeoutError:
                call["late"] = True
                self.ctx.event("timeout", op.i, k, round(t, 3))
                if not op.thread.kbd_hit and t < allowance(s["dims"]) - 1.0:
                    op.bad.append(("timeout-early", f"the search of {n} layers was given up after {t:.1f} s although {allowance(s['dims'])} s are allowed"))
                raise
            except BaseException as e:
                if type(e).__name__ == "FidelityReachError":
                    call["found"] = True
                    self.ctx.event("found", op.i, k)
                elif not s.get("bad"):
                    op.bad.append(("objective-error", f"evaluating the objective raised {type(e).__name__}: {e}"))
                raise
            if v <= s["tol"] * (1 - 1e-9):
                call["found"] = True
            elif exact and t < allowance(s["dims"]) - 1.0:
                op.bad.append(("solution-missed", f"the objective is {v} at parameters that solve the caller's gate"))
            if v < best[0]:
                best[:] = [v, x.copy()]
            if t > allowance(s["dims"]) + 1.0 + call["max_delay"]:
                call["over"] = call.get("over", 0) + 1
                if call["over"] > 50:
                    op.bad.append(("never-stopped", f"the search of {n} layers still went on {t:.0f} s after its start, 50 evaluations past its allowance"))
                    call["late"] = True
                    raise TimeoutError
            return v

        for delay, kind in sc["steps"]:
            ev(delay, kind)
        if sc["end"] == "raise":
            self.w.sleep(sc["delay"])
            call["raised"] = sc["error"]
            self.ctx.fault("optimiser_error:" + sc["error"])
            raise ERRORS[sc["error"]]("optimiser failed")
        if sc["end"] == "hover" and n == s["lstar"] and op.xstar is not None and len(op.xstar) == len(lo):
            # closes in on the solution but stays just above the tolerance
            d = rng.rand(len(lo)) - 0.5
            for _ in range(200):
                v = ev(0.0, ("at", np.array(op.xstar) + d))
                if v <= sc["above"] * s["tol"]:
                    break
                d *= 0.85
            self.ctx.fault("hovering_optimiser")
            while True:
                ev(sc["delay"], ("at", np.array(op.xstar) + d))
        if sc["end"] in ("forever", "hover"):
            while True:
                ev(sc["delay"], "rand")
        if best[0] == np.inf:
            ev(0.0, "rand")
        from scipy.optimize import OptimizeResult

        return OptimizeResult(x=best[1], fun=best[0], nit=1, success=True)

    # ---- one operation
    def prepare(self, op):
        """Build circuit, target and primitive; the target is solvable with lstar layers."""
        from mqt.qudits.quantum_circuit import QuantumCircuit

        s = op.spec
        dims = s["dims"]
        D = dims[0] * dims[1]
        c = QuantumCircuit(2, list(dims), 0)
        op.prim = None
        if s["ansatz"] == "CU" and s.get("bad") != "no-primitive":
            pc = QuantumCircuit(2, list(dims), 0)
            e = {"g": s["prim"], "q": [0, 1]}
            if s["prim"] == "cx":
                e["p"] = [0, 1, 1, 0.0]
            if s["prim"] == "cu_two":
                e["p"] = {"mat": [D, s["xseed"] % 1000]}
            op.prim = models.add_gate(pc, e)
        op.xstar = None
        rs = np.random.RandomState(s["xseed"])
        mat = models.unitary(D, s["xseed"] % 9973)
        if not s.get("other") and not s.get("bad"):
            m = self.ansatz_matrix(op, rs)
            if m is not None:
                mat = m
        op.target_matrix = mat
        op.circuit = c
        op.gate = c.cu_two([0, 1], mat.copy())
        op.before = models.circuit_fingerprint(c)

    def ansatz_matrix(self, op, rs):
        from mqt.qudits.compiler.twodit.variational_twodit_compilation import ansatz as an
        from mqt.qudits.compiler.twodit.variational_twodit_compilation.ansatz.ansatz_gen_utils import Primitive

        s = op.spec
        d = s["dims"]
        k = d[0] ** 2 + d[1] ** 2 - 2
        x = rs.uniform(0, np.pi / 2, (s["lstar"] + 2) * k)
        try:
            if s["ansatz"] == "CU":
                old = Primitive.CUSTOM_PRIMITIVE
                Primitive.CUSTOM_PRIMITIVE = op.prim
                try:
                    m = an.cu_ansatz(list(x), d)
                finally:
                    Primitive.CUSTOM_PRIMITIVE = old
            else:
                m = (an.ms_ansatz if s["ansatz"] == "MS" else an.ls_ansatz)(list(x), d)
        except (AttributeError, TypeError, ValueError):
            self.ctx.probe("no_ansatz_functions")
            return None
        op.xstar = x
        return np.array(m)

    def compile(self, op):
        from mqt.qudits.compiler.twodit.variational_twodit_compilation.layered_compilation import variational_compile

        s = op.spec
        op.thread = self.sched.me()
        self.ops[op.thread] = op
        if s["gap"]:
            self.w.sleep(s["gap"])
        op.t0 = self.w.now
        if s.get("kbd") is not None:
            op.thread.kbd_at = self.w.now + s["kbd"]
        if s.get("kbd_line") is not None:
            self.sched.exc_points[op.thread.name] = (op.thread.lines + s["kbd_line"], KeyboardInterrupt, "line")
        ans, lay = s["ansatz"], s["layers"]
        if s.get("bad") == "ansatz":
            ans = "XY"
        if s.get("bad") == "layers":
            lay = -1
        if s.get("bad") == "no-primitive":
            ans = "CU"
        try:
            op.circ = variational_compile(op.gate, s["tol"], ans, lay, op.prim)
            op.out = "circuit"
        except KeyboardInterrupt as e:
            op.out, op.err = "interrupted", e
        except Exception as e:  # noqa: BLE001
            op.out, op.err = "error", e
        op.thread.kbd_at, op.thread.kbd_hit = None, False
        self.sched.exc_points.pop(op.thread.name, None)
        op.t1 = self.w.now
        self.ctx.event("end", op.i, op.out, type(op.err).__name__ if op.err else "", round(op.t1 - op.t0, 3), len(op.calls))
        self.ctx.probe("compile_" + op.out)

    def sparsify(self, op):
        from mqt.qudits.compiler.twodit.variational_twodit_compilation.sparsifier import sparsify

        self.ops[self.sched.me()] = op
        op.t0 = self.w.now
        try:
            op.circ = sparsify(op.gate)
            op.out = "circuit"
        except Exception as e:  # noqa: BLE001
            op.out, op.err = "error", e
        op.t1 = self.w.now
        self.ctx.probe("sparsify_" + op.out)

    def settle(self):
        """Let threads that are about to end do so."""
        self.w.sleep(0.01)

    def run(self, each=None):
        ops = [Op(i, s) for i, s in enumerate(self.plan["ops"])]
        tr = self.sched.trace_on
        import sys

        sys.settrace(None)
        for op in ops:
            self.prepare(op)
        self.install()
        self.w.time_limit = None
        if tr:
            sys.settrace(self.sched.tracer())
        if self.plan.get("par"):
            ths = []
            for op in ops:
                f = self.sparsify if op.spec["op"] == "sparsify" else self.compile
                t = threading.Thread(target=f, args=(op,), name=f"caller{op.i}")
                t._harness = True
                ths.append(t)
            for t in ths:
                t.start()
            for t in ths:
                t.join()
            for name, msg in self.ctx.extra.get("thread_exceptions", []):
                if name.startswith("caller"):
                    ops[0].bad.append(("caller-exception", f"{name}: {msg}"))
            sys.settrace(None)
            if each:
                each(self, ops)
        else:
            for op in ops:
                (self.sparsify if op.spec["op"] == "sparsify" else self.compile)(op)
                if each:
                    sys.settrace(None)
                    if each(self, [op]) is False:
                        return ops
                    if tr:
                        sys.settrace(self.sched.tracer())
        sys.settrace(None)
        return ops


# ---------------------------------------------------------------- judgement

def circuit_unitary(c):
    """What the gates of the returned circuit do, from their matrices on their own lines."""
    dims = list(c.dimensions)
    n = int(np.prod(dims))
    u = np.eye(n, dtype=complex).reshape(dims + [n])
    for g in c.instructions:
        lines = [g.target_qudits] if isinstance(g.target_qudits, int) else list(g.target_qudits)
        m = np.asarray(g.to_matrix(identities=0))
        u = models.apply_matrix(u, m, lines, dims)
    return u.reshape(n, n)


def infidelity(a, b):
    return 1 - abs(np.trace(a.conj().T @ b)) / a.shape[0]


def judge_circuit(op):
    """Violations of 'a circuit within the tolerance, or an error' for one compilation."""
    s = op.spec
    out = list(op.bad)
    injected = any(c["raised"] for c in op.calls)
    if op.out == "circuit":
        if s.get("bad"):
            return out + [("bad-accepted", f"a compilation with a wrong argument ({s['bad']}) returned a circuit")]
        c = op.circ
        if c is None or not getattr(c, "instructions", None):
            return out + [("empty-circuit", "an empty circuit was returned")]
        if list(c.dimensions) != list(s["dims"]):
            return out + [("dimensions", f"the circuit has dimensions {c.dimensions} instead of {s['dims']}")]
        try:
            inf = infidelity(circuit_unitary(c), op.target_matrix)
        except Exception as e:  # noqa: BLE001
            return out + [("broken-circuit", f"the returned circuit cannot be evaluated: {type(e).__name__}: {e}")]
        if not inf <= s["tol"] * (1 + 1e-6) + 1e-9:
            out.append(("infidelity", f"the returned circuit has infidelity {inf:.3g}; requested was {s['tol']}"))
    elif op.out == "error":
        if any(c["found"] for c in op.calls) and not injected and not op.faulted:
            out.append(("solution-lost", f"a solution was found, yet the compilation raised {type(op.err).__name__}: {op.err}"))
        if not isinstance(op.err, Exception):
            out.append(("error-type", repr(op.err)))
        if not op.calls and not s.get("bad") and not op.faulted:
            out.append(("no-search", f"no search was made, yet the compilation raised {type(op.err).__name__}: {op.err}"))
    return out


def shrink(plan):
    import copy

    for i, o in enumerate(plan["ops"]):
        if o["op"] != "compile":
            continue
        for j, sc in enumerate(o.get("scripts", [])):
            for k in range(len(sc["steps"])):
                c = copy.deepcopy(plan)
                del c["ops"][i]["scripts"][j]["steps"][k]
                yield c
        if len(o.get("scripts", [])) > 1:
            for j in range(len(o["scripts"])):
                c = copy.deepcopy(plan)
                del c["ops"][i]["scripts"][j]
                yield c
        if o["gap"]:
            c = copy.deepcopy(plan)
            c["ops"][i]["gap"] = 0.0
            yield c


_ = stream
