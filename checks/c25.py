"""C25: a circuit changes by its own edits only."""
from __future__ import annotations

import copy
import math
import pickle
import random

import numpy as np

from dst import circfile, histories, models, noise, pool, procs

PROPERTY = "C25"
NATIVE = False
RUNS = {"quick": 9000, "thorough": 150000}
TIME = {"quick": 90, "thorough": 2400}
RULE = ("one evaluation is one simulated history of edits (gates, inverses, controls, deletions, replacements, permutations, mappings, registers, resets, refused edits) of several "
        "circuits derived from each other by copies, pickles, other processes, saved files, qasm texts, noisy versions and compilations, with interrupts and memory errors at chosen "
        "repository lines, one after another or in pre-empted threads; after each edit every circuit is compared with a list of the edits made to it; distinct means a different event log")
COMPONENTS = {"real": ["QuantumCircuit", "gates", "registers", "copy and pickle support", "NoisyCircuitFactory", "QuditCompiler O0 and O1", "TNSim", "saving and loading"],
              "stub": ["thread scheduling", "process boundaries (forked, seeded)", "entropy", "clocks"]}
ASSUMPTIONS = ["a gate object the caller itself puts into two circuits belongs to both", "an interrupted in-place edit may leave the edited circuit itself half-edited"]
SHRINK = ["ops"]
KINDS = ["gate"] * 6 + ["dag", "dag", "control", "delete", "replace", "permute", "map", "register", "reset", "refused", "refused",
                        "new", "copy", "copy", "deepcopy", "pickle", "process", "noisy", "compile", "saveload", "qasm", "sim", "export", "read"]
READS = ("copy", "deepcopy", "pickle", "process", "noisy", "compile", "sim", "export", "read", "refused")


def gen(rng, tier, i):
    par = rng.random() < 0.3
    first = [circfile.gen(rng, rng.randint(0, 4), 0.3) for _ in range(1 if par else rng.randint(1, 2))]
    if rng.random() < 0.3:
        first[0] = models.gen_circuit(rng, [3] * rng.randint(1, 2), rng.randint(1, 3), ["r", "rz", "virtrz", "h", "z", "x", "cx"], dag=0.2)
    kinds = [k for k in KINDS if not (par and k in ("process", "compile"))]

    def op():
        o = {"k": rng.choice(kinds), "c": rng.randrange(60), "s": rng.randrange(1 << 30)}
        return o

    if par:
        ops = [{"ops": [op() for _ in range(rng.randint(1, 5))]} for _ in range(rng.randint(2, 3))]
    else:
        ops = [op() for _ in range(rng.randint(3, 14))]
    for o in ops:
        f = histories.gen_fault(rng, 0.15, [5, 30, 200])
        if f and not par:
            o["fault"] = f
    return {"world": {"cost": 0.0}, "par": par, "first": first, "ops": ops, "threads": histories.gen_threads(rng, (0.002, 0.02, 0.1))}


def shrink(plan):
    for k in range(len(plan["first"])):
        for j in range(len(plan["first"][k]["gates"])):
            c = copy.deepcopy(plan)
            del c["first"][k]["gates"][j]
            yield c
    for n, o in enumerate(plan["ops"]):
        if o.get("fault"):
            c = copy.deepcopy(plan)
            del c["ops"][n]["fault"]
            yield c
        for j in range(len(o.get("ops", []))):
            c = copy.deepcopy(plan)
            del c["ops"][n]["ops"][j]
            yield c


def model(plan):
    regs = plan.get("regs") or [["q", len(plan["dims"])]]
    return {"dims": list(plan["dims"]), "regs": copy.deepcopy(regs), "gates": copy.deepcopy(plan["gates"]), "map": None}


def fits(c, m, counted=True):
    """The first difference between a circuit and the edits made to it, or None."""
    if list(c.dimensions) != m["dims"] or c.num_qudits != len(m["dims"]):
        return f"dimensions {c.dimensions} ({c.num_qudits} qudits) instead of {m['dims']}"
    regs = [[str(r.label), r.size] for r in c.quantum_registers]
    if regs != m["regs"]:
        return f"registers {regs} instead of {m['regs']}"
    if [d for r in c.quantum_registers for d in r.dimensions] != m["dims"]:
        return f"dimensions of registers {[list(r.dimensions) for r in c.quantum_registers]} instead of {m['dims']}"
    lines = [[name, k] for name, n in m["regs"] for k in range(n)]
    if [list(c.inverse_sitemap.get(k, ())) for k in range(len(lines))] != lines or len(c.inverse_sitemap) != len(lines):
        return f"lines {c.inverse_sitemap} instead of {lines}"
    if [c.sitemap.get((a, k)) for a, k in lines] != list(enumerate(m["dims"])):
        return f"site map {c.sitemap}"
    if (None if c.mappings is None else [list(x) for x in c.mappings]) != m["map"]:
        return f"mapping {c.mappings} instead of {m['map']}"
    if len(c.instructions) != len(m["gates"]):
        return f"gates {[g.qasm_tag for g in c.instructions]} instead of {[noise.tag(e) for e in m['gates']]}"
    if counted and c.number_gates != len(m["gates"]):
        return f"{c.number_gates} gates counted instead of {len(m['gates'])}"
    for k, (g, e) in enumerate(zip(c.instructions, m["gates"])):
        w = f"gate {k} ({noise.tag(e)})"
        if g.qasm_tag != noise.tag(e):
            return f"{w} is {g.qasm_tag}"
        if circfile._ints(g.target_qudits) != e["q"]:
            return f"{w} acts on {g.target_qudits} instead of {e['q']}"
        ds = [m["dims"][q] for q in e["q"]] if isinstance(e["q"], list) else m["dims"][e["q"]]
        if circfile._ints(g.dimensions) != ds:
            return f"{w} has dimensions {g.dimensions} instead of {ds}"
        if bool(g.dagger) != bool(e.get("dag")):
            return f"{w}: inverse flag {g.dagger}"
        cd = None if g.control_info["controls"] is None else [list(g.control_info["controls"].indices), list(g.control_info["controls"].ctrl_states)]
        if cd != e.get("c"):
            return f"{w}: controls {cd} instead of {e.get('c')}"
        p = models.param(e["p"]) if e.get("p") is not None else None
        if e["g"] == "noisez":
            p = [e["p"], np.pi]
        if e["g"] == "cx" and p is None:
            p = [0, 1, 1, 0.0]
        if not circfile._same_params(p, g.control_info["params"]):
            return f"{w}: parameters {g.control_info['params']} instead of {p}"
        if noise.kind(e) != g.gate_type.name:
            return f"{w}: is of type {g.gate_type}"
    return None


class Pool:
    """Circuits and, for each, what was done to it."""

    def __init__(self, ctx, name):
        self.ctx, self.name = ctx, name
        self.items = []  # [circuit, model]
        self.kept = []  # [circuit, fingerprint]
        self.n = 0

    def add(self, c, m):
        if len(self.items) >= 5:
            del self.items[0]
        self.items.append([c, m])

    def check(self, where):
        self.ctx.event("pool", self.name, [[m["dims"], [[noise.tag(e), e["q"], bool(e.get("dag")), bool(e.get("c"))] for e in m["gates"]]] for _, m in self.items])
        for k, (c, m) in enumerate(self.items):
            d = fits(c, m, not m.get("uncounted"))
            if d:
                self.ctx.violate("wrong-circuit", f"{where}, circuit {k} has {d}")
                return False
        for c, f in self.kept:
            now = models.circuit_fingerprint(c)
            if now != f:
                self.ctx.violate("compiled-circuit-changed", f"{where}, a compiled circuit changed: {[(x, f[x], now[x]) for x in now if now[x] != f[x]]}"[:900])
                return False
        return True

    def finish(self):
        for k, (c, m) in enumerate(self.items):
            ref = models.build({**m, "regs": m["regs"]}) if m["dims"] else None
            if ref is not None:
                d = circfile.differ(ref, c)
                if d:
                    self.ctx.violate("wrong-circuit", f"at the end, circuit {k}: {d}")
                    return
                if m["gates"] and not models.close(c.simulate(), models.state(m), 1e-7):
                    self.ctx.violate("wrong-state", f"at the end, circuit {k} prepares another state than its gates do")
                    return


ALLOWED = [*circfile.GATES, "cu_one", "cu_two"]


def scribble(x):
    """The caller goes on using its own list for something else."""
    if isinstance(x, list):
        for k in range(len(x)):
            x[k] = -7
        x.append(99)
    elif isinstance(x, np.ndarray):
        x[...] = 7.0


def add_gate(c, e):
    """models.add_gate, but the caller's lists and matrices are its own and used again."""
    from mqt.qudits.quantum_circuit.components.extensions.controls import ControlData

    q = list(e["q"]) if isinstance(e["q"], list) else e["q"]
    args = [q]
    if "p" in e and e["p"] is not None:
        args.append(models.param(e["p"]))
    late = e.get("via") == "method"
    cd = None
    if e.get("c"):
        cd = ControlData(list(e["c"][0]), list(e["c"][1]))
        if not late:
            args.append(cd)
    was = copy.deepcopy(args)
    g = getattr(c, e["g"])(*args)
    if cd is not None and late:
        g.control(cd.indices, cd.ctrl_states)
    if e.get("dag"):
        g.dag()
    ok = all(circfile._same_params(x, y) if not hasattr(x, "indices") else x == y for x, y in zip(was, args))
    for x in args:
        scribble(x)
    if cd is not None:
        scribble(cd.indices)
        scribble(cd.ctrl_states)
    return ok


def execute(plan, ctx):
    from mqt.qudits.quantum_circuit import QuantumCircuit, QuantumRegister
    from mqt.qudits.simulation.noise_tools import Noise, NoiseModel
    from mqt.qudits.simulation.noise_tools.noisy_circuit_factory import NoisyCircuitFactory

    pool.install(ctx, {})

    def perform(p, o):
        """One operation.  Returns (circuits that may be half-edited if it is interrupted, whether it may have been done or not)."""
        k = o["k"]
        rng = random.Random(o["s"])
        p.n += 1
        if not p.items and k not in ("new",):
            k = "new"
        i = o["c"] % len(p.items) if p.items else 0
        c, m = p.items[i] if p.items else (None, None)
        ng = len(m["gates"]) if m else 0
        j = rng.randrange(ng) if ng else None
        p.open = p.maybe = None
        if k == "new":
            q = circfile.gen(rng, rng.randint(0, 3), 0.2)
            dims = list(q["dims"])
            if q.get("regs"):
                d = models.build({**q, "gates": []})
            else:
                d = QuantumCircuit(len(dims), dims, 0)
                scribble(dims)
            for e in q["gates"]:
                add_gate(d, e)
            p.add(d, model(q))
        elif k == "gate":
            if not m["dims"]:
                return "nothing"
            e = models.gen_gate(rng, m["dims"], ALLOWED, ctrl=0.3, dag=0.2)
            if ng >= 12:
                return "nothing"
            p.maybe = (i, e)
            if not add_gate(c, e):
                ctx.violate("caller-changed", f"adding the gate {e} changed the lists the caller passed")
            m["gates"].append(e)
            p.maybe = None
        elif k == "dag" and ng:
            if m["gates"][j].get("dag") or m["gates"][j]["g"] == "cu_multi":
                return "nothing"
            p.open = i
            c.instructions[j].dag()
            m["gates"][j]["dag"] = True
        elif k == "control" and ng:
            e = m["gates"][j]
            free = [q for q in range(len(m["dims"])) if q != e["q"]]
            if not isinstance(e["q"], int) or e.get("c") or e["g"] == "pm" or not free:
                return "nothing"
            idx = rng.sample(free, rng.randint(1, min(2, len(free))))
            st = [rng.randrange(m["dims"][q]) for q in idx]
            p.open = i
            a, b = list(idx), list(st)
            c.instructions[j].control(a, b)
            scribble(a)
            scribble(b)
            e["c"] = [idx, st]
        elif k == "delete" and ng:
            p.open = i
            c.replace_gate(j, [])
            del m["gates"][j]
        elif k == "replace" and ng:
            src = c.copy().instructions
            pick = [rng.randrange(ng) for _ in range(rng.randint(1, 2))]
            seq = [copy.copy(src[x]) for x in pick]
            p.open = i
            c.replace_gate(j, seq)
            scribble(seq)
            m["gates"][j:j + 1] = [copy.deepcopy(m["gates"][x]) for x in pick]
        elif k == "permute" and ng:
            perm = list(range(ng))
            rng.shuffle(perm)
            seq = [c.instructions[x] for x in perm]
            p.open = i
            c.set_instructions(seq)
            scribble(seq)
            m["gates"] = [m["gates"][x] for x in perm]
        elif k == "map" and m["dims"]:
            mp = []
            for d in m["dims"]:
                x = list(range(d))
                rng.shuffle(x)
                mp.append(x)
            p.open = i
            given = [list(x) for x in mp]
            c.set_mapping(given)
            for x in given:
                scribble(x)
            scribble(given)
            m["map"] = mp
        elif k == "register":
            d = rng.randint(2, 3)
            if math.prod(m["dims"]) * d > 40 or any(g.parent_circuit is not c for g in c.instructions):  # gates taken over from a smaller circuit know its size
                return "nothing"
            name = f"extra{len(m['regs'])}"
            p.open = i
            dims = [d]
            c.append(QuantumRegister(name, 1, dims))
            scribble(dims)
            m["dims"].append(d)
            m["regs"].append([name, 1])
        elif k == "reset":
            if rng.random() < 0.6:
                return "nothing"
            p.open = i
            c.reset()
            m.update({"dims": [], "regs": [], "gates": [], "map": None})
        elif k == "refused" and m["dims"]:
            q = rng.randrange(len(m["dims"]))
            d = m["dims"][q]
            n = len(m["dims"])
            from mqt.qudits.quantum_circuit.components.extensions.controls import ControlData

            tries = [lambda c: c.r(q, [0, d, 1.0, 1.0]), lambda c: c.rz(q, [d + 1, 0, 1.0]), lambda c: c.virtrz(q, [d + 1, 1.0]), lambda c: c.x(n), lambda c: c.h(n + 3),
                     lambda c: c.x(q, ControlData([q], [0])), lambda c: c.z(q, ControlData([n], [0])), lambda c: c.pm(q, [0] * d),
                     lambda c: c.h(q, ControlData([(q + 1) % n], [m["dims"][(q + 1) % n]])), lambda c: c.csum([q, n]), lambda c: c.rh(q, [0, d])]
            if ng:
                tries += [lambda c: c.instructions[j].control([n], [0]), lambda c: c.instructions[j].control([m["gates"][j]["q"]] if isinstance(m["gates"][j]["q"], int) else m["gates"][j]["q"], [0]),
                          lambda c: c.replace_gate(j, None)]
            t = rng.randrange(len(tries))
            try:
                tries[t](c.copy())
            except (AssertionError, IndexError, ValueError, TypeError):
                pass
            else:  # nothing that is refused
                return f"accepted {t}"
            try:
                tries[t](c)
            except (AssertionError, IndexError, ValueError, TypeError) as e:
                ctx.probe("refused:" + type(e).__name__)
            else:
                ctx.probe("accepted")
                return f"accepted {t}"
        elif k in ("copy", "deepcopy", "pickle", "process"):
            if k == "copy":
                d = c.copy()
            elif k == "deepcopy":
                d = copy.deepcopy(c)
            elif k == "pickle":
                d = pickle.loads(pickle.dumps(c))
            else:
                e = models.gen_gate(rng, m["dims"], ALLOWED, ctrl=0.3, dag=0.2) if m["dims"] and ng < 12 else None

                def child():
                    if e is not None:
                        models.add_gate(c, e)  # its own copy of the memory
                    return c

                d = procs.run(ctx, f"p{p.n}", child, fresh=rng.random() < 0.5)[1]
                mm = copy.deepcopy(m)
                if e is not None:
                    mm["gates"].append(e)
                p.add(d, mm)
                return None
            p.add(d, copy.deepcopy(m))
        elif k == "noisy" and ng:
            nm = NoiseModel()
            nm.add_quantum_error_locally(Noise(0.0, 0.0), sorted({noise.tag(e) for e in m["gates"]}))
            d = NoisyCircuitFactory(nm, c).generate_circuit()
            if not d.quantum_registers or d.mappings != c.mappings or [r.label for r in d.quantum_registers] != [r.label for r in c.quantum_registers]:
                mm = copy.deepcopy(m)
                mm["map"] = None if d.mappings is None else [list(x) for x in d.mappings]
                mm["regs"] = [[str(r.label), r.size] for r in d.quantum_registers]
                p.add(d, mm)
            else:
                p.add(d, copy.deepcopy(m))
        elif k == "compile" and ng:
            if m["dims"] not in ([3], [3, 3]) or any(e.get("c") or e["g"] in ("cu_two", "ls", "ms", "csum") for e in m["gates"]) or m["map"]:
                return "nothing"
            if len(m["gates"]) > 5:
                return "nothing"
            d = getattr(c.copy(), rng.choice(["compileO0", "compileO1"]))("faketraps2trits")
            p.kept.append([d, models.circuit_fingerprint(d)])
        elif k == "saveload" and m["dims"]:
            t = rng.randrange(len(p.items) + 1)
            path = c.save_to_file(f"{p.name}{p.n % 3}", ctx.scratch)
            if t == len(p.items):
                d = QuantumCircuit()
            else:
                d = p.items[t][0]
                p.open = t
            mm = copy.deepcopy(m)
            d.load_from_file(path)
            mm["map"] = None
            if t == len(p.items):
                p.add(d, mm)
            else:
                p.items[t][1] = mm
        elif k == "qasm" and m["dims"]:
            if any(e["g"].startswith("cu_") for e in m["gates"]):
                return "nothing"
            t = rng.randrange(len(p.items))
            text = c.to_qasm()
            mm = copy.deepcopy(m)
            p.open = t
            p.items[t][0].from_qasm(text)
            mm["map"] = None
            p.items[t][1] = mm
        elif k == "sim" and ng:
            if not models.close(c.simulate(), models.state(m), 1e-7):
                ctx.violate("wrong-state", f"operation {p.n}: circuit {i} prepares another state than its gates do")
        elif k == "export" and m["dims"]:
            c.to_qasm()
        elif k == "read":
            _ = c.gate_set, str(c), c.dimensions, c.num_qudits
            for g in c.instructions:
                _ = g.control_info, g.reference_lines, g.to_matrix(identities=0)
        return k

    pools = {}

    def act(n):
        o = plan["ops"][n]
        if plan["par"]:
            p = pools[n]
            p.add(shared.copy(), copy.deepcopy(shared_m))
            for x in o["ops"]:
                r = perform(p, x)
                ctx.probe(x["k"])
                if r and r.startswith("accepted"):
                    p.items, p.kept = [], []
                    return None
                if not p.check(f"thread {n} after {x}"):
                    return None
            return None
        return perform(main, o)

    if plan["par"]:
        shared, shared_m = models.build(plan["first"][0]), model(plan["first"][0])
        for n in range(len(plan["ops"])):
            pools[n] = Pool(ctx, f"t{n}_")
        main = Pool(ctx, "m")
        main.add(shared, shared_m)
    else:
        main = Pool(ctx, "m")
        for q in plan["first"]:
            main.add(models.build(q), model(q))
    stop = []

    def judge(n, value, e, faulty):
        o = plan["ops"][n]
        if ctx.violations:
            return False
        if plan["par"]:
            if e is not None:
                ctx.violate("operation-fails", f"thread {n} ({o['ops']}) raised {type(e).__name__}: {e}")
                return False
            return True
        k = o["k"]
        ctx.probe(k + ("_failed" if e is not None else ""))
        if isinstance(value, str) and value.startswith("accepted"):
            stop.append(1)  # an edit the library does accept: what it means is another matter
            return False
        if e is not None:
            if not faulty:
                ctx.violate("operation-fails", f"operation {n} ({o}) raised {type(e).__name__}: {e}")
                return False
            p = main
            if p.maybe is not None:  # a gate was being added: it is there or not, and perhaps not yet inverted or controlled
                i, ge = p.maybe
                c, m = p.items[i]
                m["uncounted"] = True  # and so are the circuits derived from it
                if len(c.instructions) == len(m["gates"]) + 1:
                    g = c.instructions[-1]
                    ge = dict(ge)
                    if not g.dagger:
                        ge.pop("dag", None)
                    if g.control_info["controls"] is None and ge.get("via") == "method":
                        ge.pop("c", None)
                    if ge.get("via") == "method" and e is not None:
                        m["gates"].append(ge)
                        p.items.pop(i)
                        return p.check(f"after the interrupted operation {n} ({o})")
                    m["gates"].append(ge)
            elif p.open is not None and p.open < len(p.items):
                p.items.pop(p.open)
        return main.check(f"after operation {n} ({o})")

    if not histories.execute(plan, ctx, act, judge):
        return
    if plan["par"]:
        if not main.check("after all threads"):
            return
        for p in pools.values():
            if not p.check("at the end"):
                return
            p.finish()
    main.finish()
