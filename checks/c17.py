"""C17: noise is inserted exactly where and how the noise model says."""
from __future__ import annotations

import copy
import math
import random
import sys
import threading

import numpy as np

from dst import models, noise, noisyrun, pool, stats, threads

PROPERTY = "C17"
NATIVE = False
RUNS = {"quick": 260, "thorough": 8000}
TIME = {"quick": 100, "thorough": 2400}
ALPHA = 1e-13
RULE = ("one evaluation is one simulated history that builds a noise model step by step (noise objects shared between gates and modes), grows the circuit, and generates "
        "up to thousands of noisy versions under seeded entropy, some generations interrupted, some in pre-empted threads; each version is parsed against the model's law and "
        "the insertion counts are tested against exact probabilities; distinct means a different event log")
COMPONENTS = {"real": ["NoisyCircuitFactory", "NoiseModel", "Noise", "SubspaceNoise", "QuantumCircuit and gates"], "stub": ["entropy (seeded)", "clocks", "thread scheduling"]}
ASSUMPTIONS = ["the order of the operations inserted after one gate is left open; noise on different qudits, gates and modes is drawn independently",
               "tail probability of a false alarm below 1e-13 per tested count"]
SHRINK = ["phases"]
PLAIN = ("x", "z", "virtrz")


def gen_objects(rng, dims):
    """Noise objects; several calls may hand the same one to the model."""
    objs = []
    dmin = min(dims)
    for _ in range(rng.randint(1, 4)):
        k = rng.choice(["math", "sub", "sub"])

        def pr():
            x = rng.random()
            return 0.0 if x < 0.15 else 1.0 if x < 0.25 else round(rng.uniform(0.02, 1), 4)

        o = {"kind": k, "p": pr(), "q": pr()}
        if k == "sub":
            pairs = [[a, b] for a in range(dmin) for b in range(a + 1, dmin)]
            rng.shuffle(pairs)
            o["levels"] = [] if rng.random() < 0.3 else [list(x) if rng.random() < 0.7 else list(reversed(x)) for x in pairs[:rng.choice([1, 1, 1, 2, 3])]]
        objs.append(o)
    return objs


def may_add(have, objs, k, gates, mode):
    """Whether the model accepts object k for these gates and this mode."""
    o = objs[k]
    for g in gates:
        for j in have.get((g, mode), []):
            b = objs[j]
            if o["kind"] == "math" or b["kind"] == "math" or not o["levels"] or not b["levels"]:
                return False
            if {tuple(sorted(x)) for x in o["levels"]} & {tuple(sorted(x)) for x in b["levels"]}:
                return False
    return True


def entry(o, gates, mode):
    return {"gates": list(gates), "mode": mode, "kind": o["kind"], "p": o["p"], "q": o["q"], "levels": o.get("levels", [])}


def gen(rng, tier, i):
    par = rng.random() < 0.2
    dims = models.gen_dims(rng, 4, 5, 10 ** 6)
    if rng.random() < 0.15:
        dims[rng.randrange(len(dims))] = rng.randint(6, 12)
    c = models.gen_circuit(rng, dims, rng.randint(1, 3), noisyrun.TN_GATES, ctrl=0.35, dag=0.2)
    objs = gen_objects(rng, dims)
    have, ents, phases = {}, [], []
    gates = list(c["gates"])
    seen = {"dims": dims, "gates": gates}
    for ph in range(rng.randint(1, 3)):
        new = []
        if ph and rng.random() < 0.6:
            g = models.gen_gate(rng, dims, noisyrun.TN_GATES, ctrl=0.35, dag=0.2)
            if all(noise._ok(e, {"dims": dims, "gates": [g]}, "tnsim") for e in ents) and law(g, ents, dims) is not None:
                gates.append(g)
                new.append(g)
        adds = []
        for _ in range(40):
            if len(adds) >= rng.randint(1, 4):
                break
            tags = sorted({noise.tag(e) for e in gates})
            gs = rng.sample(tags, rng.randint(1, len(tags)))
            if rng.random() < 0.15:
                gs.append("no_such_gate")
            mode = rng.choice(["local", "local", "all", "nonlocal", "control", "target"])
            k = rng.randrange(len(objs))
            e = entry(objs[k], gs, mode)
            if not may_add(have, objs, k, gs, mode) or not noise._ok(e, seen, "tnsim"):
                continue
            if any(law(x, [*ents, e], dims) is None for x in gates):
                continue
            for g in gs:
                have.setdefault((g, mode), []).append(k)
            ents.append(e)
            adds.append({"obj": k, "gates": gs, "mode": mode})
        phases.append({"gates": new, "adds": adds, "n": (40 if par else 900) * (1 if tier == "quick" else 2), "fresh": rng.random() < 0.3,
                       "other": rng.random() < 0.3, "seed": rng.random() < 0.3,
                       "fault": [rng.choice(["KeyboardInterrupt", "MemoryError"]), rng.randint(1, 300), rng.randrange(20)] if rng.random() < 0.3 else None})
    # an own gate that looks like noise of the gate before it would make a noisy version ambiguous
    for e in gates:
        if e["g"] in PLAIN and not e.get("c"):
            e["dag"] = True
    return {"world": {"cost": 0.0, "gran": rng.choice([0.0, 1.0, 3600.0])}, "par": par, "dims": dims, "circuit": c["gates"][:], "objs": objs, "phases": phases,
            "threads": {"seed": rng.randrange(1 << 30), "prob": rng.choice([0.001, 0.01])}}


def shrink(plan):
    for k, ph in enumerate(plan["phases"]):
        for j in range(len(ph["adds"])):
            c = copy.deepcopy(plan)
            del c["phases"][k]["adds"][j]
            yield c
    if all(not ph["gates"] for ph in plan["phases"]):
        for j in range(len(plan["circuit"])):
            c = copy.deepcopy(plan)
            del c["circuit"][j]
            yield c


def op_key(g):
    """What an inserted operation does, or None if it is no noise operation."""
    info = g.control_info
    if info["controls"] is not None or g.dagger or not isinstance(g.target_qudits, (int, np.integer)):
        return None
    t, p = g.qasm_tag, info["params"]
    if t in ("x", "z"):
        return (t,)
    if t in ("noisex", "noisey"):
        a, b = sorted(int(x) for x in p[:2])
        return (t, a, b)
    if t == "virtrz":
        return ("noisez", int(p[0])) if abs(float(p[1]) - math.pi) < 1e-12 else None
    return None


def plan_key(o):
    if o["g"] in ("x", "z"):
        return (o["g"],)
    if o["g"] == "noisez":
        return ("noisez", o["p"])
    return (o["g"], *sorted(o["p"]))


def law(e, ents, dims):
    """Per qudit the exact distribution of the multiset of operations inserted after gate e."""
    out = {}
    for alts in noise.draws(e, ents, dims, "tnsim"):
        qs = {o["q"] for _, ops in alts for o in ops}
        if not qs:
            continue
        q = qs.pop()
        cur = out.setdefault(q, {(): 1.0})
        new = {}
        for k0, p0 in cur.items():
            for p, ops in alts:
                if p <= 0:
                    continue
                k = tuple(sorted(k0 + tuple(plan_key(o) for o in ops)))
                new[k] = new.get(k, 0.0) + p0 * p
        out[q] = new
        if len(new) > 4000:
            return None
    return out


def execute(plan, ctx):
    from mqt.qudits.quantum_circuit import QuantumCircuit
    from mqt.qudits.simulation.noise_tools import Noise, NoiseModel, SubspaceNoise
    from mqt.qudits.simulation.noise_tools.noisy_circuit_factory import NoisyCircuitFactory

    dims = plan["dims"]
    cp = {"dims": dims, "gates": [copy.deepcopy(e) for e in plan["circuit"]]}
    c = models.build(cp)
    objs = []
    for o in plan["objs"]:
        lv = [tuple(x) for x in o.get("levels", [])]
        objs.append(Noise(o["p"], o["q"]) if o["kind"] == "math" else SubspaceNoise(o["p"], o["q"], lv[0] if len(lv) == 1 else lv))
    nm, ents = NoiseModel(), []
    factory = NoisyCircuitFactory(nm, c)
    sched = threads.Scheduler(ctx, {"line_cost": 0.0, **plan["threads"], "trace": bool(plan["par"])})
    sched.adopt_main()
    if plan["par"]:
        sched.install()
    add = {m: getattr(nm, f) for m, f in noise.MODES.items()}
    et = {"KeyboardInterrupt": KeyboardInterrupt, "MemoryError": MemoryError}
    ctx.event("plan", [noise.tag(e) for e in cp["gates"]], dims)
    tests = 0
    for pi, ph in enumerate(plan["phases"]):
        for e in ph["gates"]:
            models.add_gate(c, e)
            cp["gates"].append(e)
        for a in ph["adds"]:
            add[a["mode"]](objs[a["obj"]], list(a["gates"]))
            ents.append(entry(plan["objs"][a["obj"]], a["gates"], a["mode"]))
            ctx.probe(f"{plan['objs'][a['obj']]['kind']}_{a['mode']}")
        if ph["other"]:  # another model, extended with the same noise objects
            nm2 = NoiseModel()
            for a in ph["adds"]:
                if "rxy" not in nm2.quantum_errors:
                    nm2.add_quantum_error_locally(objs[a["obj"]], ["rxy", "cx"])
            nm2.add_all_qudit_quantum_error(SubspaceNoise(1.0, 1.0, (0, 5)), ["h", "x", "z", "rxy"])
            nm2.add_all_qudit_quantum_error(SubspaceNoise(1.0, 1.0, (1, 5)), ["rxy"])
            c2 = QuantumCircuit(2, [6, 6], 0)
            c2.r(0, [2, 4, 1.0, 1.0])
            c2.cx([0, 1], [3, 5, 0, 1.0])
            NoisyCircuitFactory(nm2, c2).generate_circuit()
        if not cp["gates"]:
            continue
        laws = [law(e, ents, dims) for e in cp["gates"]]
        if any(x is None for x in laws):
            ctx.probe("law_too_large")
            continue
        own = [models.gate_fingerprint(g) for g in c.instructions]
        slots = [(i, q) for i, lw in enumerate(laws) for q in sorted(lw)]
        counts = {s: {} for s in slots}
        samples, bad = [], []

        def judge(d):
            """Parse one noisy version; the operations inserted after each gate per qudit."""
            if list(d.dimensions) != list(dims) or d.num_qudits != len(dims):
                bad.append(("wrong-size", f"a noisy version has dimensions {d.dimensions}"))
                return
            ins, i = [], -1
            for g in d.instructions:
                if i + 1 < len(own) and (g.qasm_tag == own[i + 1][1]) and models.gate_fingerprint(g) == own[i + 1]:
                    i += 1
                    ins.append({})
                    continue
                k = op_key(g)
                if k is None or i < 0:
                    bad.append(("foreign-gate", f"a noisy version has {models.gate_fingerprint(g)[:6]} after gate {i} of {[noise.tag(e) for e in cp['gates']]}"))
                    return
                ins[-1].setdefault(int(g.target_qudits), []).append(k)
            if i + 1 != len(own):
                bad.append(("own-gate-missing", f"a noisy version has only {i + 1} of the circuit's {len(own)} gates, unchanged and in order"))
                return
            row = []
            for j, d_ in enumerate(ins):
                for q in sorted(d_):
                    k = tuple(sorted(d_[q]))
                    if laws[j].get(q, {}).get(k, 0.0) <= 1e-12:
                        bad.append(("impossible-noise", f"after gate {j} ({cp['gates'][j]}) a noisy version has {k} on qudit {q}; the model {ents} does not allow that"))
                        return
            for s in slots:
                k = tuple(sorted(ins[s[0]].get(s[1], ())))
                counts[s][k] = counts[s].get(k, 0) + 1
                row.append(k)
            samples.append(tuple(row))

        def sample(n, fac):
            for j in range(n):
                f = NoisyCircuitFactory(nm, c) if ph["fresh"] else fac
                hit = []
                if ph["fault"] and j == ph["fault"][2] and not plan["par"]:
                    sys.settrace(pool.raise_at_line(ph["fault"][1], et[ph["fault"][0]], hit))
                    try:
                        d = f.generate_circuit()
                    except (KeyboardInterrupt, MemoryError):
                        d = None
                    finally:
                        sys.settrace(None)
                    if hit:
                        ctx.fault("interrupt:" + ph["fault"][0])
                    if d is None:
                        continue
                else:
                    d = f.generate_circuit()
                if ph["seed"] and j % 7 == 0:  # the caller reseeds the global generators
                    random.seed(1)
                    np.random.seed(1)
                tr = sys.gettrace()
                sys.settrace(None)
                judge(d)
                sys.settrace(tr)
                if bad:
                    return

        if plan["par"]:
            ths = [threading.Thread(target=sample, args=(ph["n"], NoisyCircuitFactory(nm, c)), name=f"p{pi}t{k}") for k in range(3)]
            for t in ths:
                t._harness = True
                t.start()
            for t in ths:
                t.join()
        else:
            sample(ph["n"], factory)
        if bad:
            ctx.violate(bad[0][0], f"phase {pi}: {bad[0][1]}")
            return
        n = len(samples)
        ctx.event("counts", pi, n, [[list(s), sorted((str(k), v) for k, v in counts[s].items())] for s in slots])
        for s in slots:
            lw = laws[s[0]][s[1]]
            keys = sorted(lw)
            cnt, pr = [counts[s].get(k, 0) for k in keys], [lw[k] for k in keys]
            tests += len(keys)
            b = stats.freq_deviation(cnt, pr, n, ALPHA)
            if b:
                ctx.violate("wrong-frequency", f"phase {pi}: after gate {s[0]} ({cp['gates'][s[0]]}) qudit {s[1]} got {keys[b[0]]} {b[1]} times in {n} versions; its probability is {b[2]:.5f} (tail {b[3]:.1e}); model {ents}")
                return
            b = stats.chi2_bad(cnt, pr, n, ALPHA)
            if b:
                ctx.violate("wrong-frequency", f"phase {pi}: insertions after gate {s[0]} on qudit {s[1]}: {cnt} do not fit {np.round(np.array(pr) * n, 1).tolist()}: chi2 {b[0]:.1f} ({b[1]})")
                return
        for x in range(len(slots)):  # draws at different places are independent
            px = laws[slots[x][0]][slots[x][1]].get((), 0.0)
            for y in range(x):
                py = laws[slots[y][0]][slots[y][1]].get((), 0.0)
                k = sum(1 for r in samples if r[x] == () and r[y] == ())
                v = stats.binom_p(k, n, px * py)
                if v < ALPHA:
                    ctx.violate("dependent-noise", f"phase {pi}: no noise at both {slots[x]} and {slots[y]} {k} times in {n}, expected {n * px * py:.1f} (tail {v:.1e})")
                    return
        s2 = s3 = 1.0
        for s in slots:
            lw = laws[s[0]][s[1]]
            s2 *= sum(p * p for p in lw.values())
            s3 *= sum(p ** 3 for p in lw.values())
        cc = {}
        for r in samples:
            cc[r] = cc.get(r, 0) + 1
        eq = sum(v * (v - 1) // 2 for v in cc.values())
        if eq > stats.pairs_threshold(n, s2, s3):
            ctx.violate("repeated-noise", f"phase {pi}: {eq} equal pairs among {n} noisy versions, expected {n * (n - 1) / 2 * s2:.1f}")
            return
    ctx.probe("counts_tested", tests)
