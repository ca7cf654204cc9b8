"""C20: a random-unitary gate denotes one fixed unitary."""
from __future__ import annotations

import copy
import math
import pickle
import random
import sys
import threading

import numpy as np

from dst import compiling, models, noise, noisyrun, pool, procs, threads

PROPERTY = "C20"
NATIVE = False
RUNS = {"quick": 2000, "thorough": 60000}
TIME = {"quick": 90, "thorough": 2400}
RULE = ("one evaluation is one simulated history of a circuit with random-unitary gates: matrix queries, copies, simulations, noisy runs in workers, compilations, first queries "
        "from several pre-empted threads or other processes, reseeded generators and interruptions in between; distinct means a different event log")
COMPONENTS = {"real": ["RandU", "QuantumCircuit.copy", "TNSim", "stochastic_simulation", "QuditCompiler", "matrix embedding"],
              "stub": ["executor/pool scheduling", "process boundaries (forked, seeded)", "thread scheduling", "entropy", "clocks"]}
ASSUMPTIONS = ["two gates created after the caller has reset the global generator to the same state may coincide"]
SHRINK = ["ops"]


def gen(rng, tier, i):
    par = rng.random() < 0.3
    trits = rng.random() < 0.3
    if trits:
        dims = [3, 3]
    else:
        while True:
            dims = models.gen_dims(rng, 3, 4, 24, 2)
            if len(dims) >= 2:
                break
    n = len(dims)
    gates = []
    for _ in range(rng.randint(1, 3)):
        qs = sorted(rng.sample(range(n), rng.choice([2, 2, min(3, n)])))
        gates.append({"g": "randu", "q": qs, "dag": rng.random() < 0.3})
        if rng.random() < 0.4:
            gates.append(models.gen_gate(rng, dims, ["h", "x", "cx", "csum"], dag=0.2))
    kinds = ["matrix", "matrix", "matrix", "seed", "draw", "copy", "deepcopy", "simulate", "simulate", "process", "restart", "noisy", "export", "fresh", "embed", "dag"]
    if trits:
        kinds += ["O0", "O0", "O1"]
    if par:
        kinds = ["matrix", "matrix", "copy", "simulate", "draw", "deepcopy"]
    ops = []
    for _ in range(rng.randint(2, 4) if par else rng.randint(3, 10)):
        o = {"k": rng.choice(kinds), "g": rng.randrange(8)}
        if rng.random() < 0.2:
            o["fault"] = [rng.choice(["KeyboardInterrupt", "MemoryError"]), rng.choice([rng.randint(1, 10), rng.randint(1, 200)])]
        ops.append(o)
    return {"world": {"ncpu": rng.choice([1, 2, 4]), "cost": 0.0, "gran": rng.choice([0.0, 3600.0])}, "par": par, "dims": dims, "gates": gates, "ops": ops,
            "early": rng.random() < 0.3, "pool": {"tie": rng.randrange(100)}, "threads": {"seed": rng.randrange(1 << 30), "prob": rng.choice([0.01, 0.05, 0.2])}}


def shrink(plan):
    for k in range(len(plan["gates"])):
        c = copy.deepcopy(plan)
        del c["gates"][k]
        yield c
    for i, o in enumerate(plan["ops"]):
        if o.get("fault"):
            c = copy.deepcopy(plan)
            del c["ops"][i]["fault"]
            yield c


def execute(plan, ctx):
    from mqt.qudits.compiler import QuditCompiler
    from mqt.qudits.simulation import MQTQuditProvider
    from mqt.qudits.simulation.noise_tools import Noise, NoiseModel

    pool.install(ctx, plan["pool"])
    sched = threads.Scheduler(ctx, {"line_cost": 0.0, **plan["threads"], "trace": bool(plan["par"])})
    sched.adopt_main()
    dims = plan["dims"]
    tn = MQTQuditProvider().get_backend("tnsim")
    ion = MQTQuditProvider().get_backend("faketraps2trits")
    c = models.build({"dims": dims, "gates": plan["gates"]})
    rs = [g for g in c.instructions if g.qasm_tag == "rdu"]
    if not rs:
        return
    ks = [k for k, e in enumerate(plan["gates"]) if e["g"] == "randu"]
    seen = {}   # gate index -> the matrix first seen
    bad = []
    lock = []

    def observe(j, m, where):
        """m: the gate's own matrix, without the inverse."""
        m = np.array(m)
        d = math.prod(dims[q] for q in plan["gates"][ks[j]]["q"])
        if m.shape != (d, d) or not np.all(np.isfinite(m)) or np.max(np.abs(m @ m.conj().T - np.eye(d))) > 1e-9:
            bad.append(("not-unitary", f"{where}: the matrix of gate {j} is no unitary of size {d}"))
        elif j not in seen:
            seen[j] = m
        elif np.max(np.abs(seen[j] - m)) > 1e-10:
            bad.append(("matrix-changed", f"{where}: the matrix of gate {j} differs from the one seen before by {np.max(np.abs(seen[j] - m)):.3f}"))
        lock.append(where)

    def own(g):
        m = np.array(g.to_matrix(identities=0))
        return m.conj().T if g.dagger else m

    def state():
        """The state the circuit must prepare, from the matrices seen."""
        st = models.zero_state(dims)
        for k, e in enumerate(plan["gates"]):
            if e["g"] == "randu":
                m = seen[ks.index(k)]
                st = models.apply_matrix(st, m.conj().T if daggered[ks.index(k)] else m, e["q"], dims)
            else:
                st = models.apply_gate(st, e, dims)
        return st.ravel()

    daggered = [bool(g.dagger) for g in rs]
    results = []  # states seen before all matrices were
    nm = NoiseModel()
    nm.add_quantum_error_locally(Noise(0.0, 0.0), ["rdu", "h"])

    def act(n, o):
        k, j = o["k"], o["g"] % len(rs)
        where = f"operation {n} ({k})"
        if k == "matrix":
            m = rs[j].to_matrix(identities=0) if n % 2 else own(rs[j])
            if n % 2 and rs[j].dagger:
                m = np.conj(m).T
            observe(j, m, where)
            if n % 3 == 0:
                m *= 0  # the caller may do with its matrix what it likes
        elif k == "embed":
            rs[j].to_matrix(identities=2)
            rs[j].to_matrix(identities=1)
        elif k == "seed":
            np.random.seed(7)
            random.seed(7)
        elif k == "draw":
            np.random.random(5)
            random.random()
            MQTQuditProvider().get_backend("tnsim")
        elif k in ("copy", "deepcopy"):
            d = c.copy() if k == "copy" else copy.deepcopy(c)
            for x, g in enumerate(y for y in d.instructions if y.qasm_tag == "rdu"):
                observe(x, own(g), where)
        elif k == "simulate":
            s = c.simulate() if n % 2 else tn.run(c).result().get_state_vector()
            results.append((where, np.ravel(s)))
        elif k in ("process", "restart"):
            if k == "process":
                r = procs.run(ctx, f"p{n}", lambda: [own(g) for g in rs], fresh=False)
            else:
                data = pickle.dumps(c)
                r = procs.run(ctx, f"p{n}", lambda: [own(g) for g in pickle.loads(data).instructions if g.qasm_tag == "rdu"], fresh=True)
            if r[0] != "ok":
                bad.append(("process-crash", f"{where}: {r}"))
                return
            for x, m in enumerate(r[1]):
                observe(x, m, where)
        elif k == "noisy":
            res = tn.run(c, noise_model=nm, shots=50, full_state_memory=True).result().get_counts()
            for s in res:
                results.append((where, np.ravel(s)))
        elif k == "export":
            str(c.to_qasm())
        elif k == "fresh":
            e = plan["gates"][ks[j]]
            c2 = models.build({"dims": dims, "gates": [{"g": "randu", "q": e["q"]}, {"g": "randu", "q": e["q"]}]})
            a, b = (own(g) for g in c2.instructions)
            if n % 2:  # in circuits of their own
                a, b = (own(models.build({"dims": dims, "gates": [{"g": "randu", "q": e["q"]}]}).instructions[0]) for _ in range(2))
            if np.max(np.abs(a - b)) < 1e-6:
                bad.append(("gates-coincide", f"{where}: two random-unitary gates created one after the other are the same"))
        elif k == "dag":
            rs[j].dag()
            daggered[j] = True
        elif k == "O0":
            d = QuditCompiler().compile_O0(ion, c)
            for x, g in enumerate(y for y in d.instructions if y.qasm_tag == "rdu"):
                observe(x, own(g), where)
        elif k == "O1":
            if all(len(plan["gates"][x]["q"]) == 2 for x in ks):
                us = [compiling.circuit_unitary(QuditCompiler().compile_O1(ion, c)) for _ in range(2)]
                if np.max(np.abs(us[0] - us[1])) > 1e-6:
                    bad.append(("compiles-differently", f"{where}: two compilations of one circuit give different unitaries"))

    et = {"KeyboardInterrupt": KeyboardInterrupt, "MemoryError": MemoryError}
    errs = {}

    def job(n):
        try:
            act(n, plan["ops"][n])
        except (KeyboardInterrupt, MemoryError) as e:
            errs[n] = e
            if not plan["ops"][n].get("fault"):
                bad.append(("operation-fails", f"operation {n} ({plan['ops'][n]['k']}) raised {type(e).__name__}: {e}"))

    if plan["early"] and not plan["par"]:
        for j, g in enumerate(rs):
            observe(j, own(g), "at creation")
    if plan["par"]:
        sched.install()
        ths = []
        for n, o in enumerate(plan["ops"]):
            t = threading.Thread(target=job, args=(n,), name=f"t{n}")
            t._harness = True
            if o.get("fault"):
                sched.exc_points[f"t{n}"] = (o["fault"][1], et[o["fault"][0]], o["fault"][0])
            ths.append(t)
        for t in ths:
            t.start()
        for t in ths:
            t.join()
        sys.settrace(None)
        ctx.event("ops", [(n, type(errs[n]).__name__ if n in errs else None) for n in range(len(ths))])
    else:
        for n, o in enumerate(plan["ops"]):
            dg = list(daggered)
            hit = []
            if o.get("fault"):
                sys.settrace(pool.raise_at_line(o["fault"][1], et[o["fault"][0]], hit))
            try:
                job(n)
            finally:
                sys.settrace(None)
            if hit:
                ctx.fault("interrupt:" + o["fault"][0])
            ctx.event("op", n, o["k"], type(errs[n]).__name__ if n in errs else None)
            ctx.probe(o["k"])
            if bad:
                break
            if o["k"] == "dag":
                daggered[:] = [bool(g.dagger) for g in rs]
            if daggered != dg:
                check_states(results, seen, rs, own, observe, dg, daggered, state, bad)
    if not bad:
        check_states(results, seen, rs, own, observe, daggered, daggered, state, bad)
    if not bad:
        got = tn.run(c).result().get_state_vector()
        if not models.close(got, state(), 1e-7):
            bad.append(("simulated-differently", "at the end the simulated state does not follow from the gates' matrices"))
    for j in seen:
        for k in range(j):
            if not bad and seen[j].shape == seen[k].shape and np.max(np.abs(seen[j] - seen[k])) < 1e-6:
                bad.append(("gates-coincide", f"gates {k} and {j} are the same unitary"))
    ctx.event("matrices", [[j, np.round(seen[j].ravel()[:3], 6).tolist()] for j in sorted(seen)])
    if bad:
        ctx.violate(*bad[0])


def check_states(results, seen, rs, own, observe, used, now, state, bad):
    """All states recorded so far follow from the matrices (with the inverses in force then)."""
    for j, g in enumerate(rs):
        observe(j, own(g), "afterwards")
    if bad:
        return
    keep = list(now)
    now[:] = used
    want = state()
    now[:] = keep
    for where, s in results:
        if not models.close(s, want, 1e-7):
            bad.append(("simulated-differently", f"{where}: the simulated state does not follow from the gates' matrices"))
            return
    results.clear()


_ = (noise, noisyrun)
