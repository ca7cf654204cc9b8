"""C18: noise-free simulation gives the circuit's state after any history and in threads."""
from __future__ import annotations

import copy
import gc
import math
import sys
import threading

import numpy as np

from dst import models, noise, noisyrun, pool, threads

PROPERTY = "C18"
NATIVE = True
RUNS = {"quick": 2500, "thorough": 60000}
TIME = {"quick": 100, "thorough": 2400}
RULE = ("one evaluation is one simulated history of noise-free runs of several circuits on several backend objects, in between noisy, failing, interrupted and repeated ones "
        "and circuits that grow, one after another or in pre-empted threads, every returned state compared with an independent reference; distinct means a different event log")
COMPONENTS = {"real": ["TNSim", "MISim with its native simulator", "gates and matrix embedding", "QuantumCircuit.simulate", "stochastic_simulation"],
              "stub": ["executor/pool scheduling", "thread scheduling", "entropy", "clocks"]}
ASSUMPTIONS = ["threads interleave at line granularity in repository and tensor-network code", "two-level gates for the decision-diagram simulator name their lower level first"]
SHRINK = ["ops", "circuits"]
TN = [*noisyrun.TN_GATES, "noisex", "noisey", "noisez"]


def gen_circ(rng, mi, ctrl):
    big = rng.random() < 0.15
    if mi and rng.random() < 0.12:
        # enough distinct nodes for the tables of the decision-diagram package to be reused many times over
        dims = [rng.randint(2, 5) for _ in range(rng.choice([3, 4, 5, 6, 6, 7]))]
        c = {**models.gen_circuit(rng, dims, rng.randint(30, 160), models.MI_GATES, dag=0.3, sorted_levels=True), "deep": True}
    elif mi:
        dims = models.gen_dims(rng, 5 if big else 3, rng.choice([2, 3, 4, 5, 7]), 300 if big else 60)
        c = models.gen_circuit(rng, dims, rng.randint(1, 8), models.MI_GATES, ctrl=ctrl, dag=0.3, sorted_levels=True)
    else:
        dims = models.gen_dims(rng, 6 if big else 4, rng.choice([2, 3, 4, 6]), 300 if big else 60)
        c = models.gen_circuit(rng, dims, rng.randint(0, 8), TN, ctrl=0.35, dag=0.3)
        for e in c["gates"]:
            if e["g"] in ("ls", "ms") and rng.random() < 0.5:
                e["q"] = e["q"][::-1]
    if rng.random() < 0.25 and len(dims) > 1:
        k = rng.randint(1, len(dims) - 1)
        c["regs"] = [["a", k], ["b", len(dims) - k]]
    return c


def reparam(rng, c):
    """The same gates on the same qudits in another order, some of them inverted."""
    c = copy.deepcopy(c)
    rng.shuffle(c["gates"])
    for e in c["gates"]:
        if rng.random() < 0.4:
            e["dag"] = not e.get("dag")
    return c


def gen(rng, tier, i):
    par = rng.random() < 0.35
    mi = rng.random() < 0.5
    ctrl = 0.3 if mi and rng.random() < 0.15 else 0.0
    circs = [gen_circ(rng, mi, ctrl) for _ in range(rng.randint(1, 3))]
    ops = []
    start, circs = circs, list(circs)
    for _ in range(rng.randint(2, 4) if par else rng.randint(3, 9)):
        k = rng.choice(["run", "run", "run", "run", "sim", "noisy", "bad", "add", "gc", "new", "invert", "rebuild", "rebuild", "reorder", "unsupported"]) if not par else rng.choice(["run", "run", "sim"])
        o = {"k": k, "c": rng.randrange(len(circs)), "b": rng.choice(["tn", "mi", "mi"] if mi else ["tn"]), "again": rng.random() < 0.2}
        if par and rng.random() < 0.3:
            o["own"] = True  # a circuit built in the thread itself
        if par and rng.random() < 0.5:
            o["shared"] = True  # a backend that other threads use as well
        if rng.random() < 0.2:
            o["fault"] = [rng.choice(["KeyboardInterrupt", "MemoryError"]), rng.choice([rng.randint(1, 40), rng.randint(1, 400)])]
        if k == "add":
            cc = circs[o["c"]]
            o["gate"] = models.gen_gate(rng, cc["dims"], models.MI_GATES if mi else TN, ctrl=ctrl if mi else 0.35, dag=0.3, sorted_levels=mi)
        if k == "rebuild":
            same = rng.random() < 0.6  # the same shape with other parameters
            o["circuit"] = circs[o["c"]] = reparam(rng, circs[o["c"]]) if same else gen_circ(rng, mi, ctrl)
        if k == "unsupported":  # by the decision-diagram simulator
            d = [rng.choice([2, 3, 4, 8, 9]) for _ in range(rng.randint(1, 3))]
            o["circuit"] = models.gen_circuit(rng, d, rng.randint(1, 4), TN, dag=0.3, sorted_levels=True)
            o["shots"] = rng.choice([0, 0, 50])
        if k == "noisy":
            o["noise"] = noise.gen_noise(rng, circs[o["c"]], {"tn": "tnsim", "mi": "misim"}[o["b"]], n_max=2)
        o["dims"] = circs[o["c"]]["dims"]
        ops.append(o)
    return {"world": {"cost": 0.0}, "par": par, "circuits": start, "ops": ops, "pool": {"tie": rng.randrange(100)},
            "threads": {"seed": rng.randrange(1 << 30), "prob": rng.choice([0.001, 0.01, 0.05])}}


def shrink(plan):
    for i, c0 in enumerate(plan["circuits"]):
        for k in range(len(c0["gates"])):
            c = copy.deepcopy(plan)
            del c["circuits"][i]["gates"][k]
            yield c
    for i, o in enumerate(plan["ops"]):
        for k in ("fault", "again", "own", "shared"):
            if o.get(k):
                c = copy.deepcopy(plan)
                del c["ops"][i][k]
                yield c


def execute(plan, ctx):
    from mqt.qudits.simulation import MQTQuditProvider
    from mqt.qudits.simulation.noise_tools import Noise, NoiseModel

    if not plan["circuits"]:
        return
    pool.install(ctx, plan["pool"])
    sched = threads.Scheduler(ctx, {"line_cost": 0.0, **plan["threads"], "trace": bool(plan["par"])})
    sched.adopt_main()
    prov = MQTQuditProvider()
    backends = {"tn": prov.get_backend("tnsim"), "mi": prov.get_backend("misim")}
    plans = [copy.deepcopy(c) for c in plan["circuits"]]
    circs = [models.build(c) for c in plans]
    bad = NoiseModel()
    bad.add_nonlocal_quantum_error_on_control(Noise(0.1, 0.1), sorted(set(models.TAGS.values())))
    bad.add_nonlocal_quantum_error(Noise(0.1, 0.1), sorted(set(models.TAGS.values())))
    et = {"KeyboardInterrupt": KeyboardInterrupt, "MemoryError": MemoryError}
    for p in plans:
        ctx.event("circuit", p["dims"], [[noise.tag(e), e.get("q"), bool(e.get("c")), bool(e.get("dag"))] for e in p["gates"]])

    def usable(p, b):
        return b == "tn" and not p.get("deep") or b == "mi" and all(e["g"] in models.MI_GATES and not (e["g"] in ("r", "rz", "rh") and e["p"][0] > e["p"][1]) for e in p["gates"])

    def check(n, b, p, got):
        want = models.state(p)
        a = np.asarray(got)
        if a.size != want.size:
            return ("state-shape", f"operation {n}: state of shape {a.shape} for dimensions {p['dims']}")
        if models.close(a, want, 1e-6):
            ctx.probe("states_" + b)
            return None
        if b == "mi" and any(e.get("c") for e in p["gates"]):
            q = {**p, "gates": [{k: v for k, v in e.items() if k != "c"} for e in p["gates"]]}
            if models.close(a, models.state(q), 1e-6):
                return ("misim:controls-ignored", f"operation {n}: the decision-diagram simulator returns the state without the controls of {[e['g'] for e in p['gates'] if e.get('c')]}")
        return ("wrong-state:" + b, f"operation {n} on {b}: circuit {p['dims']} {p['gates']} gave {np.round(a.ravel(), 4).tolist()[:16]} instead of {np.round(want, 4).tolist()[:16]}")

    def act(n, o):
        p, c = plans[o["c"]], circs[o["c"]]
        b = o["b"] if usable(p, o["b"]) else "tn"
        if p.get("deep"):
            b = "mi"
            ctx.probe("deep_circuits")
        be = backends[b]
        if plan["par"] and not o.get("shared"):
            be = MQTQuditProvider().get_backend({"tn": "tnsim", "mi": "misim"}[b])
            if o.get("own"):
                c = models.build(p)
        if o["k"] == "run":
            return b, [be.run(c).result().get_state_vector() for _ in range(1 + bool(o.get("again")))]
        if o["k"] == "sim":
            if p.get("deep"):
                return b, []
            return "tn", [c.simulate() for _ in range(1 + bool(o.get("again")))]
        if o["k"] == "noisy" and not p.get("deep") and o["noise"] and usable(p, o["b"]) and p["gates"]:
            if not all(noise._ok(e, p, {"tn": "tnsim", "mi": "misim"}[o["b"]]) for e in o["noise"]):
                return b, []
            return b, [be.run(c, noise_model=noise.build(o["noise"]), shots=50).result().get_state_vector()]
        if o["k"] == "unsupported":
            q = o["circuit"]
            try:
                if o["shots"]:
                    nm = NoiseModel()
                    nm.add_quantum_error_locally(Noise(0.1, 0.1), sorted({noise.tag(e) for e in q["gates"]}))
                    s = backends["mi"].run(models.build(q), noise_model=nm, shots=50).result().get_state_vector()
                else:
                    s = backends["mi"].run(models.build(q)).result().get_state_vector()
            except Exception:  # noqa: BLE001
                ctx.probe("refused")
                if all(e["g"] in models.MI_GATES for e in q["gates"]) and max(q["dims"]) <= 7:
                    raise
                return b, []
            if not models.close(s, models.state(q), 1e-6):
                return b, [("unsupported", q, s)]
            ctx.probe("not_refused")
        elif o["k"] == "bad":
            be.run(c, noise_model=bad, shots=50 if n % 2 else 10)
        elif o["k"] == "gc":
            gc.collect()
        elif o["k"] == "new":
            backends[o["b"]] = prov.get_backend({"tn": "tnsim", "mi": "misim"}[o["b"]])
        return b, []

    outs = {}

    def job(n):
        o = plan["ops"][n]
        try:
            outs[n] = (act(n, o), None)
        except (KeyboardInterrupt, Exception) as e:  # noqa: BLE001
            outs[n] = (None, e)

    known = []
    kept = []

    def report(n):
        o = plan["ops"][n]
        r, e = outs.get(n, (None, None))
        ctx.event("op", n, o["k"], None if e is None else type(e).__name__)
        if e is not None:
            if not isinstance(e, (KeyboardInterrupt, MemoryError)) and o["k"] != "bad" or not o.get("fault") and o["k"] != "bad":
                ctx.violate("run-fails", f"operation {n} ({o['k']} on {o['b']}, circuit {plans[o['c']]}) raised {type(e).__name__}: {e}")
                return False
            ctx.probe("failed_ops")
            return True
        b, states = r
        for s in states:
            if isinstance(s, tuple) and s[0] == "unsupported":
                ctx.violate("wrong-state:mi", f"operation {n}: the decision-diagram simulator neither refuses the circuit {s[1]} nor gives its state")
                return False
            v = check(n, b, plans[o["c"]], s)
            if v and v[0] == "misim:controls-ignored":
                known.append(v)
            elif v:
                ctx.violate(*v)
                return False
            kept.append((n, s, np.array(s, copy=True)))
            ctx.event("state", np.round(np.ravel(s), 6).tolist()[:12])
        return True

    if plan["par"]:
        sched.install()
        ths = []
        for n, o in enumerate(plan["ops"]):
            t = threading.Thread(target=job, args=(n,), name=f"t{n}")
            t._harness = True
            if o.get("fault"):
                sched.exc_points[f"t{n}"] = (o["fault"][1], et[o["fault"][0]], o["fault"][0])
            ths.append(t)
        for t in ths:
            t.start()
        for t in ths:
            t.join()
        sys.settrace(None)
        for n in range(len(plan["ops"])):
            if not report(n):
                return
    else:
        for n, o in enumerate(plan["ops"]):
            if o["k"] in ("add", "noisy") and o["dims"] != plans[o["c"]]["dims"]:
                continue
            if o["k"] == "add":
                models.add_gate(circs[o["c"]], o["gate"])
                plans[o["c"]]["gates"].append(o["gate"])
                continue
            if o["k"] == "invert":  # in place
                free = [j for j, e in enumerate(plans[o["c"]]["gates"]) if not e.get("dag")]
                if free:
                    j = free[n % len(free)]
                    circs[o["c"]].instructions[j].dag()
                    plans[o["c"]]["gates"][j]["dag"] = True
                    ctx.probe("inverted_in_place")
                continue
            if o["k"] == "reorder":
                c = circs[o["c"]]
                c.set_instructions(list(reversed(c.instructions)))
                plans[o["c"]]["gates"].reverse()
                ctx.probe("reordered")
                continue
            if o["k"] == "rebuild":  # the old one is gone before the new one is made, which may take its place in memory
                plans[o["c"]] = copy.deepcopy(o["circuit"])
                old = id(circs[o["c"]])
                circs[o["c"]] = outs[n - 1] = None
                if n % 2:
                    gc.collect()
                circs[o["c"]] = models.build(plans[o["c"]])
                ctx.probe("rebuilt_in_the_same_place" if id(circs[o["c"]]) == old else "rebuilt")
                continue
            hit = []
            if o.get("fault"):
                sys.settrace(pool.raise_at_line(o["fault"][1], et[o["fault"][0]], hit))
            try:
                job(n)
            finally:
                sys.settrace(None)
            if hit:
                ctx.fault("interrupt:" + o["fault"][0])
            if not report(n):
                return
    # afterwards every circuit still gives its state, on every backend it can run on
    for i, (c, p) in enumerate(zip(circs, plans)):
        got = {b: backends[b].run(c).result().get_state_vector() for b in ("tn", "mi") if usable(p, b)}
        for b, s in got.items():
            v = check(f"final {i}", b, p, s)
            if v and v[0] == "misim:controls-ignored":
                known.append(v)
            elif v:
                ctx.violate(*v)
                return
    for n, s, was in kept:
        if not np.array_equal(np.asarray(s), was):
            ctx.violate("returned-state-changes", f"the state that operation {n} returned is another one after later runs")
            return
    if known:
        ctx.violate(*known[0])


_ = math
