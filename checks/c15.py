"""C15: compilation is right whatever happened to the backend before."""
from __future__ import annotations

import math
import sys
import threading

from dst import compiling, models, pool, threads

PROPERTY = "C15"
RUNS = {"quick": 4000, "thorough": 100000}
TIME = {"quick": 90, "thorough": 2400}
RULE = ("one evaluation is one simulated history of compilations at several levels with shared and separate backends, some interrupted or failing at a "
        "chosen repository line, one after another or in pre-empted threads; distinct means a different event log")
COMPONENTS = {"real": ["QuditCompiler", "all compiler passes it uses", "LevelGraph", "swap routines", "Lanes", "backends' level graphs"],
              "stub": ["thread scheduling", "interrupts and memory errors at chosen repository lines"]}
ASSUMPTIONS = ["threads interleave at line granularity in repository code", "the circuit uses all levels of the backend's qudits",
               "phases below 1e-4 may be dropped: unitaries are compared to 2e-3"]
SHRINK = ["ops", "threads.points"]
LISTS = {"ada": ["PhyLocAdaPass", "PhyEntQRCEXPass"], "qr": ["PhyLocQRPass", "PhyEntQRCEXPass"], "log": ["LogLocQRPass", "LogEntQRCEXPass"], "ent": ["PhyEntQRCEXPass"]}
LOGICAL = {"log", "log_qr", "log_ada", "log_ent"}  # the result acts on logical levels
ALONE = ["log_qr", "log_ada", "log_ent", "phy_qr"]  # a pass of its own
ADA = ("O2", "ada", "log_ada")


def gen(rng, tier, i):
    par = rng.random() < 0.4
    names = [rng.choice(["faketraps2trits", "faketraps2trits", "faketraps2six", "faketraps3six", "innsbruck01"]) for _ in range(rng.choice([1, 1, 2]))]
    ops = []
    circs = []
    for _ in range(rng.randint(1, 3)):
        b = rng.randrange(len(names))
        circs.append({"fits": names[b], **compiling.gen_case(rng, names[b], 3 if par else 5, two=0.05 if par else 0.25)})
    for c in circs:
        if rng.random() < 0.25:  # gates that occur several times, as one object
            heavy = par and any(e["g"] in compiling.TWO for e in c["gates"])
            c["order"] = [rng.randrange(len(c["gates"])) for _ in range(rng.randint(2, 3 if heavy else 6))] if c["gates"] else []
    for c in circs:
        if rng.random() < (0.5 if any(e["g"] in ("ls", "ms") for e in c["gates"]) else 0.2):
            small_angles(rng, c)
    for k in range(rng.randint(2, 5) if not par else rng.randint(2, 4)):
        b = rng.randrange(len(names))
        fit = [j for j, c in enumerate(circs) if c["dims"] == compiling.BACKENDS[names[b]][:len(c["dims"])]]
        if not fit:
            circs.append(compiling.gen_case(rng, names[b], 3 if par else 5, two=0.05 if par else 0.25))
            fit = [len(circs) - 1]
        o = {"b": b, "c": rng.choice(fit), "level": rng.choice(["O0", "O0", "O1", "O1", "O2", "O2", "O2", "ada", "qr", "log", "ent", rng.choice(ALONE)])}
        x = rng.random()
        if x < 0.25:
            o["fault"] = [rng.choice(["KeyboardInterrupt", "MemoryError"]), rng.choice([rng.randint(1, 200), rng.randint(1, 1500), rng.randint(1, 6000)])]
        ops.append(o)
    for o in ops:  # the adaptive search takes minutes on dense six-level gates
        c = circs[o["c"]]
        if o["level"] in ADA and max(c["dims"]) > 3 and any(e["g"] in ("h", "x", "pm", "cu_one", "s") for e in c["gates"]):
            o["level"] = "qr"
    ops.append({"b": 0 if not par else rng.randrange(len(names)), "c": 0, "level": rng.choice(["O0", "O1"])})
    if compiling.BACKENDS[names[ops[-1]["b"]]][:len(circs[0]["dims"])] != circs[0]["dims"]:
        ops[-1]["b"] = names.index(circs[0].get("fits", names[0])) if circs[0].get("fits") in names else 0
    for o in ops:  # thousands of gates
        c = circs[o["c"]]
        if o["level"] in ("log", "log_ent") and max(c["dims"]) > 3 and any(isinstance(e["q"], list) for e in c["gates"]):
            o["level"] = "O2" if not any(e["g"] in ("h", "x", "pm", "cu_one", "s") for e in c["gates"]) else "O0"
    return {"world": {"cost": 0.0}, "par": par, "backends": names, "circuits": circs, "ops": ops, "warm": rng.random() < 0.5,
            "threads": {"seed": rng.randrange(1 << 30), "prob": rng.choice([0.0005, 0.003, 0.02])}}


def small_angles(rng, c):
    """Angles that are small, but not small enough to be dropped."""
    for e in c["gates"]:
        if e["g"] in ("r", "rz", "virtrz", "ls", "ms") and rng.random() < 0.7:
            k = 2 if e["g"] == "r" else len(e["p"]) - 1
            e["p"][k] = round((1 if e["g"] in compiling.TWO else rng.choice([1, 1, -1])) * rng.uniform(0.008, 0.06), 6) + rng.choice([0, 0, 0, math.pi])


def do(comp, be, c, level):
    from mqt.qudits.compiler.onedit import LogLocAdaPass, LogLocQRPass, PhyLocQRPass
    from mqt.qudits.compiler.twodit import LogEntQRCEXPass

    if level in ("O0", "O1", "O2"):
        return getattr(comp, "compile_" + level)(be, c)
    if level in LISTS:
        return comp.compile(be, c, LISTS[level])
    return {"log_qr": LogLocQRPass, "log_ada": LogLocAdaPass, "log_ent": LogEntQRCEXPass, "phy_qr": PhyLocQRPass}[level](be).transpile(c)


def execute(plan, ctx):
    from mqt.qudits.compiler import QuditCompiler
    from mqt.qudits.simulation import MQTQuditProvider

    prov = MQTQuditProvider()
    bes = [prov.get_backend(n) for n in plan["backends"]]
    start = [compiling.graphs_fingerprint(prov.get_backend(n)) for n in plan["backends"]]
    maps = [[list(g[0]) for g in s] for s in start]
    if plan["warm"]:
        for be in bes:
            compiling.maps_of(be)
    circs, refs = [], []
    for p in plan["circuits"]:
        c = models.build(p)
        if "order" in p:
            once = list(c.instructions)
            c.set_instructions([once[k] for k in p["order"]])
            p = {**p, "gates": [p["gates"][k] for k in p["order"]]}
        circs.append(c)
        refs.append(compiling.plan_unitary(p))
    sched = threads.Scheduler(ctx, {"line_cost": 0.0, "max_lines": 24_000_000, **plan["threads"], "trace": bool(plan["par"])})
    out = {}

    def job(n):
        o = plan["ops"][n]
        cc = None
        try:
            cc = do(QuditCompiler(), bes[o["b"]], circs[o["c"]], o["level"])
            out[n] = (cc, None)
        except (KeyboardInterrupt, MemoryError) as e:
            out[n] = (None, e)
        except Exception as e:  # noqa: BLE001
            import traceback

            out[n] = (None, e)
            ctx.event("raised", n, traceback.format_exc()[-300:])

    def judge(n):
        o = plan["ops"][n]
        cc, err = out[n]
        ctx.event("op", n, o["level"], None if err is None else type(err).__name__, None if cc is None else len(cc.instructions))
        ctx.probe(o["level"] + ("_failed" if err is not None else ""))
        if err is not None:
            if isinstance(err, (KeyboardInterrupt, MemoryError)) and o.get("fault"):
                return True
            ctx.violate("compile-fails", f"compilation {n} with {o['level']} for {plan['backends'][o['b']]} raised {type(err).__name__}: {err}")
            return False
        mixed = any(isinstance(e["q"], list) for e in plan["circuits"][o["c"]]["gates"])
        if o["level"] == "ent" or (o["level"] == "phy_qr" and mixed):  # part of the circuit remains as it was
            return True
        dims = plan["circuits"][o["c"]]["dims"]
        mi = [m for m, _ in zip(maps[o["b"]], dims)]
        mf = mi if o["level"] == "phy_qr" else cc.mappings
        if o["level"] in LOGICAL:
            mi = mf = [list(range(d)) for d in dims]
        if mf is None or [sorted(m) for m in mf] != [list(range(d)) for d in dims]:
            ctx.violate("mapping", f"compilation {n} with {o['level']} reports the mappings {mf} for {dims}")
            return False
        if list(cc.dimensions) != dims:
            ctx.violate("dimensions", f"compiled circuit has dimensions {cc.dimensions}")
            return False
        v = compiling.circuit_unitary(cc)
        want = compiling.place(mf, dims) @ refs[o["c"]] @ compiling.place(mi, dims).T
        d = compiling.differs(v, want)
        if d is not None:
            ctx.violate("wrong-circuit", f"compilation {n} with {o['level']} for {plan['backends'][o['b']]} (mappings {mi} to {mf}) gives a circuit that differs from its source by {d}")
            return False
        return True

    def graphs(n):
        for k, be in enumerate(bes):
            got = compiling.graphs_fingerprint(be)
            if [g[0] for g in got] != [g[0] for g in start[k]]:
                ctx.violate("backend-mapping-changed", f"after compilation {n} the level mappings of backend {k} are {[g[0] for g in got]}, they were {[g[0] for g in start[k]]}")
                return False
        return True

    sched.adopt_main()
    if plan["par"]:
        sched.install()
        ths = []
        for n, o in enumerate(plan["ops"]):
            t = threading.Thread(target=job, args=(n,), name=f"t{n}")
            t._harness = True
            if o.get("fault"):
                sched.exc_points[f"t{n}"] = (o["fault"][1], {"KeyboardInterrupt": KeyboardInterrupt, "MemoryError": MemoryError}[o["fault"][0]], o["fault"][0])
            ths.append(t)
        for t in ths:
            t.start()
        for t in ths:
            t.join()
        sys.settrace(None)
        for name, msg in ctx.extra.get("thread_exceptions", []):
            ctx.violate("unexpected-exception", f"{name}: {msg}")
        for n in range(len(plan["ops"])):
            if n not in out or not judge(n):
                return
        graphs("of all threads")
        return
    for n, o in enumerate(plan["ops"]):
        f = o.get("fault")
        hit = []
        if f:
            sys.settrace(pool.raise_at_line(f[1], {"KeyboardInterrupt": KeyboardInterrupt, "MemoryError": MemoryError}[f[0]], hit))
        try:
            job(n)
        finally:
            sys.settrace(None)
        if hit:
            ctx.fault("interrupt:" + f[0])
        elif f:
            ctx.probe("fault_after_end")
        if not judge(n) or not graphs(n):
            return
