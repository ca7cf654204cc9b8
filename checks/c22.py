"""C22: a compiler pass gives the result it gives in a fresh process, whatever was compiled before or at the same time."""
from __future__ import annotations

import copy

import numpy as np

from dst import compiling, histories, models, procs

PROPERTY = "C22"
RUNS = {"quick": 2000, "thorough": 40000}
TIME = {"quick": 90, "thorough": 2400}
RULE = ("one evaluation is one simulated history of compilations with lists of passes, all optimisation levels and single passes, with shared and separate backends, "
        "some interrupted or out of memory at a chosen repository line, one after another or in pre-empted threads; every result is compared with that of a pristine "
        "process; distinct means a different event log")
COMPONENTS = {"real": ["QuditCompiler and every registered pass", "LevelGraph", "Lanes", "backends' level graphs", "two-qudit QR decomposition"],
              "stub": ["thread scheduling", "interrupts and memory errors at chosen repository lines", "processes (forked from one that has compiled nothing)"]}
ASSUMPTIONS = ["threads interleave at line granularity in repository code", "a process forked before anything was compiled stands for a fresh one"]
SHRINK = ["ops", "threads.points"]
LOC = ["PhyLocQRPass", "PhyLocAdaPass", "LocQRPass", "LocAdaPass", "LogLocQRPass"]
ENT = ["LogEntQRCEXPass", "PhyEntQRCEXPass"]
OPT = ["ZPropagationOptPass", "ZRemovalOptPass", "NaiveLocResynthOptPass"]
ALONE = ["zprop", "zprop_front", "zrem", "resynth", "logent", "log_qr", "log_ada", "phy_qr"]
ADA = {"PhyLocAdaPass", "LocAdaPass", "O2", "log_ada"}


def gen_circ(rng, names):
    b = rng.choice(names)
    full = compiling.BACKENDS[b]
    n = rng.randint(1, min(2, len(full)))
    x = rng.random()
    if x < 0.35:  # what the phase passes work on
        return models.gen_circuit(rng, full[:n], rng.randint(2, 7), ["r", "r", "virtrz", "virtrz", "rz", "z"] + (["cx"] if n > 1 else []), dag=0.1)
    two = (["cx", "cx"] + (["csum", "ls", "ms", "cu_two"] if max(full) < 4 else [])) if n > 1 else []
    return models.gen_circuit(rng, full[:n], rng.randint(1, 4), compiling.LOCAL + two, dag=0.25)


def variant(rng, c):
    """A circuit much like c."""
    c = copy.deepcopy(c)
    k = rng.randrange(len(c["gates"]))
    e = c["gates"][k]
    x = rng.random()
    if x < 0.35:
        e["dag"] = not e.get("dag")
    elif x < 0.7 and isinstance(e.get("p"), list) and e["p"] and isinstance(e["p"][-1], float):
        e["p"][-1] = round(e["p"][-1] + rng.choice([1e-3, 0.5, -1.0, 1e-7]), 9)
        if e["g"] in ("cx", "ls", "ms"):
            e["p"][-1] %= 6.28
    elif x < 0.85:
        c["gates"].append(copy.deepcopy(e))
    elif len(c["gates"]) > 1:
        del c["gates"][k]
    return c


def gen(rng, tier, i):
    par = rng.random() < 0.3
    names = [rng.choice(["faketraps2trits", "faketraps2trits", "innsbruck01", "faketraps2six", "faketraps3six"]) for _ in range(rng.choice([1, 1, 2]))]
    circs = [gen_circ(rng, names)]
    while len(circs) < rng.randint(1, 3):
        circs.append(variant(rng, circs[0]) if rng.random() < 0.6 else gen_circ(rng, names))
    ops = []
    for k in range(rng.randint(2, 4)):
        c = rng.randrange(len(circs))
        fit = [j for j, b in enumerate(names) if compiling.BACKENDS[b][:len(circs[c]["dims"])] == circs[c]["dims"]]
        o = {"c": c, "b": rng.choice(fit)}
        heavy = max(circs[c]["dims"]) > 3 and any(e["g"] in ("h", "x", "pm", "cu_one", "s") for e in circs[c]["gates"])
        x = rng.random()
        if x < 0.35:
            o["how"] = rng.choice(["O0", "O1", "O2"])
        elif x < 0.7:
            o["how"] = rng.choice([[rng.choice(LOC)], [rng.choice(LOC), rng.choice(ENT)], [rng.choice(ENT)], [rng.choice(LOC), rng.choice(OPT)], [rng.choice(OPT)]])
        else:
            o["how"] = rng.choice(ALONE)
        hs = o["how"] if isinstance(o["how"], list) else [o["how"]]
        if heavy and ADA & set(hs):
            o["how"] = ["PhyLocQRPass"]
        if max(circs[c]["dims"]) > 3 and {"logent", "LogEntQRCEXPass"} & set(hs) and any(isinstance(e["q"], list) for e in circs[c]["gates"]):
            o["how"] = "O0"  # two-qudit QR decompositions of six levels take too long
        f = histories.gen_fault(rng, 0.25, [200, 1500, 6000])
        if f:
            o["fault"] = f
        if ops and rng.random() < 0.35:  # the same again
            o = {k: v for k, v in copy.deepcopy(rng.choice(ops)).items() if k != "fault"}
        ops.append(o)
    return {"world": {"cost": 0.0}, "par": par, "backends": names, "circuits": circs, "ops": ops, "again": rng.random() < 0.5, "threads": histories.gen_threads(rng)}


def do(comp, be, c, how):
    from mqt.qudits.compiler.naive_local_resynth import NaiveLocResynthOptPass
    from mqt.qudits.compiler.onedit import LogLocAdaPass, LogLocQRPass, PhyLocQRPass, ZPropagationOptPass, ZRemovalOptPass
    from mqt.qudits.compiler.twodit import LogEntQRCEXPass

    if isinstance(how, list):
        return comp.compile(be, c, list(how))
    if how in ("O0", "O1", "O2"):
        return getattr(comp, "compile_" + how)(be, c)
    p = {"zprop": lambda: ZPropagationOptPass(be), "zprop_front": lambda: ZPropagationOptPass(be, False), "zrem": lambda: ZRemovalOptPass(be),
         "resynth": lambda: NaiveLocResynthOptPass(be), "logent": lambda: LogEntQRCEXPass(be),
         "log_qr": lambda: LogLocQRPass(be), "log_ada": lambda: LogLocAdaPass(be), "phy_qr": lambda: PhyLocQRPass(be)}[how]()
    return p.transpile(c)


def flat(c):
    """What a compiled circuit is made of."""
    gates = []
    for g in c.instructions:
        p = g.control_info["params"]
        num = []
        for x in (p if isinstance(p, (list, tuple)) else [] if p is None else [p]):
            num += [complex(y) for y in np.asarray(x, dtype=complex).ravel()] if isinstance(x, (int, float, complex, np.ndarray, np.generic, list)) else []
        if g.qasm_tag == "rxy" and len(num) == 4:  # the order of its levels makes no difference
            num[:2] = sorted(num[:2], key=lambda x: x.real)
        cd = g.control_info["controls"]
        q = g.target_qudits
        gates.append((g.qasm_tag, [q] if isinstance(q, int) else list(q), bool(g.dagger), None if cd is None else (list(cd.indices), list(cd.ctrl_states)), num))
    return {"dims": list(c.dimensions), "mappings": c.mappings and [list(m) for m in c.mappings], "gates": gates}


def compare(a, b):
    if a["dims"] != b["dims"]:
        return f"dimensions {a['dims']} instead of {b['dims']}"
    if a["mappings"] != b["mappings"]:
        return f"mappings {a['mappings']} instead of {b['mappings']}"
    if len(a["gates"]) != len(b["gates"]):
        return f"{len(a['gates'])} gates instead of {len(b['gates'])}"
    for k, (x, y) in enumerate(zip(a["gates"], b["gates"])):
        if x[:4] != y[:4]:
            return f"gate {k} is {x[:4]} instead of {y[:4]}"
        if len(x[4]) != len(y[4]) or not np.allclose(x[4], y[4], rtol=0, atol=1e-6, equal_nan=True):
            return f"gate {k} ({x[:4]}) has the parameters {x[4][:6]} instead of {y[4][:6]}"
    return None


def execute(plan, ctx):
    from mqt.qudits.compiler import QuditCompiler
    from mqt.qudits.simulation import MQTQuditProvider

    prov = MQTQuditProvider()

    def pristine(o):
        c = models.build(plan["circuits"][o["c"]])
        try:
            return "ok", flat(do(QuditCompiler(), prov.get_backend(plan["backends"][o["b"]]), c, o["how"]))
        except Exception as e:  # noqa: BLE001
            return "error", type(e).__name__

    refs, seen = [], {}
    for o in plan["ops"]:
        key = (o["c"], o["b"], str(o["how"]))
        if key not in seen:
            seen[key] = procs.run(ctx, f"p{len(seen)}", lambda o=o: pristine(o))[1]
        refs.append(seen[key])
    bes = [prov.get_backend(n) for n in plan["backends"]]
    circs = [models.build(p) for p in plan["circuits"]]
    comp = QuditCompiler()

    def act(n):
        o = plan["ops"][n]
        return do(comp, bes[o["b"]], circs[o["c"]], o["how"])

    def judge(n, cc, err, faulty):
        o = plan["ops"][n]
        ctx.probe(str(o["how"]) + ("_failed" if err is not None else ""))
        if faulty:
            return True
        if err is not None:
            if refs[n][0] == "error":
                return True
            ctx.violate("fails-after-history", f"operation {n} ({o['how']} for {plan['backends'][o['b']]}) raised {type(err).__name__}: {err}; a fresh process compiles it")
            return False
        if refs[n][0] == "error":
            ctx.violate("succeeds-after-history", f"operation {n} ({o['how']} for {plan['backends'][o['b']]}) gave a circuit; a fresh process raises {refs[n][1]}")
            return False
        got = flat(cc)
        ctx.event("compiled", n, str(o["how"]), [g[:2] for g in got["gates"]][:40], len(got["gates"]))
        d = compare(got, refs[n][1])
        if d:
            ctx.violate("differs", f"operation {n} ({o['how']} for {plan['backends'][o['b']]}) gives another circuit than a fresh process: {d}")
            return False
        return True

    histories.execute(plan, ctx, act, judge)

