"""C08: a saved circuit loads back as the same circuit after a restart."""
from __future__ import annotations

import copy
import os
import random

import numpy as np

from dst import circfile, histories, models, procs
from dst import fs as simfs

PROPERTY = "C08"
RUNS = {"quick": 2500, "thorough": 40000}
TIME = {"quick": 75, "thorough": 2400}
RULE = ("one evaluation is one simulated history of processes that save circuits, draw and reseed random numbers, and are restarted, followed by a "
        "fresh process that loads every circuit; distinct means a different event log")
COMPONENTS = {"real": ["QuantumCircuit.save_to_file / load_from_file / to_qasm / from_qasm", "QASM parser", "matrix files", "TNSim", "os.fork and a real scratch disk"],
              "stub": ["entropy (seeded per process)", "clocks", "process ids"]}
ASSUMPTIONS = ["random-unitary gates are excluded: their matrix is not part of the file format", "classical registers are not saved"]
SHRINK = ["procs", "ops"]


def gen_threads(rng):
    """Threads that save, load and export: circuits of their own, and one they share."""
    circs = [circfile.gen(rng, rng.randint(1, 5), 0.9) for _ in range(rng.randint(1, 2))]
    ops = []
    for n in range(rng.randint(2, 4)):
        k = rng.choice(["save", "save", "save", "load", "export"])
        ops.append({"k": k, "c": rng.randrange(len(circs)), "own": rng.random() < 0.5, "dir": rng.choice(circfile.DIRS[:3]), "name": f"n{n}"})
    return {"world": {"cost": 0.0}, "par": True, "circuits": circs, "ops": ops, "threads": histories.gen_threads(rng, (0.01, 0.05, 0.2))}


def gen(rng, tier, i):
    if rng.random() < 0.25:
        return gen_threads(rng)
    ps = []
    names = ["c", "c2", "out", "a.b", "pi", "x y"]
    many = i % 60 == 7
    for _ in range(rng.randint(1, 3)):
        ops = []
        for _ in range(rng.randint(1, 5)):
            x = rng.random()
            if x < 0.2:
                ops.append({"op": "reseed", "s": rng.choice([0, 42])})
            elif x < 0.3:
                ops.append({"op": "draw", "n": rng.randint(1, 50)})
            elif x < 0.4:
                ops.append({"op": "fork", "name": "f", "dir": rng.choice(circfile.DIRS), "circuit": circfile.gen(rng)})
            elif x < 0.5:
                ops.append({"op": "crash", "name": "crashed", "dir": rng.choice(circfile.DIRS[:2]), "circuit": circfile.gen(rng, rng.randint(2, 6)),
                            "at": rng.randint(0, 12), "kind": rng.choice(["kill_before", "kill_after", "kill_mid"])})
            elif x < 0.62:
                how, c = circfile.gen_derived(rng)
                ops.append({"op": "derived", "how": how, "dir": rng.choice(circfile.DIRS[:2]), "name": rng.choice(names), "circuit": c})
            else:
                ops.append({"op": "save", "dir": rng.choice(circfile.DIRS[:2]) if rng.random() < 0.6 else rng.choice(circfile.DIRS),
                            "name": rng.choice(names), "circuit": circfile.gen(rng), "rel": rng.random() < 0.25, "slash": rng.random() < 0.2,
                            "twice": rng.random() < 0.2})
        if many:
            dims = [2]
            for k in range(60):
                ops.append({"op": "reseed", "s": 0})
                ops.append({"op": "save", "dir": "d", "name": f"m{k}", "rel": False, "slash": False, "twice": False,
                            "circuit": {"dims": dims, "gates": [{"g": "cu_one", "q": 0, "p": {"mat": [2, k]}}] * rng.randint(1, 4)}})
        ps.append({"ops": ops, "pid": rng.choice([None, 5000]), "at": rng.choice([0.0, 0.0, 3.0])})
    into = [rng.choice([None, None, "same", "same", "gates", "registers", "mapped", "O0", "O1"]) for _ in range(6)]
    return {"world": {"gran": rng.choice([0.0, 1.0, 3600.0])}, "procs": ps, "into": into, "again": rng.random() < 0.3}


def shrink(plan):
    if plan.get("par"):
        for k in range(len(plan["ops"])):
            c = copy.deepcopy(plan)
            del c["ops"][k]
            yield c
        for i, c0 in enumerate(plan["circuits"]):
            for g in range(len(c0["gates"])):
                c = copy.deepcopy(plan)
                del c["circuits"][i]["gates"][g]
                yield c
        return
    if plan["again"]:
        yield {**plan, "again": False}
    for k, x in enumerate(plan["into"]):
        if x:
            yield {**plan, "into": [*plan["into"][:k], None, *plan["into"][k + 1:]]}
    for i, p in enumerate(plan["procs"]):
        for k, o in enumerate(p["ops"]):
            c = copy.deepcopy(plan)
            del c["procs"][i]["ops"][k]
            yield c
            if "circuit" in o:
                for g in range(len(o["circuit"]["gates"])):
                    c = copy.deepcopy(plan)
                    del c["procs"][i]["ops"][k]["circuit"]["gates"][g]
                    yield c


def together(plan, ctx):
    root = ctx.scratch
    for d in circfile.DIRS[:3]:
        os.makedirs(os.path.join(root, d), exist_ok=True)
    circs = [models.build(c) for c in plan["circuits"]]
    before = []
    for k, c in enumerate(circs):
        c.save_to_file(f"before{k}", root)
        before.append(c.to_qasm())
    files = set(os.listdir(root))
    held = {os.path.join(root, f"before{k}.qasm"): p for k, p in enumerate(plan["circuits"])}

    def act(n):
        o = plan["ops"][n]
        c = models.build(plan["circuits"][o["c"]]) if o["own"] else circs[o["c"]]
        if o["k"] == "save":
            return c.save_to_file(o["name"], os.path.join(root, o["dir"]))
        if o["k"] == "export":
            return c.to_qasm()
        return circfile.load(os.path.join(root, f"before{o['c']}.qasm"))

    def judge(n, v, e, _):
        o = plan["ops"][n]
        if e is not None:
            ctx.violate("thread-fails", f"operation {n} ({o}) beside {[x['k'] for x in plan['ops']]} raises {type(e).__name__}: {e}")
            return False
        ctx.probe(o["k"] + "_in_thread")
        w = None
        if o["k"] == "load":
            w = circfile.differ(models.build(plan["circuits"][o["c"]]), v)
        elif o["k"] == "export":
            w = None if v == before[o["c"]] else "another text"
        else:
            held[v] = plan["circuits"][o["c"]]
        if w:
            ctx.violate("threads-disturb", f"operation {n} ({o}) beside {[x['k'] for x in plan['ops']]} gave {w}")
        return not w

    if not histories.execute(plan, ctx, act, judge):
        return
    stray = sorted(set(os.listdir(root)) - files)
    if stray:
        ctx.violate("threads-disturb", f"{[o['k'] for o in plan['ops']]} at the same time left {stray[:3]} in a directory nothing was saved to")
        return
    r = procs.run(ctx, "loader", lambda: [(p, circfile.check_loads(p, c)) for p, c in held.items()], fresh=True)
    if r[0] != "ok":
        ctx.violate("process-crash", f"{r}")
        return
    for path, w in r[1]:
        if w:
            ctx.violate("loads-different", f"{os.path.relpath(path, root)}, saved by one of {[o['k'] for o in plan['ops']]} at the same time: {w}")
            return


def execute(plan, ctx):
    if plan.get("par"):
        return together(plan, ctx)
    from mqt.qudits.quantum_circuit import QuantumCircuit

    root = ctx.scratch
    for d in circfile.DIRS:
        os.makedirs(os.path.join(root, d), exist_ok=True)

    def save(o):
        c = models.build(o["circuit"])
        d = os.path.join(root, o["dir"])
        if o.get("rel"):
            os.chdir(root)
            d = o["dir"]
        if o.get("slash"):
            d += "/"
        if o.get("twice"):
            c.save_to_file(o["name"], d)
        p = c.save_to_file(o["name"], d)
        return os.path.join(root, o["dir"], o["name"] + ".qasm"), os.path.abspath(p)

    def do(p):
        out = []
        for o in p["ops"]:
            ctx.probe(o["op"])
            if o["op"] == "reseed":
                random.seed(o["s"])
                np.random.seed(o["s"])
            elif o["op"] == "draw":
                [random.random() for _ in range(o["n"])]
                np.random.random(o["n"])
            elif o["op"] == "fork":
                r = procs.run(ctx, "f", lambda o=o: save({**o, "name": o["name"] + str(os.getpid())}), fresh=False)
                out.append((r[1], o["circuit"]))
            elif o["op"] == "crash":
                def victim(o=o):
                    simfs.FS(ctx, root, {"faults": [{"at": o["at"], "kind": o["kind"]}]}).install()
                    return save(o)

                r = procs.run(ctx, "x", victim, fresh=False)
                if r == ("exit", 77):
                    ctx.fault("process_kill_while_saving")
            elif o["op"] == "derived":
                try:
                    c = circfile.derive(o["how"], o["circuit"])
                except (TypeError, ValueError, IndexError, KeyError, AttributeError):  # a pass that does not take this circuit
                    ctx.probe("not_derived_" + o["how"])
                    continue
                ctx.probe("derived_" + o["how"])
                told = c.save_to_file(o["name"], os.path.join(root, o["dir"]))
                out.append(((os.path.join(root, o["dir"], o["name"] + ".qasm"), os.path.abspath(told)), c))
            else:
                out.append((save(o), o["circuit"]))
        return out

    held = {}
    for i, p in enumerate(plan["procs"]):
        r = procs.run(ctx, f"p{i}", lambda p=p: do(p), pid=p["pid"], at=p["at"], fresh=True)
        if r[0] != "ok":
            ctx.violate("process-crash", f"{r}")
            return
        for (path, told), circuit in r[1]:
            if os.path.realpath(told) != os.path.realpath(path):
                ctx.violate("wrong-place", f"saved to {told}, asked for {path}")
                return
            held[path] = circuit

    def verify():
        os.chdir("/")
        out = []
        same = QuantumCircuit()
        for k, (path, circuit) in enumerate(held.items()):
            how = plan["into"][k % len(plan["into"])]
            into = same if how == "same" else circfile.used_circuit(how) if how else None
            if how:
                ctx.probe("into_" + how)
            again = (f"again{k}", os.path.join(root, circfile.DIRS[k % 3])) if plan["again"] else None
            w = circfile.check_loads(path, circuit, into, again)
            out.append((path, w))
        return out

    r = procs.run(ctx, "loader", verify, fresh=True)
    if r[0] != "ok":
        ctx.violate("process-crash", f"{r}")
        return
    for path, w in r[1]:
        if w:
            ctx.violate("loads-different", f"{os.path.relpath(path, root)}: {w}")
            return
    ctx.event("loaded", sorted(os.path.relpath(p, root) for p in held))
    ctx.event("circuits", [[len(c["gates"]), c["dims"], [g["g"] for g in c["gates"]]] if isinstance(c, dict) else [len(c.instructions), list(c.dimensions)] for c in held.values()])
