"""C09: a failed circuit save harms neither the circuit nor earlier files."""
from __future__ import annotations

import copy
import os

from dst import circfile, models, procs, savecase
from dst import fs as simfs

PROPERTY = "C09"
RUNS = {"quick": 2500, "thorough": 60000}
TIME = {"quick": 75, "thorough": 2400}
RULE = ("one evaluation is one simulated history of circuit saves to shared directories, some hit by disk faults or interrupts at numbered disk steps; "
        "after each failed one the circuit in memory and all earlier files are examined; distinct means a different event log")
COMPONENTS = {"real": ["QuantumCircuit.save_to_file / load_from_file / to_qasm", "matrix files", "TNSim"],
              "stub": ["disk (real scratch files behind an interposed layer)", "entropy", "clocks"]}
ASSUMPTIONS = ["no operating-system crash"]
SHRINK = ["ops"]


def gen(rng, tier, i):
    ops = []
    n = rng.randint(1, 3)
    circs = [circfile.gen(rng, custom=0.8) for _ in range(n)]
    for _ in range(rng.randint(2, 8)):
        ops.append({"c": rng.randrange(n), "dir": rng.choice(["d", "d", "e", "missing", "file"]), "name": rng.choice(["a", "b", "c", "a", "b", "c", "a\0", "x" * 300, None]),
                    "add": rng.random() < 0.25, "reseed": rng.random() < 0.3,
                    "faults": savecase.gen_faults(rng, savecase.KINDS + ["kbd"], horizon=14) if rng.random() < 0.6 else []})
    return {"world": {}, "circuits": circs, "ops": ops}


def shrink(plan):
    for i, c0 in enumerate(plan["circuits"]):
        for k in range(len(c0["gates"])):
            c = copy.deepcopy(plan)
            del c["circuits"][i]["gates"][k]
            yield c
    for i, o in enumerate(plan["ops"]):
        for k in range(len(o["faults"])):
            c = copy.deepcopy(plan)
            del c["ops"][i]["faults"][k]
            yield c


def execute(plan, ctx):
    import random

    fs = simfs.FS(ctx, ctx.scratch, {})
    fs.install()
    fs.active = False
    for d in ("d", "e"):
        os.mkdir(os.path.join(ctx.scratch, d))
    with open(os.path.join(ctx.scratch, "file"), "w") as f:
        f.write("x")
    plans = [copy.deepcopy(c) for c in plan["circuits"]]
    circs = [models.build(c) for c in plans]
    held = {}
    for j, o in enumerate(plan["ops"]):
        c, cp = circs[o["c"]], plans[o["c"]]
        if o["add"]:
            e = {"g": "h", "q": 0}
            models.add_gate(c, e)
            cp["gates"].append(e)
        if o["reseed"]:
            random.seed(0)
        fp, qasm = models.circuit_fingerprint(c), c.to_qasm()
        fs.n, fs.faults = 0, list(o["faults"])
        before = dict(ctx.faults)
        fs.active = True
        d = os.path.join(ctx.scratch, o["dir"])
        badname = o["name"] not in ("a", "b", "c")
        path = os.path.join(d, str(o["name"]) + ".qasm")
        try:
            c.save_to_file(o["name"], d)
            err = None
        except (Exception, KeyboardInterrupt) as e:  # noqa: BLE001
            err = type(e).__name__
        full = fs.full or fs.denied
        fs.active = False
        fs.heal()
        hit = [k for k in ctx.faults if ctx.faults[k] > before.get(k, 0) and k != "short_write"]
        ctx.event("save", j, err, hit)
        if err is None:
            if o["dir"] in ("missing", "file") or badname:
                ctx.violate("bad-place-accepted", f"save {j} to a {o['dir']} directory under the name {o['name']!r} returned normally")
                return
            ctx.probe("saved")
            held[path] = copy.deepcopy(cp)
        else:
            ctx.probe("failed:" + ("place" if o["dir"] in ("missing", "file") else "name" if badname else "fault"))
            if not hit and not full and not badname and o["dir"] in ("d", "e"):
                ctx.violate("fault-free-save-fails", f"save {j} had no fault but raised {err}")
                return
        before_files = sorted(os.listdir(os.path.join(ctx.scratch, "d")) + os.listdir(os.path.join(ctx.scratch, "e")))
        now = models.circuit_fingerprint(c)
        if now != fp:
            k = [x for x in fp if fp[x] != now[x]]
            ctx.violate("circuit-changed", f"save {j} ({err}) changed the circuit's {k}")
            return
        if c.to_qasm() != qasm:
            ctx.violate("export-differs", f"after save {j} ({err}) the circuit exports differently than before:\n{c.to_qasm()}\n--\n{qasm}")
            return
        after_files = sorted(os.listdir(os.path.join(ctx.scratch, "d")) + os.listdir(os.path.join(ctx.scratch, "e")))
        if after_files != before_files:
            ctx.violate("export-writes", f"after save {j} ({err}) exporting the circuit as text writes files")
            return
        if cp["gates"] and err is not None and not models.close(c.simulate(), models.state(cp), 1e-7):
            ctx.violate("simulates-differently", f"after save {j} ({err}) the circuit prepares another state")
            return
        if err is not None and j % 2 == 0:  # and it still saves
            p2 = os.path.join(ctx.scratch, "d", f"again{j}.qasm")
            c.save_to_file(f"again{j}", os.path.join(ctx.scratch, "d"))
            held[p2] = copy.deepcopy(cp)
            ctx.probe("saved_again")

    def verify():
        return [(p, circfile.check_loads(p, cp)) for p, cp in held.items()]

    r = procs.run(ctx, "loader", verify, fresh=True)
    if r[0] != "ok":
        ctx.violate("process-crash", f"{r}")
        return
    for p, w in r[1]:
        if w:
            ctx.violate("earlier-file-damaged", f"{os.path.relpath(p, ctx.scratch)}: {w}")
            return
    ctx.event("held", len(held), [[g["g"] for g in c["gates"]] for c in plans])
