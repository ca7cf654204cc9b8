"""C14: every job gets an id of its own."""
from __future__ import annotations

import random
import threading

from dst import procs
from dst import threads as simthreads

PROPERTY = "C14"
RUNS = {"quick": 2500, "thorough": 60000}
TIME = {"quick": 60, "thorough": 1500}
RULE = ("one evaluation is one simulated history of job creations in several (forked, restarted) processes and threads on a simulated clock; "
        "distinct means a different event log")
COMPONENTS = {"real": ["mqt.qudits.simulation.jobs.Job", "TNSim.run (noise-free) for some jobs", "os.fork"],
              "stub": ["clocks", "process ids", "operating-system entropy (seeded stream per process)", "thread scheduling"]}
ASSUMPTIONS = ["operating-system entropy differs between processes and calls"]
SHRINK = ["procs", "procs.0.ops", "world.jumps"]


def _ops(rng, depth):
    out = []
    for _ in range(rng.randint(1, 4)):
        k = rng.choice(["create", "create", "create", "explicit", "threads", "fork", "sleep", "reseed", "run"])
        if k == "create":
            out.append({"op": k, "n": rng.choice([1, 2, 5, 40, 40])})
        elif k == "explicit":
            out.append({"op": k, "id": rng.choice(["", "0", "my-job", "auto1", "Auto", " auto ", "AUTO", "None", "job/7", "a" * 36, "x-" * 40, "A" * 300, "é→\n\t", "6ba7b810-9dad-11d1-80b4-00c04fd430c8"])})
        elif k == "threads":
            out.append({"op": k, "counts": [rng.randint(1, 4) for _ in range(rng.randint(2, 4))], "seed": rng.randrange(1 << 30)})
        elif k == "fork":
            if depth < 2:
                out.append({"op": k, "ops": _ops(rng, depth + 1), "same_pid": rng.random() < 0.3})
        elif k == "sleep":
            out.append({"op": k, "t": rng.choice([0.0, 1e-4, 0.01, 3.0])})
        elif k == "reseed":
            out.append({"op": k, "s": rng.choice([0, 42])})
        else:
            out.append({"op": k})
    return out


def gen(rng, tier, i):
    if i % 400 == 0:
        ps = [{"ops": [{"op": "create", "n": 150000}], "pid": None, "at": 0.0}]
        if i % 800 == 0:
            ps.append({"ops": [{"op": "create", "n": 60000}], "pid": None, "at": 0.0})
    else:
        ps = []
        for _ in range(rng.randint(1, 4)):
            ps.append({"ops": _ops(rng, 0), "pid": rng.choice([None, 5000, 5000, 5001]), "at": rng.choice([0.0, 0.0, 0.0, 1.5])})
    jumps = [[rng.choice([0.0001, 0.01, 1.0, 2.0]), -rng.choice([0.001, 0.5, 2.0, 3600.0])] for _ in range(rng.choice([0, 1, 2]))]
    return {"world": {"cost": rng.choice([0.0, 1e-6, 1e-4]), "gran": rng.choice([0.0, 0.001, 0.015625, 1.0]), "jumps": jumps},
            "procs": ps}


def shrink(plan):
    import copy

    def edit(ops, path):
        for i, o in enumerate(ops):
            yield path + [i], None
            if o["op"] == "create" and o["n"] > 2:
                yield path + [i], {"op": "create", "n": max(2, o["n"] // 2)}
            if o["op"] == "fork":
                yield from edit(o["ops"], path + [i, "ops"])

    for pi, p in enumerate(plan["procs"]):
        for path, new in edit(p["ops"], []):
            c = copy.deepcopy(plan)
            node = c["procs"][pi]["ops"]
            for k in path[:-1]:
                node = node[k]
            if new is None:
                del node[path[-1]]
            else:
                node[path[-1]] = new
            yield c


def execute(plan, ctx):
    from mqt.qudits.quantum_circuit import QuantumCircuit
    from mqt.qudits.simulation import MQTQuditProvider
    from mqt.qudits.simulation.jobs import Job

    backend = MQTQuditProvider().get_backend("tnsim")
    w = ctx.world

    def do(ops):
        ids, kept = [], []
        for k, o in enumerate(ops):
            op = o["op"]
            ctx.probe(op)
            if op == "create":
                js = [Job(None) for _ in range(o["n"])]
                first = [j.job_id() for j in js]
                ids += first
                kept += [(j, a) for j, a in zip(js[:50], first[:50])]
            elif op == "run":
                c = QuantumCircuit(1, [2])
                c.x(0)
                j = backend.run(c)
                ids.append(j.job_id())
                kept.append((j, ids[-1]))
            elif op == "explicit":
                j = Job(backend, job_id=o["id"])
                kept.append((j, o["id"]))
                j2 = Job(backend, o["id"], note=1)
                kept.append((j2, o["id"]))
            elif op == "sleep":
                w.sleep(o["t"])
            elif op == "reseed":
                import numpy as np

                random.seed(o["s"])
                np.random.seed(o["s"])
            elif op == "fork":
                res = procs.run(ctx, f"f{k}", lambda o=o: do(o["ops"]), pid=w.pid if o["same_pid"] else None, fresh=False)
                ids += res[1]
            elif op == "threads":
                if simthreads.SCHED[0] is None:
                    s = simthreads.Scheduler(ctx, {"seed": o["seed"], "prob": 0.25, "line_cost": 0.0})
                    s.adopt_main()
                    s.install()
                lst = [[] for _ in o["counts"]]

                def body(i, n, lst=lst):
                    for _ in range(n):
                        lst[i].append(Job(None).job_id())

                ts = [threading.Thread(target=body, args=(i, n)) for i, n in enumerate(o["counts"])]
                for t in ts:
                    t.start()
                for t in ts:
                    t.join()
                for x in lst:
                    ids += x
        for j, want in kept:
            if j.job_id() != want:
                ctx.violate("id-changed", f"job created as {want!r} now says {j.job_id()!r}")
                break
        return ids

    allids = []
    for i, p in enumerate(plan["procs"]):
        r = procs.run(ctx, f"p{i}", lambda p=p: do(p["ops"]), pid=p["pid"], at=p["at"], fresh=True)
        if r[0] != "ok":
            ctx.violate("process-crash", f"{r}")
            return
        allids.append(r[1])
    seen = {}
    for pi, ids in enumerate(allids):
        for k, x in enumerate(ids):
            if not isinstance(x, str):
                ctx.violate("id-type", f"job id {x!r} is no string")
                return
            if x in seen:
                ctx.violate("duplicate-id", f"job {k} of process {pi} and job {seen[x][1]} of process {seen[x][0]} share the id {x}")
                return
            seen[x] = (pi, k)
    ctx.event("ids", len(seen))
