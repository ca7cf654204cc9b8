"""C07: a failed or killed save never leaves a half-written file in place."""
from __future__ import annotations

import copy
import os
import sys
import threading

import numpy as np

from dst import circfile, models, noise, noisyrun, pool, procs, savecase, threads
from dst import fs as simfs

PROPERTY = "C07"
NATIVE = True
RUNS = {"quick": 1100, "thorough": 60000}
TIME = {"quick": 90, "thorough": 2400}
RULE = ("one evaluation is one simulated history of processes saving results or circuits to one place, each killed or hit by disk faults at numbered "
        "disk steps, the place being inspected after each; distinct means a different event log")
COMPONENTS = {"real": ["TNSim", "stochastic_simulation", "save_info", "h5py's file format code on the simulated disk", "QuantumCircuit.save_to_file/load_from_file",
                       "process death (a real _exit without unwinding)"],
              "stub": ["disk (real scratch files behind an interposed layer)", "executor/pool scheduling", "clocks", "entropy"]}
ASSUMPTIONS = ["crash model: the process is killed; what its completed system calls wrote survives"]
SHRINK = ["saves"]


def gen(rng, tier, i):
    what = rng.choice(["results", "results", "circuit", "circuit", "raw"])
    if rng.random() < 0.15:  # several at the same time
        what = rng.choice(["raw", "circuit"])
        saves = []
        for k in range(rng.randint(2, 3)):
            if what == "raw":
                s = {"n": rng.choice([1, 50, 3000]), "full": False, "dim": rng.choice([2, 9]), "v": k}
            else:
                s = {"circuit": circfile.gen(rng, rng.choice([1, 3, 40]), 0.0)}
                s["circuit"]["gates"] = [e for e in s["circuit"]["gates"] if not e["g"].startswith("cu_")]
            saves.append({**s, "faults": [], "place": "same"})
        x = rng.random()
        faults = savecase.gen_faults(rng, savecase.KILLS if x < 0.3 else savecase.KINDS) if x < 0.6 else []
        return {"world": noisyrun.gen_world(rng), "pool": {}, "what": what, "saves": saves, "together": {"old": rng.random() < 0.5, "faults": faults},
                "threads": {"seed": rng.randrange(1 << 30), "prob": rng.choice([0.02, 0.1, 0.4])}}
    saves = []
    for _ in range(rng.randint(1, 4)):
        if what == "results":
            s = savecase.gen_run(rng, 0.1)
            s["backend"] = "tnsim"
            for e in s["circuit"]["gates"]:
                pass
            s["circuit"], s["noise"] = noisyrun.gen_case(rng, "tnsim", rng.randint(1, 2), total=9)
            s["shots"] = 50
        elif what == "raw":
            s = {"n": rng.choice([1, 10, 500, 4000]), "full": rng.random() < 0.5, "dim": rng.choice([2, 9, 64]), "v": rng.randrange(1000)}
            if s["full"] and s["n"] * s["dim"] > 40000:
                s["n"] = 40000 // s["dim"]
        else:
            s = {"circuit": circfile.gen(rng, rng.choice([0, 1, 3, 6, 40])), "named": rng.random() < 0.9}
        x = rng.random()
        kinds = savecase.KILLS if x < 0.55 else savecase.KINDS if x < 0.85 else ["kbd"] if x < 0.92 else []
        s["faults"] = savecase.gen_faults(rng, kinds) if kinds else []
        s["place"] = rng.choice(["same", "same", "symlink"])
        saves.append(s)
    return {"world": noisyrun.gen_world(rng), "pool": {"tie": rng.randrange(100)}, "what": what, "saves": saves}


def shrink(plan):
    for i, r in enumerate(plan["saves"]):
        for k in range(len(r["faults"])):
            c = copy.deepcopy(plan)
            del c["saves"][i]["faults"][k]
            yield c
        if plan["what"] == "circuit":
            for k in range(len(r["circuit"]["gates"])):
                c = copy.deepcopy(plan)
                del c["saves"][i]["circuit"]["gates"][k]
                yield c


def raw_data(s):
    rs = np.random.RandomState(s["v"])
    if s["full"]:
        return [rs.normal(size=(1, s["dim"])) + 1j * rs.normal(size=(1, s["dim"])) for _ in range(s["n"])]
    return [int(x) for x in rs.randint(0, s["dim"], s["n"])]


def complete(what, s, path, ctx):
    """None if the file at path is a complete new file of save s, else what is wrong."""
    if what == "circuit":
        return circfile.check_loads(path, s["circuit"])
    try:
        kind, names, vals = noisyrun.read_saved(path)
    except Exception as e:  # noqa: BLE001
        return f"unreadable: {type(e).__name__}: {e}"
    if what == "raw":
        want = raw_data(s)
        if len(vals) != len(want):
            return f"{len(vals)} of {len(want)} results"
        for i, (a, b) in enumerate(zip(vals, want)):
            if not np.array_equal(np.ravel(a), np.ravel(b)):
                return f"result {i} is wrong"
        return None
    if len(vals) != s["shots"]:
        return f"{len(vals)} of {s['shots']} results"
    n = len(ctx.violations)
    ok = noisyrun.check_results(ctx, vals, s["circuit"], s["noise"], "tnsim", s["shots"], s["full"])
    msg = ctx.violations[-1]["msg"] if len(ctx.violations) > n else None
    del ctx.violations[n:]
    return None if ok else msg


OLD_RAW = {"n": 7, "full": False, "dim": 2, "v": 99}


def together(plan, ctx):
    """Threads that save to one place at the same time, which is examined at every disk step."""
    from mqt.qudits.simulation.save_info import save_shots

    what = plan["what"]
    name = "circ.qasm" if what == "circuit" else "res.h5"

    def save(s, d):
        if what == "circuit":
            models.build(s["circuit"]).save_to_file("circ", d)
        else:
            save_shots(raw_data(s), d, name)

    def read(d):
        try:
            fd = simfs.OS["open"](os.path.join(d, name), os.O_RDONLY)
        except FileNotFoundError:
            return None
        try:
            out = b""
            while b := simfs.OS["read"](fd, 1 << 20):
                out += b
            return out
        finally:
            simfs.OS["close"](fd)

    dirs = []
    for k in range(len(plan["saves"]) + 2):
        dirs.append(os.path.join(ctx.scratch, f"d{k}"))
        os.mkdir(dirs[k])
    d = dirs[-1]
    good = {}
    for k, s in enumerate(plan["saves"]):
        procs.run(ctx, f"g{k}", lambda s=s, k=k: save(s, dirs[k]))
        good[read(dirs[k])] = k
    if plan["together"]["old"]:
        old = OLD_RAW if what == "raw" else {"circuit": {"dims": [2], "gates": [{"g": "h", "q": 0}]}}
        procs.run(ctx, "old", lambda: save(old, d))
    good[read(d)] = "old"

    def wrong():
        b = read(d)
        if b not in good and b and what == "raw":  # HDF5 files of equal contents need not be equal
            p = os.path.join(ctx.scratch, "look.h5")
            fd = simfs.OS["open"](p, os.O_WRONLY | os.O_CREAT | os.O_TRUNC)
            simfs.OS["write"](fd, b)
            simfs.OS["close"](fd)
            for k, s in [*enumerate(plan["saves"]), ("old", OLD_RAW)]:
                if (k != "old" or plan["together"]["old"]) and complete(what, s, p, ctx) is None:
                    good[b] = k
        return None if b in good else f"the file of {None if b is None else len(b)} bytes is neither the earlier one nor one of those being saved"

    def body():
        fs = simfs.FS(ctx, ctx.scratch, {"faults": plan["together"]["faults"]})
        sched = threads.Scheduler(ctx, {"line_cost": 0.0, **plan["threads"], "trace": True})
        sched.adopt_main()
        sched.install()
        res = {}

        def look(i):
            w = wrong()
            if w and not ctx.violations:
                ctx.violate("half-written", f"at disk step {i} of {len(plan['saves'])} saves at the same time {w}")

        def job(k):
            try:
                save(plan["saves"][k], d)
                res[k] = "saved"
            except Exception as e:  # noqa: BLE001
                res[k] = type(e).__name__
            except KeyboardInterrupt:
                res[k] = "KeyboardInterrupt"

        ths = []
        for k in range(len(plan["saves"])):
            t = threading.Thread(target=job, args=(k,), name=f"t{k}")
            t._harness = True
            ths.append(t)
        fs.on_step = look
        fs.install()
        for t in ths:
            t.start()
        for t in ths:
            t.join()
        sys.settrace(None)
        fs.active = False
        return res

    r = procs.run(ctx, "together", body)
    if r[0] == "ok":
        for v in r[1].values():
            ctx.probe("together:" + ("saved" if v == "saved" else "error"))
    elif r == ("exit", 77):
        ctx.fault("process_kill")
    else:
        ctx.violate("process-crash", f"{r}")
    if ctx.violations:
        return
    w = wrong()
    if w:
        ctx.violate("half-written", f"after {len(plan['saves'])} saves at the same time ({r}) {w}")
    elif r[0] == "ok" and "saved" in r[1].values() and good.get(read(d)) == "old":
        ctx.violate("bad-success", f"after saves at the same time ({r}) the earlier file is still in place")


def execute(plan, ctx):
    if plan.get("together"):
        return together(plan, ctx)
    from mqt.qudits.simulation import MQTQuditProvider
    from mqt.qudits.simulation.save_info import save_full_states, save_shots

    what = plan["what"]
    pool.install(ctx, plan["pool"])
    d = os.path.join(ctx.scratch, "out")
    os.mkdir(d)
    name = "circ.qasm" if what == "circuit" else "res.h5"
    path = os.path.join(d, name)
    content = None  # bytes of the place, None: absent

    def read():
        try:
            with open(path, "rb") as f:
                return f.read()
        except FileNotFoundError:
            return None

    for j, s in enumerate(plan["saves"]):
        if s["place"] == "symlink" and not os.path.lexists(path):
            os.symlink(os.path.join(ctx.scratch, f"elsewhere{j}"), path)

        def body(s=s):
            fs = simfs.FS(ctx, ctx.scratch, {"faults": s["faults"]})
            if what == "circuit":
                c = models.build(s["circuit"])
                fs.install()
                try:
                    c.save_to_file("circ", d)
                except (Exception, KeyboardInterrupt) as e:  # noqa: BLE001
                    return type(e).__name__, fs.n
            elif what == "raw":
                data = raw_data(s)
                fs.install()
                try:
                    (save_full_states if s["full"] else save_shots)(data, d, name)
                except (Exception, KeyboardInterrupt) as e:  # noqa: BLE001
                    return type(e).__name__, fs.n
            else:
                c = models.build(s["circuit"])
                nm = noise.build(s["noise"])
                b = MQTQuditProvider().get_backend(s["backend"])
                fs.install()
                try:
                    b.run(c, noise_model=nm, shots=s["shots"], full_state_memory=s["full"], memory=True, file_path=d, file_name=name)
                except (Exception, KeyboardInterrupt) as e:  # noqa: BLE001
                    return type(e).__name__, fs.n
            return "saved", fs.n

        r = procs.run(ctx, f"s{j}", body, fresh=True)
        if r[0] == "ok":
            how = r[1][0]
        elif r == ("exit", 77):
            how = "killed"
            ctx.fault("process_kill")
        else:
            ctx.violate("process-crash", f"{r}")
            return
        ctx.probe(f"{what}:{how if how in ('saved', 'killed') else 'error'}")
        ctx.event("save", j, how)
        now = read()
        if now == content and how != "saved":
            ctx.probe("kept")
            continue
        if now is None:
            ctx.violate("file-lost", f"save {j} ({how}): the earlier file is gone")
            return
        w = complete(what, s, path, ctx)
        if w is not None:
            sig = "bad-success" if how == "saved" else "half-written"
            ctx.violate(sig, f"save {j} ({how}) left a file that is neither the earlier nor the complete new one: {w}")
            return
        ctx.probe("replaced")
        content = now
