"""C16: simulating, compiling and saving leave the caller's objects unchanged."""
from __future__ import annotations

import copy
import math
import os
import sys
import threading

from dst import compiling, models, noise, noisyrun, pool, threads
from dst import fs as simfs

PROPERTY = "C16"
NATIVE = True
RUNS = {"quick": 3000, "thorough": 40000}
TIME = {"quick": 90, "thorough": 2400}
RULE = ("one evaluation is one simulated history of runs, compilations, single passes, plots, exports, saves and noisy-circuit generations of shared circuits and noise models, "
        "some failing or interrupted at a chosen line or disk step, one after another or in pre-empted threads; distinct means a different event log")
COMPONENTS = {"real": ["QuantumCircuit", "TNSim", "MISim with its native simulator", "QuditCompiler and passes", "NoisyCircuitFactory", "stochastic_simulation", "saving"],
              "stub": ["executor/pool scheduling", "thread scheduling", "disk faults", "entropy", "clocks"]}
ASSUMPTIONS = ["threads interleave at line granularity in repository code"]
SHRINK = ["ops", "noise"]
KINDS = ["tn", "mi", "sim", "noisytn", "noisymi", "O0", "O1", "O2", "cO0", "cO1", "ada", "ent", "qasm", "save", "gen", "copy", "str", "plot", "zprop", "zprop_front", "zrem", "resynth", "logent", "phyent", "locqr", "loglocqr", "loglocada", "locada"]
PASSES = ("zprop", "zprop_front", "zrem", "resynth", "logent", "phyent", "locqr", "loglocqr", "loglocada", "locada")


def gen(rng, tier, i):
    backend = rng.choice(["faketraps2trits", "faketraps2trits", "innsbruck01", "faketraps2six"])
    full = compiling.BACKENDS[backend]
    n = rng.randint(1, 2)
    if rng.random() < 0.5:  # compilable
        c = compiling.gen_case(rng, backend, 4, nq=n)
        if backend == "faketraps2six":
            c["gates"] = [e for e in c["gates"] if e["g"] not in ("h", "x", "pm", "cu_one", "s")] or [{"g": "z", "q": 0}]
    elif rng.random() < 0.5:
        dims = full[:n] if backend != "faketraps2six" else [rng.randint(2, 4) for _ in range(n)]
        c = models.gen_circuit(rng, dims, rng.randint(1, 4), models.MI_GATES, dag=0.3, sorted_levels=True)
    else:
        dims = models.gen_dims(rng, 3, 4, 27)
        c = models.gen_circuit(rng, dims, rng.randint(1, 4), noisyrun.TN_GATES, ctrl=0.3, dag=0.3)
    regs = models.gen_regs(rng, len(c["dims"]))
    if regs:
        c["regs"] = regs
    par = rng.random() < 0.35
    mi = all(e["g"] in models.MI_GATES and not e.get("c") for e in c["gates"])
    nz = {"tn": noise.gen_noise(rng, c, "tnsim"), "mi": noise.gen_noise(rng, c, "misim") if mi else []}
    big = max(c["dims"]) > 3 and any(e["g"] not in ("r", "rz", "rh", "virtrz", "z", "cx") for e in c["gates"])
    fits = len(c["dims"]) <= len(full) and all(a <= b for a, b in zip(c["dims"], full))
    kinds = [k for k in KINDS if not (par and (k.startswith("noisy") or k == "plot")) and (mi or k not in ("mi", "noisymi"))
             and (fits or k not in ("O0", "O1", "O2", "cO0", "cO1", "ada", "ent", *PASSES))]
    if big or not fits:
        kinds = [k for k in kinds if k not in ("O2", "ada", "loglocada", "locada")]
    if max(c["dims"]) > 3 and any(isinstance(e["q"], list) for e in c["gates"]):  # thousands of gates
        kinds = [k for k in kinds if k not in ("ent", "logent")]
    if any(e["g"] in ("csum", "ls", "ms", "cu_two", "cu_multi", "randu") for e in c["gates"]) and max(c["dims"]) > 3:
        kinds = [k for k in kinds if k not in ("O0", "O1", "O2", "cO0", "cO1", "ent", "logent", "phyent", "locqr", "loglocqr", "loglocada", "locada", "resynth")]
    ops = []
    for _ in range(rng.randint(2, 7) if not par else rng.randint(2, 4)):
        o = {"k": rng.choice(kinds)}
        if rng.random() < 0.35:
            o["fault"] = [rng.choice(["KeyboardInterrupt", "MemoryError"]), rng.choice([rng.randint(1, 60), rng.randint(1, 400), rng.randint(1, 3000)])]
        if o["k"] == "save" and rng.random() < 0.4:
            o["disk"] = [{"at": rng.randint(0, 8), "kind": rng.choice(["enospc", "eio"])}]
        if o["k"] in ("noisytn", "noisymi", "gen"):
            o["bad"] = rng.random() < 0.15
        ops.append(o)
    return {"world": {"cost": 0.0}, "par": par, "backend": backend, "circuit": c, "noise": nz, "ops": ops, "pool": {"tie": rng.randrange(100)},
            "threads": {"seed": rng.randrange(1 << 30), "prob": rng.choice([0.001, 0.01, 0.05])}}


def shrink(plan):
    for k in range(len(plan["circuit"]["gates"])):
        c = copy.deepcopy(plan)
        del c["circuit"]["gates"][k]
        yield c
    for b in ("tn", "mi"):
        for k in range(len(plan["noise"][b])):
            c = copy.deepcopy(plan)
            del c["noise"][b][k]
            yield c


def execute(plan, ctx):
    from mqt.qudits.compiler import QuditCompiler
    from mqt.qudits.compiler.naive_local_resynth import NaiveLocResynthOptPass
    from mqt.qudits.compiler.onedit import LogLocAdaPass, LogLocQRPass, PhyLocAdaPass, PhyLocQRPass, ZPropagationOptPass, ZRemovalOptPass
    from mqt.qudits.compiler.twodit import LogEntQRCEXPass
    from mqt.qudits.compiler.twodit.entanglement_qr.phy_ent_qr_cex_decomp import PhyEntQRCEXPass
    from mqt.qudits.simulation import MQTQuditProvider
    from mqt.qudits.simulation.noise_tools import Noise, NoiseModel
    from mqt.qudits.simulation.noise_tools.noisy_circuit_factory import NoisyCircuitFactory
    from mqt.qudits.visualisation.plot_information import plot_counts

    if not plan["circuit"]["gates"]:
        return
    pool.install(ctx, plan["pool"])
    fs = simfs.FS(ctx, ctx.scratch, {})
    fs.install()
    fs.active = False
    sched = threads.Scheduler(ctx, {"line_cost": 0.0, "max_lines": 24_000_000, **plan["threads"], "trace": bool(plan["par"])})
    prov = MQTQuditProvider()
    tn, mi = prov.get_backend("tnsim"), prov.get_backend("misim")
    ion = prov.get_backend(plan["backend"])
    c = models.build(plan["circuit"])
    other = models.build({"dims": [2], "gates": [{"g": "h", "q": 0}]})
    nms = {b: noise.build(v) for b, v in plan["noise"].items()}
    bad = NoiseModel()
    bad.add_nonlocal_quantum_error_on_control(Noise(0.1, 0.1), sorted({noise.tag(e) for e in plan["circuit"]["gates"]}))
    bad.add_nonlocal_quantum_error(Noise(0.1, 0.1), sorted({noise.tag(e) for e in plan["circuit"]["gates"]}))
    watched = {"noise of tnsim": (nms["tn"], noise.fingerprint), "noise of misim": (nms["mi"], noise.fingerprint), "unusable noise": (bad, noise.fingerprint),
               "circuit": (c, models.circuit_fingerprint), "another circuit": (other, models.circuit_fingerprint)}
    custom = any(e["g"].startswith("cu_") for e in plan["circuit"]["gates"])  # their export writes matrix files
    text = None if custom else c.to_qasm()
    before = {k: f(o) for k, (o, f) in watched.items()}
    want = models.state(plan["circuit"])
    ctx.event("circuit", [noise.tag(e) for e in plan["circuit"]["gates"]], plan["circuit"]["dims"])

    def a_pass(k):
        return {"zprop": lambda: ZPropagationOptPass(ion), "zprop_front": lambda: ZPropagationOptPass(ion, False), "zrem": lambda: ZRemovalOptPass(ion),
                "resynth": lambda: NaiveLocResynthOptPass(ion), "logent": lambda: LogEntQRCEXPass(ion), "phyent": lambda: PhyEntQRCEXPass(ion),
                "locqr": lambda: PhyLocQRPass(ion), "loglocqr": lambda: LogLocQRPass(ion), "loglocada": lambda: LogLocAdaPass(ion),
                # this pass alone moves the levels of the backend it is given
                "locada": lambda: PhyLocAdaPass(prov.get_backend(plan["backend"]))}[k]()

    def act(o):
        k = o["k"]
        if k == "tn":
            return tn.run(c).result().get_state_vector()
        if k == "mi":
            mi.run(c)
        elif k == "sim":
            return c.simulate()
        elif k in ("noisytn", "noisymi"):
            b, be = ("tn", tn) if k == "noisytn" else ("mi", mi)
            be.run(c, noise_model=bad if o.get("bad") else nms[b], shots=50)
        elif k in ("O0", "O1", "O2"):
            getattr(QuditCompiler(), "compile_" + k)(ion, c)
        elif k in ("cO0", "cO1"):
            getattr(c, "compile" + k[1:])(plan["backend"])
        elif k in ("ada", "ent"):
            QuditCompiler().compile(ion, c, ["PhyLocAdaPass" if k == "ada" else "LogEntQRCEXPass"])
        elif k == "qasm":
            c.to_qasm()
        elif k == "save":
            c.save_to_file("c", ctx.scratch)
        elif k == "gen":
            f = NoisyCircuitFactory(bad if o.get("bad") else nms["tn"], c)
            for _ in range(3):
                f.generate_circuit()
        elif k in PASSES:
            a_pass(k).transpile(c)
        elif k == "plot":
            plot_counts([0, 0, math.prod(plan["circuit"]["dims"]) - 1], c)
        elif k == "copy":
            d = c.copy()
            d.h(0)
            d.instructions[0].dag()
            d.set_instructions(d.instructions[1:])
        elif k == "str":
            str(nms["tn"])
            for g in c.instructions:
                g.to_matrix(identities=0)
                _ = g.control_info, g.reference_lines
        return None

    def same(n, where):
        for name, (o, f) in watched.items():
            now = f(o)
            if now != before[name]:
                if isinstance(now, dict):
                    what = [(k, before[name][k], now[k]) for k in now if now[k] != before[name][k]]
                else:
                    what = (before[name], now)
                ctx.violate("changed:" + name.split()[0], f"{where} operation {n} ({plan['ops'][n]['k'] if n is not None else ''}): {name} changed: {str(what)[:800]}")
                return False
        return True

    outs = {}

    def job(n):
        o = plan["ops"][n]
        try:
            outs[n] = (act(o), None)
        except (KeyboardInterrupt, Exception) as e:  # noqa: BLE001
            outs[n] = (None, e)

    def report(n):
        o = plan["ops"][n]
        r, e = outs.get(n, (None, None))
        ctx.event("op", n, o["k"], None if e is None else type(e).__name__)
        ctx.probe(o["k"] + ("_failed" if e is not None else ""))
        if r is not None and not models.close(r, want, 1e-6):
            ctx.violate("wrong-state", f"operation {n} ({o['k']}) gave a wrong state")
            return False
        if e is not None and o["k"] in ("tn", "sim", "qasm", "copy", "str") and not isinstance(e, (KeyboardInterrupt, MemoryError)):
            ctx.violate("operation-fails", f"operation {n} ({o['k']}) raised {type(e).__name__}: {e}")
            return False
        return True

    et = {"KeyboardInterrupt": KeyboardInterrupt, "MemoryError": MemoryError}
    sched.adopt_main()
    if plan["par"]:
        sched.install()
        ths = []
        for n, o in enumerate(plan["ops"]):
            t = threading.Thread(target=job, args=(n,), name=f"t{n}")
            t._harness = True
            if o.get("fault"):
                sched.exc_points[f"t{n}"] = (o["fault"][1], et[o["fault"][0]], o["fault"][0])
            ths.append(t)

        stop = []

        def watch():
            while not stop:
                before_n = sched.lines
                tr = sys.gettrace()
                sys.settrace(None)
                ok = same(0, "while threads were at")
                sys.settrace(tr)
                if not ok:
                    return
                sched.block(lambda: bool(stop) or sched.lines > before_n + 300, None, "watch")

        for t in ths:
            t.start()
        w = threading.Thread(target=watch, name="watch")
        w._harness = True
        w.start()
        for t in ths:
            t.join()
        stop.append(1)
        w.join()
        sys.settrace(None)
        for n in range(len(plan["ops"])):
            if not report(n):
                return
        if ctx.violations or not same(None, "after all threads:"):
            return
    else:
        for n, o in enumerate(plan["ops"]):
            hit = []
            fs.n, fs.faults = 0, list(o.get("disk", []))
            fs.active = o["k"] == "save"
            if o.get("fault"):
                sys.settrace(pool.raise_at_line(o["fault"][1], et[o["fault"][0]], hit))
            try:
                job(n)
            finally:
                sys.settrace(None)
                fs.active = False
                fs.heal()
            if hit:
                ctx.fault("interrupt:" + o["fault"][0])
            if not report(n) or not same(n, "after"):
                return
    if not models.close(c.simulate(), want, 1e-6):
        ctx.violate("wrong-state", "after all operations the circuit prepares another state")
    if not custom and c.to_qasm() != text:
        ctx.violate("exports-different", f"after all operations the circuit exports as {c.to_qasm()!r} instead of {text!r}")
