"""C24: an operation leaves the process as it found it."""
from __future__ import annotations

import collections
import copy
import gc
import io
import locale
import logging
import math
import multiprocessing as mp
import os
import random
import signal
import sys
import threading
import warnings

import numpy as np

from dst import compiling, histories, models, noise, noisyrun, pool, savecase, threads
from dst import fs as simfs
from dst.world import REAL

PROPERTY = "C24"
NATIVE = True
RUNS = {"quick": 2500, "thorough": 40000}
TIME = {"quick": 90, "thorough": 2400}
RULE = ("one evaluation is one simulated history, executed twice, of runs, compilations, single passes, saves, loads, state preparations and drawings, ended normally, by "
        "unusable input, a worker or disk fault, an interrupt or a memory error at a chosen repository line, with an inventory of the process after each of them; or the "
        "same operations in pre-empted threads with the inventory at the end; distinct means a different event log")
COMPONENTS = {"real": ["QuantumCircuit", "TNSim", "MISim with its native simulator", "stochastic_simulation", "QuditCompiler and passes", "StatePrep", "HistogramWithErrors",
                       "saving and loading", "MQTQuditProvider", "file descriptors, threads and forked worker processes"],
              "stub": ["executor/pool scheduling", "thread scheduling", "disk faults", "entropy", "clocks"]}
ASSUMPTIONS = ["an interrupt that arrives while a clean-up is already under way (in a finally or except block, or between acquiring a resource and entering the try) may lose it",
               "a histogram that is shown stays open, as matplotlib's own do", "the files of custom matrices of a failed circuit save may stay"]
SHRINK = ["ops", "pool.faults"]
KINDS = ["tn", "mi", "sim", "noisytn", "noisytn", "noisymi", "O0", "O1", "O2", "zprop", "zrem", "resynth", "logent", "locqr", "loglocqr", "loglocada", "qasm", "save", "save", "load", "loadbad",
         "loadmissing", "prep", "prepbad", "png", "png", "pngbad", "show", "plotstate", "plotcounts", "gen", "provider", "copy"]
SHOWN = ("show", "plotstate", "plotcounts")
COMPILE = ("O0", "O1", "O2", "zprop", "zrem", "resynth", "logent", "locqr", "loglocqr", "loglocada")


def gen(rng, tier, i):
    par = rng.random() < 0.25
    backend = rng.choice(["faketraps2trits", "faketraps2trits", "innsbruck01", "faketraps2six"])
    full = compiling.BACKENDS[backend]
    n = rng.randint(1, 2)
    if rng.random() < 0.5:
        c = compiling.gen_case(rng, backend, 3, nq=n)
        if backend == "faketraps2six":
            c["gates"] = [e for e in c["gates"] if e["g"] not in ("h", "x", "pm", "cu_one", "s")] or [{"g": "z", "q": 0}]
    elif rng.random() < 0.5:
        c = models.gen_circuit(rng, [rng.randint(2, 4) for _ in range(n)], rng.randint(1, 4), models.MI_GATES, dag=0.3, sorted_levels=True)
    else:
        c = models.gen_circuit(rng, models.gen_dims(rng, 3, 4, 27), rng.randint(1, 4), noisyrun.TN_GATES, ctrl=0.3, dag=0.3)
    dims = c["dims"]
    mi = all(e["g"] in models.MI_GATES and not e.get("c") for e in c["gates"])
    nz = {"tn": noise.gen_noise(rng, c, "tnsim"), "mi": noise.gen_noise(rng, c, "misim") if mi else []}
    fits = len(dims) <= len(full) and all(a <= b for a, b in zip(dims, full))
    slow = max(dims) > 3 and any(e["g"] not in ("r", "rz", "rh", "virtrz", "z", "cx") for e in c["gates"])
    kinds = [k for k in KINDS if not (par and (k.startswith(("noisy", "png", "show", "plot")))) and (mi or k not in ("mi", "noisymi")) and (fits or k not in COMPILE)]
    if max(dims) > 3 and any(isinstance(e["q"], list) for e in c["gates"]):  # thousands of gates
        kinds = [k for k in kinds if k != "logent"]
    if slow:
        kinds = [k for k in kinds if k not in ("O2", "O0", "O1", "logent", "loglocada", "resynth")]
    ops, shots = [], 0
    for _ in range(rng.randint(2, 5)):
        o = {"k": rng.choice(kinds)}
        if rng.random() < 0.35:
            o["fault"] = [rng.choice(["KeyboardInterrupt", "MemoryError"]), rng.choice([rng.randint(1, 40), rng.randint(1, 400), rng.randint(1, 3000)])]
        if o["k"] in ("noisytn", "noisymi"):
            x = rng.random()
            o["full"] = rng.random() < 0.4
            o["save"] = rng.random() < 0.6
            if x < 0.15:
                o["bad"] = True
            elif x < 0.25:
                o["shots"] = 10
            elif x < 0.35:
                o["dir"] = "missing"
            shots += 50
        if o["k"] in ("save", "png", "noisytn", "noisymi") and rng.random() < 0.4:
            o["disk"] = savecase.gen_faults(rng, savecase.KINDS, horizon=12)
        if o["k"] in ("prep", "prepbad"):
            o["seed"] = rng.randrange(1000)
        ops.append(o)
    faults = []
    if shots and rng.random() < 0.4:
        for _ in range(rng.choice([1, 1, 3])):
            it = rng.randrange(2 * shots)
            faults.append({"at": it, "kind": "kill"} if rng.random() < 0.4 else
                          {"at": it, "kind": "exc", "etype": rng.choice(sorted(pool.ETYPES)), "line": rng.choice([1, 5, 40])})
        if rng.random() < 0.3:
            faults.append({"at": "fork", "kind": "fork_fail", "n": rng.randint(0, 1), "pool": rng.randint(1, 3)})
    return {"world": {"cost": 0.0, "ncpu": 2}, "par": par, "kept": rng.random() < 0.5, "caller": sorted(rng.sample(sorted(CALLER), rng.choice([0, 2, 4, len(CALLER)]))), "backend": backend, "circuit": c, "noise": nz, "ops": ops,
            "pool": {"tie": rng.randrange(100), "faults": faults}, "threads": histories.gen_threads(rng, (0.001, 0.01, 0.05))}


def shrink(plan):
    for k in range(len(plan["circuit"]["gates"])):
        if len(plan["circuit"]["gates"]) > 1:
            c = copy.deepcopy(plan)
            del c["circuit"]["gates"][k]
            yield c
    for k, o in enumerate(plan["ops"]):
        for f in ("fault", "disk", "bad", "shots", "dir"):
            if f in o:
                c = copy.deepcopy(plan)
                del c["ops"][k][f]
                yield c


# settings a caller may have chosen for the process before it uses the library
CALLER = {
    "locale": lambda: locale.setlocale(locale.LC_ALL, "C.UTF-8"),
    "seterr": lambda: np.seterr(under="warn", over="ignore", invalid="ignore", divide="ignore"),
    "print": lambda: np.set_printoptions(precision=3, suppress=True, threshold=50),
    "warnings": lambda: warnings.simplefilter("always", UserWarning),
    "recursion": lambda: sys.setrecursionlimit(4321),
    "gc": lambda: gc.set_threshold(600, 9, 9),
    "umask": lambda: os.umask(0o27),
    "logging": lambda: logging.disable(logging.DEBUG),
    "signals": lambda: [signal.signal(x, caller_handler) for x in (signal.SIGTERM, signal.SIGUSR1, signal.SIGALRM)],
    "environment": lambda: os.environ.update({"OMP_NUM_THREADS": "1", "PYTHONWARNINGS": "default", "MPLBACKEND": "agg", "MQT_QUDITS": "x"}),
    "switch": lambda: sys.setswitchinterval(0.004),
    "path": lambda: sys.path.insert(0, "/nowhere"),
    "hooks": lambda: setattr(sys, "excepthook", caller_hook),
}


def caller_handler(*_):
    """A signal handler of the caller."""


def caller_hook(*_):
    """An exception hook of the caller."""


def inventory(sim, fs_root, plt):
    fds = set()
    for x in os.listdir("/proc/self/fd"):
        try:
            t = os.readlink(f"/proc/self/fd/{x}")
        except OSError:
            continue
        fds.add((x, t.split(":")[0] if t.startswith(("pipe", "socket", "anon")) else t))
    inv = {
        "worker processes": len(sim.all_workers),
        "child processes": len(mp.active_children()),
        "threads": sorted(t.name for t in threading.enumerate()),
        "open files": sorted(fds),
        "temporary files": sorted(p for d, _, names in os.walk(fs_root) for p in (os.path.relpath(os.path.join(d, x), fs_root) for x in names)
                                  if os.path.basename(p).startswith(".") or p.endswith((".tmp", ".lock", ".part", "~"))),
        "working directory": os.getcwd(),
        "floating-point error settings": sorted(np.geterr().items()),
        "print options": sorted((k, str(v)) for k, v in np.get_printoptions().items()),
        "warning filters": [str(f) for f in warnings.filters],
        "signal handlers": [(int(s), str(signal.getsignal(s))) for s in (signal.SIGINT, signal.SIGTERM, signal.SIGALRM, signal.SIGCHLD, signal.SIGPIPE, signal.SIGUSR1)],
        "signal timers": [tuple(signal.getitimer(k)) for k in (signal.ITIMER_REAL, signal.ITIMER_VIRTUAL)],
        "environment": sorted(os.environ.items()),
        "module search path": list(sys.path),
        "recursion limit": sys.getrecursionlimit(),
        "hooks": [str(x) for x in (sys.excepthook, threading.excepthook, sys.stdout, sys.stderr, sys.stdin)],
        "thread settings": [sys.getswitchinterval(), threading.stack_size()],
        "garbage collector": [gc.isenabled(), gc.get_threshold()],
        "locale": locale.setlocale(locale.LC_ALL),
        "logging": [logging.root.level, len(logging.root.handlers), logging.root.manager.disable],
        "figures": [sorted(plt.get_fignums()), plt.gcf().number],
        "tensor backend": str(tensor_backend()),
        "drawing settings": sorted((k, str(v)) for k, v in dict.items(plt.rcParams)),
    }
    u = os.umask(0o22)
    os.umask(u)
    inv["umask"] = u
    return inv


def tensor_backend():
    try:
        from tensornetwork import backend_contextmanager

        return backend_contextmanager.get_default_backend()
    except ImportError:
        return None


def live():
    """Living objects of the library, by type."""
    gc.collect()
    return collections.Counter(type(o).__qualname__ for o in gc.get_objects() if (type(o).__module__ or "").startswith("mqt."))


def execute(plan, ctx):
    import matplotlib.pyplot as plt

    from mqt.qudits.compiler import QuditCompiler
    from mqt.qudits.compiler.naive_local_resynth import NaiveLocResynthOptPass
    from mqt.qudits.compiler.onedit import LogLocAdaPass, LogLocQRPass, PhyLocQRPass, ZPropagationOptPass, ZRemovalOptPass
    from mqt.qudits.compiler.state_compilation.state_preparation import StatePrep
    from mqt.qudits.compiler.twodit import LogEntQRCEXPass
    from mqt.qudits.quantum_circuit import QuantumCircuit
    from mqt.qudits.simulation import MQTQuditProvider
    from mqt.qudits.simulation.noise_tools import Noise, NoiseModel
    from mqt.qudits.simulation.noise_tools.noisy_circuit_factory import NoisyCircuitFactory
    from mqt.qudits.visualisation.plot_information import HistogramWithErrors, plot_counts, plot_state

    if not plan["circuit"]["gates"]:
        return
    sim = pool.install(ctx, plan["pool"])
    root = ctx.scratch
    work = os.path.join(root, "cwd")
    os.makedirs(work)
    os.chdir(work)
    fs = simfs.FS(ctx, root, {})
    fs.install()
    fs.active = False
    sched = threads.Scheduler(ctx, {"line_cost": 0.0, **plan["threads"], "trace": bool(plan["par"])})
    sched.adopt_main()
    mp.get_context()
    dims = plan["circuit"]["dims"]
    tags = sorted({noise.tag(e) for e in plan["circuit"]["gates"]})
    models.build({"dims": [2, 3], "gates": [{"g": "h", "q": 0}, {"g": "cu_one", "q": 1, "p": {"mat": [3, 1]}}]}).save_to_file("good", root)
    with open(os.path.join(root, "bad.qasm"), "w") as f:
        f.write("DITQASM 2.0;\nqreg q [2][3, 2];\ncreg meas[2];\nh q[0];\nnogate (3, q[9]) q[7]\nmeasure q[0] -> meas[0];\n")
    plt.figure()
    plt.bar(["0"], [1], yerr=[0.1])
    plt.title("t")
    plt.tight_layout()
    plt.savefig(io.BytesIO(), format="png")  # what matplotlib opens once and for all
    plt.figure()  # the caller's own
    plt.figure(1)

    for x in plan["caller"]:
        CALLER[x]()
        ctx.probe("caller_" + x)
    kept = {}
    if plan["kept"] and not plan["par"]:
        kept = {name: MQTQuditProvider().get_backend(name) for name in ("tnsim", "misim", plan["backend"])}
        kept["circuit"] = models.build(plan["circuit"])

    class Provider(MQTQuditProvider):
        def get_backend(self, name, **kw):
            return kept[name] if name in kept else super().get_backend(name, **kw)

    def act(n):
        """What the operation needs is made for it, so that nothing of it has to live on afterwards, or is kept by the caller from one to the next."""
        o = plan["ops"][n]
        k = o["k"]
        prov = Provider()
        c = kept["circuit"] if kept else models.build(plan["circuit"])
        if k in ("tn", "mi"):
            prov.get_backend(k + "sim" if k == "tn" else "misim").run(c).result().get_state_vector()
        elif k == "sim":
            c.simulate()
        elif k in ("noisytn", "noisymi"):
            b = k[5:]
            nm = noise.build(plan["noise"][b])
            if o.get("bad"):
                nm = NoiseModel()
                nm.add_nonlocal_quantum_error_on_control(Noise(0.1, 0.1), tags)
                nm.add_nonlocal_quantum_error(Noise(0.1, 0.1), tags)
            place = {"file_path": os.path.join(root, o.get("dir", "")), "file_name": f"r{n}.h5"} if o["save"] else {}
            prov.get_backend("tnsim" if b == "tn" else "misim").run(c, noise_model=nm, shots=o.get("shots", 50), full_state_memory=o["full"], memory=True, **place)
        elif k in ("O0", "O1", "O2"):
            getattr(QuditCompiler(), "compile_" + k)(prov.get_backend(plan["backend"]), c)
        elif k in COMPILE:
            ion = prov.get_backend(plan["backend"])
            {"zprop": ZPropagationOptPass, "zrem": ZRemovalOptPass, "resynth": NaiveLocResynthOptPass, "logent": LogEntQRCEXPass, "locqr": PhyLocQRPass, "loglocqr": LogLocQRPass, "loglocada": LogLocAdaPass}[k](ion).transpile(c)
        elif k == "qasm":
            c.to_qasm()
            for g in list(work_files()):
                os.unlink(g)
        elif k == "save":
            c.save_to_file(f"c{n}", root)
        elif k in ("load", "loadbad", "loadmissing"):
            QuantumCircuit().load_from_file(os.path.join(root, {"load": "good", "loadbad": "bad", "loadmissing": "missing"}[k] + ".qasm"))
        elif k in ("prep", "prepbad"):
            g = np.random.RandomState(o["seed"])
            m = math.prod(dims)
            v = g.normal(size=m) + 1j * g.normal(size=m)
            v /= np.linalg.norm(v)
            e = QuantumCircuit(len(dims), list(dims), 0)
            StatePrep(e, v if k == "prep" else v[:-1], bool(o["seed"] % 2)).compile_state()
        elif k in ("png", "pngbad"):
            HistogramWithErrors(["0", "1", "2"], [1, 2, 3] if k == "png" else [1, 2], [0, 0.1, 0.2], title="t").save_to_png(os.path.join(root, f"h{n}.png"))
        elif k == "show":
            HistogramWithErrors(["0", "1", "2"], [1, 2, 3], [0, 0.1, 0.2], title="t", ylabel="u").generate_histogram()
        elif k == "plotstate":
            plot_state(models.state(plan["circuit"]), c)
        elif k == "plotcounts":
            plot_counts([x % math.prod(dims) for x in range(20)], c)
        elif k == "gen":
            f = NoisyCircuitFactory(noise.build(plan["noise"]["tn"]), c)
            for _ in range(3):
                f.generate_circuit()
        elif k == "provider":
            for name in ("tnsim", "misim", "faketraps2trits", "faketraps2six", "faketraps3six"):
                prov.get_backend(name)
            try:
                prov.get_backend("nosuch")
            except Exception:  # noqa: BLE001
                pass
            prov.backends("fake")
        elif k == "copy":
            d = c.copy()
            for g in d.instructions:
                g.to_matrix(identities=2)

    def work_files():
        return (os.path.join(work, x) for x in os.listdir(work))

    outs = {}

    def job(n):
        try:
            act(n)
            outs[n] = None
        except (KeyboardInterrupt, Exception) as e:  # noqa: BLE001
            outs[n] = type(e).__name__

    def differs(was, where, skip=()):
        now = inventory(sim, root, plt)
        for _ in range(20):
            if now["threads"] == was["threads"]:
                break
            REAL["sleep"](0.05)  # a thread that has done its work may still be on its way out
            now = inventory(sim, root, plt)
        for k in was:
            if now[k] != was[k] and k not in skip:
                a, b = was[k], now[k]
                if isinstance(a, list) and isinstance(b, list) and len(a) > 3:
                    a, b = [x for x in a if x not in b], [x for x in b if x not in a]
                ctx.violate("left:" + k.replace(" ", "-"), f"{where}: {k} was {str(a)[:300]} and is {str(b)[:300]}")
                return True
        return False

    if plan["par"]:
        job_threads = []
        start = inventory(sim, root, plt)
        sched.install()
        for n, o in enumerate(plan["ops"]):
            t = threading.Thread(target=job, args=(n,), name=f"t{n}")
            t._harness = True
            job_threads.append(t)
        for t in job_threads:
            t.start()
        for t in job_threads:
            t.join()
        sys.settrace(None)
        for n in outs:
            ctx.event("op", n, plan["ops"][n]["k"], outs[n])
            ctx.probe(plan["ops"][n]["k"] + "_in_thread" + ("_failed" if outs[n] else ""))
        if sched.alive():
            ctx.violate("left:threads", f"after all threads these are still alive: {[t.name for t in sched.alive()]}")
            return
        differs(start, f"after the threads {[o['k'] for o in plan['ops']]}", ("threads",))
        return
    drawn, counts = {}, []
    for rnd in (0, 1):
        for n, o in enumerate(plan["ops"]):
            hit = []
            was = inventory(sim, root, plt)
            before = dict(ctx.faults)
            np.random.seed(100 + rnd)
            random.seed(100 + rnd)
            fs.n, fs.faults = 0, list(o.get("disk", []))
            fs.active = "disk" in o
            if o.get("fault"):
                sys.settrace(pool.raise_at_line(o["fault"][1], histories.ET[o["fault"][0]], hit))
            try:
                job(n)
            finally:
                sys.settrace(None)
                fs.active = False
                fs.heal()
            if hit:
                ctx.fault("interrupt:" + o["fault"][0])
            new = sorted(k for k in ctx.faults if ctx.faults[k] > before.get(k, 0))
            ctx.event("op", rnd, n, o["k"], new, outs[n])
            ctx.probe(o["k"] + ("_failed" if outs[n] else ""))
            if o["k"] in SHOWN:  # what is shown stays open until its user closes it
                for x in set(plt.get_fignums()) - set(was["figures"][0]):
                    plt.close(x)
            where = f"after operation {n} ({o['k']}, round {rnd}, {outs[n] or 'successful'}, faults {new} {hit})"
            # a temporary file that cannot be removed stays
            skip = ("temporary files",) if any(f["kind"] in ("eacces", "eio", "torn") for f in o.get("disk", ())) else ()
            if differs(was, where, skip):
                return
            a = (np.random.random(), random.random())
            if rnd and any(x == y for x, y in zip(a, drawn[n])):
                ctx.violate("reseeded", f"{where}: the random numbers that follow do not depend on the caller's seed")
                return
            drawn[n] = a
            if skip:
                for d, _, names in os.walk(root):
                    for x in names:
                        if x.startswith("."):
                            os.unlink(os.path.join(d, x))
        counts.append(live())
    for k, v in counts[1].items():
        if v > counts[0][k]:
            ctx.violate("objects-kept", f"the same operations {[(o['k'], outs[n]) for n, o in enumerate(plan['ops'])]} once more leave {v - counts[0][k]} more objects of type {k} alive")
            return

