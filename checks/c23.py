"""C23: a histogram shows its own data only, whatever was drawn before."""
from __future__ import annotations

import copy
import math
import os
import sys

import numpy as np

from dst import histories, models, pool, procs
from dst import fs as simfs

PROPERTY = "C23"
RUNS = {"quick": 400, "thorough": 8000}
TIME = {"quick": 100, "thorough": 1800}
RULE = ("one evaluation is one simulated history of plots and saved histograms, some of unusable data, some hit by a full or failing disk, a missing directory, an interrupt "
        "or a memory error; every saved image is compared pixel for pixel with that of a pristine process; distinct means a different event log")
COMPONENTS = {"real": ["HistogramWithErrors", "plot_counts", "plot_state", "state_labels", "remap_result", "matplotlib with its process-wide figures (Agg)"],
              "stub": ["disk faults", "interrupts", "processes (forked from one that has drawn nothing)"]}
ASSUMPTIONS = ["histograms are drawn from one thread, as matplotlib requires", "a process forked before anything was drawn stands for a fresh one"]
SHRINK = ["ops"]


def boot():
    import matplotlib

    matplotlib.use("Agg")
    import matplotlib.font_manager  # noqa: F401
    import matplotlib.pyplot as plt

    from mqt.qudits import visualisation  # noqa: F401

    f = plt.figure()  # fonts are found and cached once
    plt.bar(["0"], [1])
    plt.tight_layout()
    plt.close(f)


def gen_hist(rng):
    n = rng.randint(1, 9)
    labels = rng.sample([f"{a}{b}" for a in range(4) for b in range(4)], n)
    return {"labels": labels, "counts": [rng.choice([0, 1, rng.randint(0, 50), round(rng.random(), 3)]) for _ in range(n)],
            "errors": None if rng.random() < 0.5 else [round(rng.random(), 2) for _ in range(n)],
            "title": rng.choice(["", "Simulation", "run 2"]), "axes": rng.random() < 0.5}


def gen_circuit(rng):
    dims = rng.choice([[2], [3], [2, 2], [3, 2], [2, 3], [3, 3], [4], [2, 2, 2]])
    c = {"dims": dims, "gates": models.gen_circuit(rng, dims, rng.randint(1, 3), ["h", "x", "r", "csum"])["gates"]}
    if rng.random() < 0.4:  # mappings that are their own inverses
        maps = []
        for d in dims:
            m = list(range(d))
            a, b = rng.sample(range(d), 2)
            if rng.random() < 0.6:
                m[a], m[b] = b, a
            maps.append(m)
        c["maps"] = maps
    return c


def gen(rng, tier, i):
    ops = []
    for _ in range(rng.randint(1, 4)):
        k = rng.choice(["save", "save", "save", "again", "show", "counts", "state", "remap", "bad", "user"])
        o = {"k": k}
        if k in ("save", "show"):
            o["h"] = gen_hist(rng) if not ops or rng.random() < 0.7 else copy.deepcopy(next((p["h"] for p in ops if p["k"] in ("save", "show")), gen_hist(rng)))
            o["name"] = rng.choice(["a.png", "b.png"])
        if k == "again":  # the same histogram object once more
            if not any(p["k"] in ("save", "show") for p in ops):
                continue
            o["h"] = copy.deepcopy(next(p["h"] for p in reversed(ops) if p["k"] in ("save", "show")))
            o["name"] = rng.choice(["a.png", "b.png"])
        if k in ("counts", "state", "remap"):
            o["c"] = gen_circuit(rng)
            n = math.prod(o["c"]["dims"])
            o["m"] = [rng.randrange(n) for _ in range(rng.randint(1, 60))]
        if k == "bad":
            h = gen_hist(rng)
            w = rng.choice(["short", "errors", "text"])
            if w == "short":
                h["counts"] = h["counts"] + [1, 2]
            elif w == "errors":
                h["errors"] = [-0.5] * len(h["labels"])
            else:
                h["counts"] = [3] * (len(h["counts"]) - 1) + [None]
            o["h"] = h
            o["name"] = "bad.png"
        x = rng.random()
        if x < 0.2:
            o["fault"] = [rng.choice(["KeyboardInterrupt", "MemoryError"]), rng.randint(1, 25)]
        elif x < 0.4 and k in ("save", "again", "bad"):
            o["disk"] = [{"at": rng.randint(0, 4), "kind": rng.choice(["enospc", "eio", "torn", "eacces"])}]
        elif x < 0.5 and k == "save":
            o["name"] = "missing/a.png"
        ops.append(o)
    ops.append({"k": "save", "h": gen_hist(rng), "name": "last.png"})
    return {"world": {"cost": 0.0}, "ops": ops}


def execute(plan, ctx):
    import matplotlib.figure
    import matplotlib.image
    import matplotlib.pyplot as plt

    from mqt.qudits.visualisation.plot_information import HistogramWithErrors, plot_counts, plot_state, remap_result

    drawn = []
    real = matplotlib.figure.Figure.savefig

    def savefig(self, *a, **k):
        drawn.append([[round(float(p.get_height()), 9) for p in ax.patches] for ax in self.axes])
        return real(self, *a, **k)

    matplotlib.figure.Figure.savefig = savefig

    def hist(h):
        ax = {"xlabel": "States", "ylabel": "Pr"} if h["axes"] else {}
        return HistogramWithErrors(list(h["labels"]), list(h["counts"]), None if h["errors"] is None else list(h["errors"]), title=h["title"], **ax)

    last = [None, None]

    def image(p):
        return np.asarray(matplotlib.image.imread(p))

    def pristine(o):
        p = os.path.join(ctx.scratch, "ref.png")
        hist(o["h"]).save_to_png(p)
        im = image(p)
        os.unlink(p)
        return im

    refs = {}
    for n, o in enumerate(plan["ops"]):
        if o["k"] in ("save", "again"):
            refs[n] = procs.run(ctx, f"p{n}", lambda o=o: pristine(o))[1]
    fs = simfs.FS(ctx, ctx.scratch, {})
    fs.install()
    fs.active = False

    for n, o in enumerate(plan["ops"]):
        k = o["k"]
        path = os.path.join(ctx.scratch, o.get("name", ""))
        hit, err, val = [], None, None
        drawn.clear()
        before = dict(ctx.faults)
        if k in ("counts", "state", "remap"):
            c = models.build(o["c"])
            if o["c"].get("maps"):
                c.set_mapping(o["c"]["maps"])
            sv = models.state(o["c"])
            arr = sv.copy() if len(o["m"]) % 2 else np.bincount(o["m"], minlength=len(sv))
            arr0 = arr.copy()
        if k in ("save", "again", "bad") and os.path.exists(path):
            os.unlink(path)
        fs.n, fs.faults = 0, list(o.get("disk", []))
        fs.active = k in ("save", "again", "bad")
        if o.get("fault"):
            sys.settrace(pool.raise_at_line(o["fault"][1], histories.ET[o["fault"][0]], hit))
        try:
            if k == "bad":
                hist(o["h"]).save_to_png(path)
            elif k in ("save", "show", "again"):
                if k != "again" or last[1] != o["h"]:
                    last[:] = [hist(o["h"]), o["h"]]
                if k == "show":
                    last[0].generate_histogram()
                else:
                    last[0].save_to_png(path)
            elif k == "remap":
                val = remap_result(arr, c)
            elif k == "counts":
                mine = list(o["m"])
                val = plot_counts(mine, c)
            elif k == "state":
                mine = sv.copy()
                val = plot_state(mine.reshape(1, -1), c)
            elif k == "user":
                plt.plot([1, 2, 3])
        except (KeyboardInterrupt, Exception) as e:  # noqa: BLE001
            err = e
        finally:
            sys.settrace(None)
            fs.active = False
            fs.heal()
        if hit:
            ctx.fault("interrupt:" + o["fault"][0])
        hitf = hit or any(v > before.get(x, 0) for x, v in ctx.faults.items())
        ctx.event("op", n, k, None if err is None else type(err).__name__)
        ctx.probe(k + ("_failed" if err is not None else ""))
        if err is not None:
            if k in ("show", "save", "again", "counts", "state", "remap") and not hitf and not o.get("name", "").startswith("missing"):
                ctx.violate("plot-fails", f"operation {n} ({k}) raised {type(err).__name__}: {err}")
                return
            continue
        if o.get("name", "").startswith("missing"):
            ctx.violate("save-silent", f"operation {n}: a histogram was to be saved in a missing directory, yet no error was raised")
            return
        if k in ("save", "again"):
            try:
                im = image(path)
            except Exception as e:  # noqa: BLE001
                ctx.violate("unreadable", f"operation {n} returned, but its image cannot be read: {type(e).__name__}: {e}")
                return
            want = [round(float(x), 9) for x in o["h"]["counts"]]
            ctx.event("image", n, list(im.shape), int(im.sum() * 1000) if im.dtype != np.uint8 else int(im.sum(dtype=np.int64)))
            if drawn != [[want]]:
                ctx.violate("other-bars", f"operation {n} saved a histogram with the bars {drawn}; its counts are {want}")
                return
            if im.shape != refs[n].shape or not np.array_equal(im, refs[n]):
                ctx.violate("other-image", f"operation {n} saved another image than a fresh process does for the same histogram")
                return
        if k in ("counts", "state", "remap"):
            d = o["c"]["dims"]
            if (k == "remap" and not np.array_equal(arr, arr0)) or (k != "remap" and list(mine) != list(o["m"] if k == "counts" else sv)):
                ctx.violate("data-changed", f"operation {n} ({k}) changed the data of the caller")
                return
            base = arr0 if k == "remap" else np.abs(sv) if k == "state" else np.bincount(o["m"], minlength=math.prod(d)).astype(float)
            if o["c"].get("maps"):
                t = base.reshape(d)
                for q, m in enumerate(o["c"]["maps"]):
                    t = np.take(t, m, axis=q)
                base = t.ravel()
            if not models.close(val, base, 1e-6):
                ctx.violate("other-counts", f"operation {n} ({k}) of a circuit of {d} with mappings {o['c'].get('maps')} returned {list(val)} instead of {list(base)}")
                return
