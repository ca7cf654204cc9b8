"""Histories of operations: one after another or in pre-empted threads, with interrupts and memory errors at chosen repository lines."""
from __future__ import annotations

import sys
import threading

from . import pool, threads

ET = {"KeyboardInterrupt": KeyboardInterrupt, "MemoryError": MemoryError}


def gen_fault(rng, prob, spans):
    if rng.random() >= prob:
        return None
    return [rng.choice(sorted(ET)), rng.randint(1, rng.choice(spans))]


def gen_threads(rng, probs=(0.0005, 0.003, 0.02)):
    return {"seed": rng.randrange(1 << 30), "prob": rng.choice(list(probs))}


def execute(plan, ctx, act, judge, between=None, max_lines=24_000_000):
    """act(n) performs operation n; judge(n, value, error, faulty) -> whether to go on; between(n) likewise, when no operation runs."""
    sched = threads.Scheduler(ctx, {"line_cost": 0.0, "max_lines": max_lines, **plan["threads"], "trace": bool(plan["par"])})
    out = {}
    ops = plan["ops"]

    def job(n):
        try:
            out[n] = (act(n), None)
        except (KeyboardInterrupt, Exception) as e:  # noqa: BLE001
            out[n] = (None, e)

    def verdict(n):
        v, e = out[n]
        ctx.event("op", n, None if e is None else type(e).__name__)
        return judge(n, v, e, e is not None and ops[n].get("fault") and type(e).__name__ == ops[n]["fault"][0])

    sched.adopt_main()
    if plan["par"]:
        sched.install()
        ths = []
        for n, o in enumerate(ops):
            t = threading.Thread(target=job, args=(n,), name=f"t{n}")
            t._harness = True
            if o.get("fault"):
                sched.exc_points[f"t{n}"] = (o["fault"][1], ET[o["fault"][0]], o["fault"][0])
            ths.append(t)
        for t in ths:
            t.start()
        for t in ths:
            t.join()
        sys.settrace(None)
        for name, msg in ctx.extra.get("thread_exceptions", []):
            ctx.violate("unexpected-exception", f"{name}: {msg}")
        for n in range(len(ops)):
            if n not in out or not verdict(n):
                return False
        return between is None or between(None)
    for n, o in enumerate(ops):
        hit = []
        if o.get("fault"):
            sys.settrace(pool.raise_at_line(o["fault"][1], ET[o["fault"][0]], hit))
        try:
            job(n)
        finally:
            sys.settrace(None)
        if hit:
            ctx.fault("interrupt:" + o["fault"][0])
        elif o.get("fault"):
            ctx.probe("fault_after_end")
        if not verdict(n) or (between is not None and not between(n)):
            return False
    return True
