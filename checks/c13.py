"""C13: waiting for a job ends exactly at its final state or its timeout."""
from __future__ import annotations

import threading

from dst import threads as simthreads

PROPERTY = "C13"
RUNS = {"quick": 6000, "thorough": 150000}
TIME = {"quick": 60, "thorough": 1500}
RULE = ("one evaluation is one simulated history of 1-3 waiting threads polling scripted jobs on virtual time, with the wall clock stepping; "
        "distinct means a different event log (poll times, statuses, callbacks, clock steps)")
COMPONENTS = {"real": ["mqt.qudits.simulation.jobs.Job", "JobStatus"], "stub": ["the device behind Job.status() (scripted)", "clocks, sleep, thread scheduling"]}
ASSUMPTIONS = ["a status query reports the device's true status at some instant of the query"]
SHRINK = ["waits", "world.jumps", "script"]
FINAL = ("done", "error", "cancelled")
OPEN = ("initializing", "queued", "validating", "running")


def gen(rng, tier, i):
    exact = rng.random() < 0.4
    cost = 0.0 if exact else rng.choice([1e-6, 1e-4])

    def num(hi):
        return float(rng.randint(0, hi)) if exact else round(rng.uniform(0, hi), 3)

    end = rng.choice([0.0, num(20), num(60), num(60), num(200), 1e9])
    script = []
    t = 0.0
    for _ in range(rng.randint(0, 3)):
        script.append([t, rng.choice(OPEN)])
        t += num(max(1, int(min(end, 50))))
    script = [s for s in script if s[0] < end] or ([[0.0, rng.choice(OPEN)]] if end > 0 else [])
    script.append([end, rng.choice(FINAL)])
    waits = []
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        waits.append({
            "timeout": rng.choice([None, 0.0, num(15), num(50), num(120), num(120)]) if end < 1e8 else rng.choice([0.0, num(15), num(50), num(120)]),
            "wait": rng.choice([None, 1.0, 2.0, 5.0, num(9) + (1.0 if exact else 0.05)]),
            "cb": rng.choice(["none", "plain", "plain", "slow", "fail"] if not exact else ["none", "plain", "plain", "slow"]),
            "cbt": num(7), "start": num(10) if rng.random() < 0.5 else 0.0,
            "status_cost": 0.0 if exact or rng.random() < 0.7 else round(rng.uniform(0, 2), 3),
            "text": rng.random() < 0.2})
    jumps = []
    for _ in range(rng.choice([0, 1, 1, 2, 4])):
        jumps.append([num(60), rng.choice([-1, 1]) * rng.choice([3.0, 40.0, 3600.0, 86400.0 * 30, float(rng.randint(1, 100))])])
    return {"world": {"cost": cost, "jumps": jumps, "gran": rng.choice([0.0, 0.0, 1.0, 15.0]), "base": 1_700_000_000.0},
            "script": script, "waits": waits, "exact": exact, "threads": rng.choice([0, 0, 1]), "tseed": rng.randrange(1 << 30)}


def execute(plan, ctx):
    from mqt.qudits.exceptions import JobTimeoutError
    from mqt.qudits.simulation.jobs import Job, JobStatus

    w = ctx.world
    if not plan["script"]:
        return
    sched = simthreads.Scheduler(ctx, {"seed": plan["tseed"], "prob": 0.05, "line_cost": 0.0, "trace": bool(plan["threads"])})
    sched.adopt_main()
    sched.install()
    w.time_limit = 5e5
    eps = 1e-9 if plan["exact"] else 0.02
    current = {}

    def truth():
        s = None
        for t, name in plan["script"]:
            if w.now >= t:
                s = name
        return s or plan["script"][0][1]

    class DeviceJob(Job):
        def status(self):
            me = current.get(threading.get_ident())
            began = w.now
            s = truth()
            if me is None:
                return JobStatus(s)
            if me["spec"]["status_cost"]:
                w.sleep(me["spec"]["status_cost"])
            me["polls"].append({"t0": began, "t1": w.now, "s": s, "cbs": 0})
            if len(me["polls"]) > 4000:
                from dst.core import StepLimit

                raise StepLimit("more than 4000 polls")
            ctx.event("poll", me["i"], round(began, 6), s)
            return s if me["spec"]["text"] else JobStatus(s)

    job = DeviceJob(None, job_id="j1")

    def waiter(i):
        spec = plan["waits"][i]
        if spec["start"]:
            w.sleep(spec["start"])
        me = {"i": i, "spec": spec, "polls": [], "bad": [], "out": None}
        current[threading.get_ident()] = me

        def cb(jid, status, j):
            if not me["polls"]:
                me["bad"].append("callback before any poll")
                return
            p = me["polls"][-1]
            p["cbs"] += 1
            if jid != "j1" or status != p["s"] or j is not job:
                me["bad"].append(f"callback got ({jid}, {status}) after a poll that found {p['s']}")
            if spec["cb"] == "slow":
                w.sleep(spec["cbt"])
            elif spec["cb"] == "fail" and len(me["polls"]) > 2:
                ctx.fault("callback_error")
                raise ValueError("callback failed")

        kw = {}
        if spec["timeout"] is not None:
            kw["timeout"] = spec["timeout"]
        if spec["wait"] is not None:
            kw["wait"] = spec["wait"]
        if spec["cb"] != "none":
            kw["callback"] = cb
        t0 = w.now
        try:
            job.wait_for_final_state(**kw)
            out = "final"
        except JobTimeoutError:
            out = "timeout"
        except ValueError as e:
            if "callback failed" not in str(e):
                raise
            out = "cbfail"
        t_end = w.now
        del current[threading.get_ident()]
        ctx.event("end", i, out, round(t_end, 6), len(me["polls"]))
        ctx.probe("wait_" + out)
        judge(ctx, me, spec, out, t0, t_end, eps)

    def check_states():
        s = truth()
        if job.in_final_state() != (s in FINAL):
            ctx.violate("in-final-state", f"in_final_state() is {job.in_final_state()} although the job is {s}")
        if (job.done(), job.running(), job.cancelled()) != (s == "done", s == "running", s == "cancelled"):
            ctx.violate("status-predicate", f"done/running/cancelled = {job.done()}/{job.running()}/{job.cancelled()} for {s}")

    check_states()
    if plan["threads"]:
        ths = [threading.Thread(target=waiter, args=(i,), name=f"t{i}") for i in range(len(plan["waits"]))]
        for t in ths:
            t.start()
        for t in ths:
            t.join()
        for name, msg in ctx.extra.get("thread_exceptions", []):
            ctx.violate("unexpected-exception", f"{name}: {msg}")
    else:
        for i in range(len(plan["waits"])):
            waiter(i)
            check_states()
    check_states()


def judge(ctx, me, spec, out, t0, t_end, eps):
    polls, to = me["polls"], spec["timeout"]
    wait = 5.0 if spec["wait"] is None else spec["wait"]
    for b in me["bad"]:
        ctx.violate("callback-arguments", b)
    if not polls:
        ctx.violate("no-poll", "the wait ended without asking for the job's status")
        return
    last = polls[-1]
    for p in polls[:-1]:
        if p["s"] in FINAL:
            ctx.violate("missed-final", f"a poll at {p['t1'] - t0:.3f} s found {p['s']} but waiting went on")
            return
    for p, q in zip(polls, polls[1:]):
        gap = q["t0"] - p["t1"]
        if gap > wait + (spec["cbt"] if spec["cb"] == "slow" else 0) + eps * 2:
            ctx.violate("late-poll", f"{gap:.3f} s between two polls although wait={wait}")
            return
    # polls after which the timeout had certainly elapsed must be the last
    if to is not None:
        for k, p in enumerate(polls):
            if p["t0"] - t0 >= to + eps * 0.999 and p["s"] not in FINAL and (k < len(polls) - 1 or out != "timeout"):
                ctx.violate("timeout-missed", f"no timeout error at the poll {p['t0'] - t0:.3f} s after the start (timeout {to})")
                return
            if eps < 1e-6 and p["t1"] - t0 >= to and p["s"] not in FINAL and (k < len(polls) - 1 or out != "timeout"):
                ctx.violate("timeout-missed", f"no timeout error at the poll {p['t0'] - t0:.3f} s after the start (timeout {to})")
                return
    if out == "final" and last["s"] not in FINAL:
        ctx.violate("early-return", f"returned although the last poll found {last['s']}")
    if out == "timeout":
        if last["s"] in FINAL:
            ctx.violate("timeout-on-final", f"timeout error although the last poll found {last['s']}")
        elif to is None:
            ctx.violate("timeout-without-limit", "timeout error without a timeout")
        elif t_end - t0 < to - eps:
            ctx.violate("timeout-early", f"timeout error after {t_end - t0:.3f} s although timeout={to}")
    if spec["cb"] != "none":
        for k, p in enumerate(polls):
            open_ = p["s"] not in FINAL and not (out == "timeout" and k == len(polls) - 1)
            if p["cbs"] != int(open_):
                ctx.violate("callback-count", f"callback called {p['cbs']} times for the poll {k} that found {p['s']} (outcome {out})")
                return
