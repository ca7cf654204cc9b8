"""Executes plans in forked children, searches over seeds, minimises, writes replay and evidence files."""
from __future__ import annotations

import copy
import gc
import json
import os
import resource
import select
import shutil
import signal
import sys
import tempfile
import time
import traceback

from .core import Ctx, SimHang, StepLimit, jdump, stream
from .world import REAL, World

REPO_SRC = os.path.join(os.environ.get("DST_REPO", "/repo"), "src") + os.sep
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CPU_LIMIT = 90
WALL_LIMIT = 160

_mono, _sleep = time.monotonic, time.sleep


def sut_frame(tb):
    """The innermost repository frame of a traceback, or None."""
    hit = None
    while tb is not None:
        fn = tb.tb_frame.f_code.co_filename
        if fn.startswith(REPO_SRC):
            hit = f"{fn[len(REPO_SRC):]}:{tb.tb_frame.f_code.co_name}"
        tb = tb.tb_next
    return hit


class Child:
    def __init__(self, check, plan, tag):
        self.plan, self.tag = plan, tag
        self.t0 = _mono()
        self.scratch = tempfile.mkdtemp(prefix="dst-", dir=scratch_root())
        r, w = os.pipe()
        sys.stdout.flush()
        sys.stderr.flush()
        self.pid = os.fork()
        if self.pid == 0:
            try:
                os.close(r)
                os.setsid()
                run_child(check, plan, self.scratch, w)
            finally:
                REAL["exit"](4)
        os.close(w)
        self.fd = r
        self.buf = b""
        self.timed_out = False

    def kill(self):
        self.timed_out = True
        try:
            os.killpg(self.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass

    def finish(self):
        os.close(self.fd)
        _, st = os.waitpid(self.pid, 0)
        try:
            os.killpg(self.pid, signal.SIGKILL)
        except (ProcessLookupError, PermissionError):
            pass
        shutil.rmtree(self.scratch, ignore_errors=True)
        try:
            res = json.loads(self.buf)
        except ValueError:
            res = None
        if res is None:
            base = {"violations": [], "faults": {}, "probes": {}, "sim": 0.0, "digest": "", "events": 0, "log": [], "error": None, "extra": {}}
            sig = os.WTERMSIG(st) if os.WIFSIGNALED(st) else None
            if self.timed_out:
                base["violations"] = [{"sig": "stuck", "msg": f"no progress: the run did not end within {WALL_LIMIT} s"}]
            elif sig in (signal.SIGXCPU,):
                base["violations"] = [{"sig": "stuck", "msg": f"no progress: the run used {CPU_LIMIT} s of CPU time"}]
            elif sig in (signal.SIGSEGV, signal.SIGABRT, signal.SIGFPE, signal.SIGBUS, signal.SIGILL):
                base["violations"] = [{"sig": "process-crash", "msg": f"the process died of {signal.Signals(sig).name}"}]
            else:
                base["error"] = f"run ended with status {st} and no result"
            res = base
        res["wall"] = _mono() - self.t0
        return res


_root = [None]


def scratch_root():
    if _root[0] is None:
        base = "/dev/shm" if os.path.isdir("/dev/shm") and os.access("/dev/shm", os.W_OK) else tempfile.gettempdir()
        _root[0] = tempfile.mkdtemp(prefix="dstroot-", dir=base)
    return _root[0]


def cleanup():
    if _root[0]:
        shutil.rmtree(_root[0], ignore_errors=True)
        _root[0] = None


def run_child(check, plan, scratch, wfd):
    resource.setrlimit(resource.RLIMIT_CPU, (CPU_LIMIT, CPU_LIMIT + 20))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    out_fd = os.open(os.path.join(scratch, "stdout.txt"), os.O_CREAT | os.O_WRONLY)
    os.dup2(out_fd, 1)
    os.dup2(out_fd, 2)
    gc.disable()
    gc.freeze()
    import warnings

    warnings.simplefilter("ignore")
    ctx = Ctx(plan)
    ctx.scratch = os.path.join(scratch, "fs")
    os.mkdir(ctx.scratch)
    os.chdir(ctx.scratch)
    err = None
    try:
        World(ctx, plan.get("world")).install()
        check.execute(plan, ctx)
    except (SimHang, StepLimit) as e:
        ctx.violate("stuck", f"{type(e).__name__}: {e}")
    except BaseException as e:  # noqa: BLE001
        fr = sut_frame(e.__traceback__) or getattr(e, "dst_sut", None)
        tb = traceback.format_exc()[-1800:]
        if fr is not None:
            ctx.violate(f"unexpected-exception:{type(e).__name__}", f"{type(e).__name__}: {e} in {fr}\n{tb}")
        else:
            err = traceback.format_exc()[-3000:]
    res = {"violations": ctx.violations, "faults": ctx.faults, "probes": ctx.probes, "sim": ctx.world.max_now if ctx.world else 0.0,
           "digest": ctx.digest(), "events": ctx.n_events, "log": ctx.log, "error": err, "extra": ctx.extra}
    data = json.dumps(res, default=str).encode()
    while data:
        k = REAL["write"](wfd, data)
        data = data[k:]
    REAL["exit"](0)


def run_many(check, plans, jobs, on_result, deadline=None):
    """Run plans (an iterator of (tag, plan)); on_result(tag, plan, result) may return True to stop."""
    it = iter(plans)
    live = {}
    stop = False
    while True:
        while not stop and len(live) < jobs and not (deadline and _mono() > deadline):
            nxt = next(it, None)
            if nxt is None:
                stop = True
                break
            c = Child(check, nxt[1], nxt[0])
            live[c.fd] = c
        if deadline and _mono() > deadline:
            stop = True
        if not live:
            return
        r, _, _ = select.select(list(live), [], [], 1.0)
        for fd in r:
            c = live[fd]
            b = os.read(fd, 1 << 20)
            if b:
                c.buf += b
                continue
            del live[fd]
            if on_result(c.tag, c.plan, c.finish()):
                stop = True
        for c in list(live.values()):
            if _mono() - c.t0 > WALL_LIMIT:
                c.kill()


def run_one(check, plan):
    out = []
    run_many(check, [(0, plan)], 1, lambda t, p, r: out.append(r))
    return out[0]


# ---------------------------------------------------------------- known findings

def load_known():
    p = os.path.join(VERIF, "known_findings.json")
    with open(p) as f:
        return json.load(f)["findings"]


def match_known(known, pid, v):
    for k in known:
        if k.get("status") == "known" and k["property"] == pid and v["sig"] in k["signatures"]:
            return k
    return None


# ---------------------------------------------------------------- minimisation

def shrink_candidates(plan, fields):
    """Generic: drop elements of the lists named by fields (dotted paths), half first, then single elements."""
    for path in fields:
        node = plan
        keys = path.split(".")
        ok = True
        for k in keys[:-1]:
            if not isinstance(node, dict) or k not in node:
                ok = False
                break
            node = node[k]
        if not ok or not isinstance(node, dict) or not isinstance(node.get(keys[-1]), list):
            continue
        lst = node[keys[-1]]
        n = len(lst)
        size = n
        while size >= 1:
            for i in range(0, n, size):
                if size == n and n == 0:
                    continue
                c = copy.deepcopy(plan)
                t = c
                for k in keys[:-1]:
                    t = t[k]
                t[keys[-1]] = lst[:i] + lst[i + size:]
                if len(t[keys[-1]]) < n:
                    yield c
            size //= 2


def minimise(check, plan, sig, budget_s=60.0, jobs=8):
    """Greedy delta debugging keeping a violation with the same signature."""
    t_end = _mono() + budget_s
    best = plan
    improved = True
    rounds = 0
    while improved and _mono() < t_end and rounds < 40:
        improved = False
        rounds += 1
        cands = []
        if hasattr(check, "shrink"):
            cands += list(check.shrink(best))
        cands += list(shrink_candidates(best, getattr(check, "SHRINK", ["ops", "fs.faults", "pool.faults", "world.jumps", "threads.points"])))
        seen = {jdump(best)}
        uniq = []
        for c in cands:
            j = jdump(c)
            if j not in seen and len(j) <= len(jdump(best)):
                seen.add(j)
                uniq.append(c)
        for i in range(0, len(uniq), jobs):
            if _mono() > t_end:
                break
            hits = {}

            def on(tag, p, r):
                if r["error"] is None and any(v["sig"] == sig for v in r["violations"]):
                    hits[tag] = p

            run_many(check, list(enumerate(uniq[i:i + jobs])), jobs, on, deadline=t_end + 30)
            if hits:
                best = hits[min(hits)]
                improved = True
                break
    return best


# ---------------------------------------------------------------- main

def write_replay(pid, plan, res, v, original):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    import hashlib

    name = f"{pid}-{hashlib.sha256((pid + jdump(plan)).encode()).hexdigest()[:12]}.json"
    p = os.path.join(d, name)
    with REAL["open"](p, "w") as f:
        json.dump({"property": pid, "violation": v, "all": res["violations"], "plan": plan, "digest": res["digest"],
                   "hashseed": os.environ.get("PYTHONHASHSEED"), "log": res["log"], "seed": original.get("seed"),
                   "original_plan": original if original != plan else None}, f, indent=1, default=str)
    return p


def main(check, argv):
    pid = check.PROPERTY
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = _mono()
    jobs = int(os.environ.get("DST_JOBS", "8"))
    try:
        if len(argv) > 1 and argv[0] == "--replay":
            return replay(check, argv[1])
        if len(argv) > 1 and argv[0] == "--determinism":
            return determinism(check, seed, jobs, int(argv[1]))
        return search(check, pid, tier, seed, jobs, t0)
    finally:
        cleanup()


def determinism(check, seed, jobs, n):
    """Execute the first n plans three times and compare their event logs."""
    if hasattr(check, "setup"):
        check.setup("quick")
    todo = []
    for i in range(n):
        p = check.gen(stream(seed, check.PROPERTY, i), "quick", i)
        p["seed"] = f"{seed}/{check.PROPERTY}/{i}"
        p.setdefault("property", check.PROPERTY)
        todo += [((i, k), p) for k in range(3)]
    out = {}
    run_many(check, todo, jobs, lambda tag, _plan, r: out.setdefault(tag[0], []).append((r["digest"], r["error"], r["log"])) and False)
    bad = 0
    for i in sorted(out):
        logs = out[i]
        if len({x[0] for x in logs}) > 1 or any(x[1] for x in logs):
            bad += 1
            print(f"plan {i}: {[x[0][:8] if x[0] else None for x in logs]} {[x[1] for x in logs if x[1]][:1]}")
            a, b = next(((x[2], y[2]) for x in logs for y in logs if x[0] != y[0]), ([], []))
            k = next((k for k, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
            print("   first difference at event", k, a[k:k + 2], b[k:k + 2])
    print(f"{check.PROPERTY}: {len(out)} plans executed three times, {bad} differ")
    return 2 if bad else 0


def replay(check, path):
    with open(path) as f:
        rp = json.load(f)
    r = run_one(check, rp["plan"])
    if r["error"]:
        print(r["error"], file=sys.stderr)
        return 2
    for line in r["log"]:
        print(line)
    same = any(v["sig"] == rp["violation"]["sig"] for v in r["violations"])
    print(f"replay: {'reproduced' if same else 'NOT reproduced'}; event log {'identical' if r['digest'] == rp['digest'] else 'differs'}")
    for v in r["violations"]:
        print("  ", v["sig"], v["msg"])
    if r["violations"]:
        print(f"VIOLATION property={check.PROPERTY} replay={path}")
        return 1
    return 0


def search(check, pid, tier, seed, jobs, t0):
    known = load_known()
    n_runs = check.RUNS[tier]
    limit = getattr(check, "TIME", {"quick": 240, "thorough": 3000})[tier]
    st = {"runs": 0, "viol": {}, "errors": [], "faults": {}, "probes": {}, "sim": 0.0, "events": 0, "digests": set(),
          "plans": set(), "samples": [], "known": {}, "first": {}, "walls": []}

    def plans():
        for i in range(n_runs):
            p = check.gen(stream(seed, pid, i), tier, i)
            p["seed"] = f"{seed}/{pid}/{i}"
            p.setdefault("property", pid)
            yield i, p

    def on(tag, plan, r):
        st["runs"] += 1
        st["walls"].append(r["wall"])
        if r["error"]:
            st["errors"].append((tag, r["error"]))
            return len(st["errors"]) > 5
        for k, n in r["faults"].items():
            st["faults"][k] = st["faults"].get(k, 0) + n
        for k, n in r["probes"].items():
            st["probes"][k] = st["probes"].get(k, 0) + n
        st["sim"] += r["sim"]
        st["events"] += r["events"]
        st["digests"].add(r["digest"])
        if len(st["samples"]) < 3 or (tag % max(1, n_runs // 3) == 0 and len(st["samples"]) < 6):
            st["samples"].append({"plan": plan, "events": r["log"][:12], "faults": r["faults"]})
        if tag < 4:
            st["first"][tag] = (plan, r["digest"])
        new = False
        for v in r["violations"]:
            k = match_known(known, pid, v)
            if k is not None:
                st["known"].setdefault(k["id"], (k, v))
            else:
                new = True
                st["viol"].setdefault(v["sig"], (tag, plan, r, v))
        return new

    if hasattr(check, "setup"):
        check.setup(tier)
    run_many(check, plans(), jobs, on, deadline=t0 + limit)

    # the same plan must give the same execution
    det = {"plans_repeated": 0, "identical": 0}
    if not st["viol"] and not st["errors"]:
        def ond(tag, plan, r):
            det["plans_repeated"] += 1
            if r["digest"] == st["first"][tag][1]:
                det["identical"] += 1

        run_many(check, [(t, p) for t, (p, _) in st["first"].items()], jobs, ond)
        if det["identical"] != det["plans_repeated"]:
            st["errors"].append(("determinism", "a repeated plan gave a different event log"))

    wall = _mono() - t0
    replay_path = None
    vline = None
    if st["viol"]:
        sig = min(st["viol"], key=lambda s: st["viol"][s][0])
        tag, plan, r, v = st["viol"][sig]
        # the violation must happen again from the plan alone
        r2 = run_one(check, plan)
        if r2["error"] is None and any(x["sig"] == sig for x in r2["violations"]):
            small = plan
            if sig not in ("stuck",) or r2["wall"] < 5:
                small = minimise(check, plan, sig, budget_s=float(os.environ.get("DST_MINIMISE", "60")), jobs=jobs)
            r3 = run_one(check, small) if small is not plan else r2
            vv = next((x for x in r3["violations"] if x["sig"] == sig), None)
            if vv is None:
                small, r3, vv = plan, r2, next(x for x in r2["violations"] if x["sig"] == sig)
            replay_path = write_replay(pid, small, r3, vv, plan)
            vline = vv
        else:
            st["errors"].append((tag, f"violation {sig} ({v['msg'][:300]}) did not recur when its plan was run again"))
    write_evidence(check, pid, tier, seed, st, det, wall, len(st["viol"]))
    for kid in st["known"]:
        k, v = st["known"][kid]
        print(f"KNOWN-FINDING: property={pid} {k['id']}: {k['what']}")
    if vline is not None:
        print(f"{pid}: {vline['sig']}: {vline['msg']}")
        print(f"VIOLATION property={pid} replay={replay_path}")
        return 1
    if st["errors"]:
        for t, e in st["errors"][:5]:
            print(f"{pid}: harness error in run {t}: {e}", file=sys.stderr)
        return 2
    print(f"{pid}: {st['runs']} runs, {len(st['digests'])} distinct executions, {st['sim']:.1f} s simulated, no violation, {wall:.1f} s")
    return 0


def write_evidence(check, pid, tier, seed, st, det, wall, nviol):
    cov = {
        "evaluations": st["runs"],
        "distinct_nontrivial": len(st["digests"]),
        "rule": getattr(check, "RULE", "one evaluation is one simulated run of a generated plan; distinct means a different event-log hash"),
        "samples": st["samples"],
        "runs_per_hour": round(st["runs"] / max(wall, 1e-9) * 3600),
        "seeds_per_hour": round(st["runs"] / max(wall, 1e-9) * 3600),
        "simulated_seconds": round(st["sim"], 3),
        "faults_injected": st["faults"],
        "probes": st["probes"],
        "events": st["events"],
        "state_measure": "distinct hashes of the full event log (schedule decisions, clock readings, disk steps, outcomes)",
        "determinism_selftest": det,
        "components": getattr(check, "COMPONENTS", {}),
        "known_findings_seen": sorted(st["known"]),
    }
    d = os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
          "assumptions": getattr(check, "ASSUMPTIONS", []), "wall_s": round(wall, 2), "violations": nviol}
    with open(os.path.join(d, f"{pid}.json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
