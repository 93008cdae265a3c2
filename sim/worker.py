"""
Runs simulated executions for a check.  One process, one PYTHONHASHSEED.

Reads a job (JSON) on stdin, writes one JSON object per line on stdout.
"""
import collections
import importlib
import json
import os
import signal
import sys
import time as _time
import traceback

REAL_TIME = _time.monotonic          # before the seams go in


class RunTimeout(BaseException):
    pass


def scenario(name):
    return importlib.import_module("sim.scen." + name)


MAX_RSS = 3 << 30        # bytes
STUCK = 10               # seconds of processor time within one step


def rss():
    with open("/proc/self/statm") as f:
        return int(f.read().split()[1]) * 4096


def run_plan(plan, keep_trace=False, limit=90):
    """
    One run; returns its World.  Gives up on runs that are caught in a loop,
    going by processor time so that a busy machine makes no difference.
    """
    m = scenario(plan["scenario"])
    from . import core
    state = dict(ticks=0, steps=-1, same=0, done=False)

    def tick(signum, frame):
        state["ticks"] += 1
        sim = core.CURRENT
        steps = sim.steps if sim is not None else -1
        state["same"] = state["same"] + 1 if steps == state["steps"] else 0
        state["steps"] = steps
        if state["same"] >= STUCK:
            why = "caught in a loop within one step"
        elif state["ticks"] > limit:
            why = "a run exceeded %ss of processor time" % limit
        elif rss() > MAX_RSS:
            why = "memory grows without bounds"
        else:
            return
        # noted right away as the exception might well be swallowed
        if sim is not None and not state["done"]:
            state["done"] = True
            sim.violation("*", "hang:livelock", why)
        raise core.SimFatal("livelock", why)
    old = signal.signal(signal.SIGPROF, tick)
    signal.setitimer(signal.ITIMER_PROF, 1.0, 1.0)
    try:
        w = m.run(plan, keep_trace)
        return w
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.signal(signal.SIGPROF, old)


def run_guarded(plan, keep_trace=False):
    """
    Like run_plan, but errors raised out of kiel's code count as violations;
    returns (world, violations, harness_error).
    """
    try:
        w = run_plan(plan, keep_trace)
        return w, list(w.sim.violations), None
    except BaseException as e:
        if isinstance(e, KeyboardInterrupt):
            raise
        from . import core, world
        repo = os.path.realpath(world.REPO)
        frames = traceback.extract_tb(e.__traceback__)
        text = "".join(traceback.format_exception(e)[-8:])
        if frames and os.path.realpath(frames[-1].filename).startswith(
                repo + os.sep):
            return None, [dict(property="*", kind="exception:%s"
                               % type(e).__name__, detail=text[-1500:],
                               t=0)], None
        if isinstance(e, core.SimFatal):
            return None, [dict(property="*", kind="hang:%s" % e.kind,
                               detail=text[-1500:], t=0)], None
        return None, [], text


def relevant(violations, prop):
    return [v for v in violations if v["property"] in (prop, "*")]


def emit(kind, **kw):
    kw["type"] = kind
    sys.stdout.write(json.dumps(kw) + "\n")
    sys.stdout.flush()


def work(job):
    prop = job["property"]
    deadline = REAL_TIME() + job["seconds"]
    faults = collections.Counter()
    counters = collections.Counter()
    orders = set()
    traces = set()
    runs = nontrivial = steps = 0
    simtime = 0.0
    selftests = mismatches = 0
    per_profile = collections.Counter()
    samples = []
    found = 0
    todo = []
    for part in job["parts"]:
        for i in range(part["start"], part["stop"], part["step"]):
            todo.append((i, part["scenario"], part["profile"]))
    # interleave the profiles so that a time limit cuts all of them evenly
    todo.sort(key=lambda x: (x[0], x[1], x[2]))
    cut = False
    for i, scen, profile in todo:
        if REAL_TIME() > deadline:
            cut = True
            break
        seed = job["seed"] * 100000000 + i
        plan = scenario(scen).gen_plan(seed, profile)
        plan["hashseed"] = job["hashseed"]
        w, vs, err = run_guarded(plan)
        if err:
            emit("error", text=err, plan=plan)
            return
        runs += 1
        per_profile["%s/%s" % (scen, profile)] += 1
        bad = relevant(vs, prop)
        if w is not None:
            s = w.sim
            faults.update(s.fault_counts)
            counters.update(s.counters)
            steps += s.steps
            simtime += s.now - s.t_start
            oh = s.order_hash.hexdigest()
            if s.fault_counts or len(w.ops) > 1:
                nontrivial += 1
                orders.add(oh)
            traces.add(s.hash.hexdigest())
            if len(samples) < 2 and s.fault_counts and not bad:
                samples.append(dict(
                    plan=plan, trace_hash=s.hash.hexdigest(),
                    steps=s.steps, simulated_s=round(s.now - s.t_start, 3),
                    faults=s.fault_counts))
            if runs % 40 == 1:
                w2, vs2, err2 = run_guarded(plan)
                selftests += 1
                if w2 is None or w2.sim.hash.digest() != s.hash.digest():
                    mismatches += 1
        if bad:
            emit("violation", plan=plan, violation=bad[0],
                 all=[(v["property"], v["kind"]) for v in vs][:10],
                 trace_hash=w.sim.hash.hexdigest() if w else None)
            found += 1
            if found >= job.get("max_violations", 3):
                break
    emit("stats", runs=runs, nontrivial=nontrivial, steps=steps,
         simtime=simtime, faults=faults, counters=counters,
         orders=sorted(orders), traces=len(traces), selftests=selftests,
         mismatches=mismatches, per_profile=per_profile, samples=samples,
         cut=cut)


# -- minimising -------------------------------------------------------------

def same(plan, prop, kind):
    w, vs, err = run_guarded(plan)
    if err:
        return None
    for v in relevant(vs, prop):
        if v["kind"] == kind:
            return w, v
    return None


def minimise(plan, prop, kind, seconds):
    """Delta debugging over the lists of a plan (faults, operations...)."""
    deadline = REAL_TIME() + seconds
    tried = 0
    best = json.loads(json.dumps(plan))
    lists = [k for k in ("faults", "ops", "preload", "actors", "calls", "late", "appends",
                         "members")
             if isinstance(best.get(k), list)]

    def attempt(cand):
        nonlocal tried, best
        tried += 1
        if same(cand, prop, kind):
            best = cand
            return True
        return False

    changed = True
    while changed and REAL_TIME() < deadline:
        changed = False
        for key in lists:
            n = len(best[key])
            size = max(1, n // 2)
            while size >= 1 and best[key]:
                i = 0
                while i < len(best[key]):
                    if REAL_TIME() > deadline:
                        return best, tried
                    cand = json.loads(json.dumps(best))
                    del cand[key][i:i + size]
                    if attempt(cand):
                        changed = True
                    else:
                        i += size
                size //= 2
        for path, value in (("net", {}), ("preempt", 0)):
            if path in best and best[path] != value and (
                    REAL_TIME() < deadline):
                cand = json.loads(json.dumps(best))
                cand[path] = value
                changed = attempt(cand) or changed
        for key in ("view_lag", "proc_delay"):
            if key in best.get("cluster", {}) and REAL_TIME() < deadline:
                cand = json.loads(json.dumps(best))
                del cand["cluster"][key]
                changed = attempt(cand) or changed
    return best, tried


def main():
    job = json.loads(sys.stdin.read())
    from . import world
    world.load_kiel()
    mode = job.get("mode", "work")
    if mode == "work":
        work(job)
    elif mode == "minimise":
        plan, prop, kind = job["plan"], job["property"], job["kind"]
        if not same(plan, prop, kind):
            emit("minimised", plan=plan, tried=1, reproduced=False)
            return
        best, tried = minimise(plan, prop, kind, job["seconds"])
        got = same(best, prop, kind)
        w, v = got
        emit("minimised", plan=best, tried=tried, reproduced=True,
             violation=v, trace_hash=w.sim.hash.hexdigest() if w else None)
    elif mode == "replay":
        w, vs, err = run_guarded(job["plan"], keep_trace=True)
        if err:
            emit("error", text=err, plan=job["plan"])
            return
        emit("replayed", violations=vs,
             trace_hash=w.sim.hash.hexdigest() if w else None,
             faults=w.sim.fault_counts if w else {},
             trace=(w.sim.trace_log[-job.get("tail", 200):] if w else []))


if __name__ == "__main__":
    main()
