#!/opt/venv/bin/python
"""
Decides one property by seeded search over simulated executions.

  check.py run <property>        the check (VERIF_SEED, VERIF_TIER)
  check.py replay <file>         re-runs a replay file
  check.py list                  what each property explores
"""
import collections
import json
import os
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/venv/bin/python"
if not os.path.exists(PY):
    PY = sys.executable
REPO = os.environ.get("KIEL_REPO", "/repo")

sys.path.insert(0, HERE)
from props import PROPS, REAL, STUB, ASSUMPTIONS  # noqa

WORKERS = max(1, min(8, os.cpu_count() or 1))


def spawn(job, hashseed):
    env = dict(os.environ, PYTHONHASHSEED=str(hashseed),
               PYTHONDONTWRITEBYTECODE="1", KIEL_REPO=REPO)
    p = subprocess.Popen([PY, "-m", "sim.worker"], cwd=HERE, env=env,
                         stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                         stderr=subprocess.DEVNULL
                         if not os.environ.get("VERIF_DEBUG") else None)
    p.stdin.write(json.dumps(job).encode())
    p.stdin.close()
    return p


def call(job, hashseed, timeout):
    p = spawn(job, hashseed)
    try:
        import threading
        t = threading.Timer(timeout, p.kill)
        t.start()
        out = p.stdout.read()
        p.wait()
    finally:
        t.cancel()
    lines = [json.loads(x) for x in out.decode().splitlines() if x]
    return lines[-1] if lines else None


def load_known():
    with open(os.path.join(HERE, "known_findings.json")) as f:
        return json.load(f)


def write_replay(prop, v, plan, original, trace_hash, tried, tag="violation"):
    d = os.path.join(HERE, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-%s-%s.json" % (prop, tag, plan["seed"]))
    with open(path, "w") as f:
        json.dump(dict(
            property=prop, violation=v, seed=plan["seed"],
            hashseed=plan["hashseed"], trace_hash=trace_hash,
            minimiser_runs=tried, plan=plan, original_plan=original,
            replay="%s %s replay %s" % (PY, os.path.join(HERE, "check.py"),
                                        path)), f, indent=1)
    return path


def run(prop):
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    cfg = PROPS[prop]
    scale = 1 if tier == "quick" else cfg.get("thorough", 40)
    budget = cfg.get("seconds", 400) if tier == "quick" else int(
        os.environ.get("VERIF_SECONDS", "3000"))
    jobs = []
    for k in range(WORKERS):
        parts = []
        for scen, profile, n in cfg["explore"]:
            parts.append(dict(scenario=scen, profile=profile, start=k,
                              stop=n * scale, step=WORKERS))
        jobs.append(dict(mode="work", property=prop, seed=seed, hashseed=k,
                         parts=parts, seconds=budget))
    procs = [spawn(j, j["hashseed"]) for j in jobs]
    stats, violations, errors = gather(procs, budget)
    ran = time.time() - t0
    if errors:
        sys.stderr.write("harness error:\n%s\n" % errors[0]["text"])
        p = os.path.join(HERE, "replays", "%s-error.json" % prop)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "w") as f:
            json.dump(errors[0], f, indent=1)
        if not violations:
            write_evidence(prop, tier, seed, cfg, stats, 0, t0, ran, [])
            return 3
    rc = 0
    known_lines = []
    for k in load_known()["open"]:
        if k["property"] != prop:
            continue
        got = call(dict(mode="replay", plan=k["plan"]),
                   k["plan"]["hashseed"], 120)
        hit = got and got.get("type") == "replayed" and any(
            v["property"] in (prop, "*") and v["kind"] == k["kind"]
            for v in got["violations"])
        other = [] if not got or got.get("type") != "replayed" else [
            v for v in got["violations"] if v["property"] in (prop, "*") and
            v["kind"] != k["kind"]]
        if hit:
            line = "KNOWN-FINDING: property=%s %s" % (prop, k["what"])
            known_lines.append(line)
            print(line)
        if other:
            violations.append(dict(plan=k["plan"], violation=other[0],
                                   trace_hash=got["trace_hash"]))
    if violations:
        rc = 1
        # fewest injected faults first: the easiest to understand
        violations.sort(key=lambda x: (
            len(x["plan"].get("faults", [])) + len(x["plan"].get("ops", [])),
            x["plan"]["seed"]))
        x = violations[0]
        v, plan, th, tried = (x["violation"], x["plan"], x["trace_hash"], 0)
        m = call(dict(mode="minimise", property=prop, plan=plan,
                      kind=v["kind"], seconds=45), plan["hashseed"], 150)
        if m and m.get("type") == "minimised" and m.get("reproduced"):
            plan, v, th, tried = (m["plan"], m["violation"],
                                  m["trace_hash"], m["tried"])
        path = write_replay(prop, v, plan, x["plan"], th, tried)
        print("%s: %s" % (v["kind"], v["detail"][:1500]))
        print("VIOLATION property=%s replay=%s" % (prop, path))
    write_evidence(prop, tier, seed, cfg, stats, len(violations), t0, ran,
                   known_lines)
    print("%s %s: %d runs, %d distinct interleavings, %.0f simulated s, "
          "%d faults, %.1f s" % (
              prop, tier, stats["runs"], len(stats["orders"]),
              stats["simtime"], sum(stats["faults"].values()),
              time.time() - t0))
    if rc == 0 and stats["runs"] == 0:
        return 3
    return rc


def gather(procs, budget):
    """Collects the workers' results; stops early after a violation."""
    import selectors
    sel = selectors.DefaultSelector()
    bufs = {}
    for p in procs:
        sel.register(p.stdout, selectors.EVENT_READ, p)
        bufs[p] = b""
    stats = dict(runs=0, nontrivial=0, steps=0, simtime=0.0,
                 faults=collections.Counter(),
                 counters=collections.Counter(), orders=set(), traces=0,
                 selftests=0, mismatches=0,
                 per_profile=collections.Counter(), samples=[], cut=False)
    violations, errors = [], []
    end = time.time() + budget + 120
    stop_at = None
    open_ = set(procs)
    reported = set()
    while open_:
        now = time.time()
        if now > end or (stop_at and now > stop_at):
            break
        for key, _ in sel.select(timeout=1.0):
            p = key.data
            data = os.read(p.stdout.fileno(), 1 << 20)
            if not data:
                sel.unregister(p.stdout)
                open_.discard(p)
                continue
            bufs[p] += data
            while b"\n" in bufs[p]:
                line, bufs[p] = bufs[p].split(b"\n", 1)
                m = json.loads(line)
                if m["type"] == "violation":
                    violations.append(m)
                    if stop_at is None:
                        stop_at = time.time() + 8
                elif m["type"] == "error":
                    errors.append(m)
                    reported.add(p)
                    if stop_at is None:
                        stop_at = time.time() + 20
                elif m["type"] == "stats":
                    reported.add(p)
                    for k in ("runs", "nontrivial", "steps", "simtime",
                              "traces", "selftests", "mismatches"):
                        stats[k] += m[k]
                    for k in ("faults", "counters", "per_profile"):
                        stats[k].update(m[k])
                    stats["orders"].update(m["orders"])
                    stats["samples"] += m["samples"]
                    stats["cut"] = stats["cut"] or m["cut"]
    for p in procs:
        if p.poll() is None and p in open_:
            p.kill()
        p.wait()
    missing = [p for p in procs if p not in reported]
    if missing and not violations and not errors:
        errors.append(dict(text="%d workers ended without a result"
                           % len(missing)))
    return stats, violations, errors


def write_evidence(prop, tier, seed, cfg, stats, nviol, t0, ran, known):
    wall = time.time() - t0
    per_hour = int(stats["runs"] / max(ran, 0.01) * 3600)
    cov = dict(
        evaluations=stats["runs"],
        distinct_nontrivial=len(stats["orders"]),
        rule="An evaluation is one complete simulated execution, generated "
             "from one seed (plan: cluster or ensemble layout, network "
             "behaviour, client options, operations, faults). It counts as "
             "non-trivial if it has more than one client operation or at "
             "least one injected fault took effect; distinct means a "
             "different sequence of requests, broker actions, operation "
             "outcomes and thread switches (hash without times).",
        samples=stats["samples"][:3],
        simulated_runs_per_hour=per_hour,
        seeds_per_hour=per_hour,
        simulated_seconds=round(stats["simtime"], 1),
        simulated_seconds_per_wall_second=round(
            stats["simtime"] / max(ran, 0.01), 1),
        scheduler_steps=stats["steps"],
        nontrivial_runs=stats["nontrivial"],
        distinct_traces=stats["traces"],
        faults_injected=dict(sorted(stats["faults"].items())),
        events_counted=dict(sorted(stats["counters"].items())),
        runs_by_profile=dict(sorted(stats["per_profile"].items())),
        determinism_selftests=stats["selftests"],
        determinism_mismatches=stats["mismatches"],
        stopped_by_time_limit=stats["cut"],
        hash_seeds=list(range(WORKERS)),
        real_components=cfg.get("real", REAL),
        stub_components=cfg.get("stub", STUB),
        known_findings=known,
    )
    d = os.path.join(HERE, "evidence")
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, "%s.json" % prop), "w") as f:
        json.dump(dict(property=prop, tier=tier, seed=seed,
                       level="exploration", coverage=cov,
                       assumptions=ASSUMPTIONS + cfg.get("assumptions", []),
                       wall_s=round(wall, 2), violations=nviol), f, indent=1)


def replay(path):
    with open(path) as f:
        r = json.load(f)
    got = call(dict(mode="replay", plan=r["plan"], tail=400), r["hashseed"],
               300)
    if not got or got.get("type") != "replayed":
        print("replay failed: %s" % (got or {}).get("text"))
        return 3
    for line in got["trace"]:
        print(line)
    for v in got["violations"]:
        print("%(property)s %(kind)s at %(t)s: %(detail)s" % v)
    hit = any(v["kind"] == r["violation"]["kind"] and
              v["property"] == r["violation"]["property"]
              for v in got["violations"])
    same = got["trace_hash"] == r["trace_hash"]
    print("reproduced: %s, identical trace: %s" % (hit, same))
    if hit:
        print("VIOLATION property=%s replay=%s" % (r["property"], path))
    return 1 if hit else 0


def main():
    cmd = sys.argv[1]
    if cmd == "run":
        return run(sys.argv[2])
    if cmd == "replay":
        return replay(sys.argv[2])
    if cmd == "list":
        for p in sorted(PROPS):
            print(p, PROPS[p]["explore"])
        return 0
    print(__doc__)
    return 2


if __name__ == "__main__":
    sys.exit(main())
