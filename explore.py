"""Developer tool: run many seeds of a scenario, summarise violations."""
import sys, time, collections, os, json
if os.environ.get("PYTHONHASHSEED") is None:
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable] + sys.argv)
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import importlib
scen, profile, a, b = sys.argv[1], sys.argv[2], int(sys.argv[3]), int(sys.argv[4])
only = sys.argv[5] if len(sys.argv) > 5 else None
m = importlib.import_module("sim.scen." + scen)
t = time.time()
c = collections.Counter(); ex = {}; fc = collections.Counter()
orders = set(); simt = 0; cnt = collections.Counter()
real_time = time.time
from sim import patch
for s in range(a, b):
    plan = m.gen_plan(s, profile)
    try:
        w = m.run(plan)
    except BaseException as e:
        import traceback
        print("HARNESS seed", s); traceback.print_exc(); continue
    fc.update(w.sim.fault_counts); cnt.update(w.sim.counters)
    orders.add(w.sim.order_hash.hexdigest()); simt += w.sim.now - w.sim.t_start
    for k in set((v["property"], v["kind"]) for v in w.sim.violations):
        c[k] += 1
        d = [v for v in w.sim.violations if (v["property"], v["kind"]) == k][0]
        ex.setdefault(k, (s, d))
for k, n in c.most_common():
    print(n, k, "seed", ex[k][0], "t", ex[k][1]["t"], ex[k][1]["detail"][:600])
print("runs", b - a, "wall %.1f" % (real_time() - t), "orders", len(orders), "simtime %.0f" % simt)
print(dict(fc)); print(dict(cnt))
