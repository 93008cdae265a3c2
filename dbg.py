"""Developer tool: run one seed with trace and kiel logging."""
import sys, os
if os.environ.get("PYTHONHASHSEED") is None:
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable] + sys.argv)
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import importlib, logging, json
scen, profile, seed = sys.argv[1], sys.argv[2], int(sys.argv[3])
m = importlib.import_module("sim.scen." + scen)
plan = m.gen_plan(seed, profile)
print(json.dumps(plan, indent=None))
import types, time
logging.time = types.SimpleNamespace(**{k: getattr(time, k) for k in (
    "time", "time_ns", "localtime", "gmtime", "strftime")})
logging.logThreads = logging.logProcesses = logging.logAsyncioTasks = logging.logMultiprocessing = False
logging._srcfile = None
from sim import core, world
world.load_kiel()
logging.disable(logging.NOTSET)
class H(logging.Handler):
    def createLock(self): self.lock = None
    def handle(self, r): self.emit(r)
    def emit(self, r):
        sim = core.CURRENT.sim if hasattr(core.CURRENT, "sim") else core.CURRENT
        t = (sim.now - sim.t_start) if sim else 0
        try:
            msg = r.getMessage()
        except Exception as e:
            msg = repr(e)
        print("%10.4f LOG %s %s %s" % (t, r.name, r.levelname, msg), ("| %r" % (r.exc_info[1],)) if r.exc_info else "")
if len(sys.argv) > 5:
    lk = logging.getLogger("kazoo"); lk.setLevel(5); lk.addHandler(H()); lk.propagate = False
if len(sys.argv) > 4:
    lg = logging.getLogger("kiel"); lg.setLevel(logging.DEBUG); lg.addHandler(H()); lg.propagate = False
w = m.run(plan, keep_trace=True)
for v in w.sim.violations:
    print(v)
