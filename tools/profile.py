"""Times the families of a check: python tools/profile.py c17 [tier]"""
import importlib, sys, time, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import env
from mc.explore import run_tasks, _task
from concurrent.futures import ProcessPoolExecutor
m = importlib.import_module("checks." + sys.argv[1])
ts = m.tasks(sys.argv[2] if len(sys.argv) > 2 else "quick")
def one(i):
    t = time.perf_counter()
    r = _task(ts[i]) 
    return i, time.perf_counter() - t, r
if __name__ == "__main__":
    with ProcessPoolExecutor(8) as ex:
        for i, dt, r in ex.map(one, range(len(ts))):
            print("%3d %6.1fs st=%s tr=%s ex=%s %s %s" % (i, dt, r.states, r.transitions, r.exhausted, ts[i][1][0], repr(ts[i][1][2:])[:200]))
            for v in r.violations[:2]: print("   VIOL", v["message"][:300], repr(v["trace"])[:400])
