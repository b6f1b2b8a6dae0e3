#!/usr/bin/env python3
import os, sys, importlib.util
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib
def load(pid, tier, seed):
    p = os.path.join(vlib.V, "checks", pid.lower() + ".py")
    sp = importlib.util.spec_from_file_location("check_" + pid, p); m = importlib.util.module_from_spec(sp)
    sys.path.insert(0, os.path.dirname(p)); sp.loader.exec_module(m)
    c = vlib.Check(pid, tier, seed); m.plan(c); return c
if __name__ == "__main__":
    pid = sys.argv[1]; tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick"); seed = int(os.environ.get("VERIF_SEED", "1"))
    c = load(pid, tier, seed)
    if len(sys.argv) > 3: c.tasks = [t for t in c.tasks if sys.argv[3] in t["name"]]; used = {t["mod"] for t in c.tasks}; c.modules = {k: v for k, v in c.modules.items() if k in used}
    sys.exit(vlib.run(c))
