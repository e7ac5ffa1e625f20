#!/usr/bin/env python3
"""dumpcases DIR [prop...]: write the cases of every check (quick tier), one file per (property, driver, config), without
running them.  Used by coverage.sh and mutate.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib"))
sys.dont_write_bytecode = True
import vlib, checks
out = sys.argv[1]
os.makedirs(out, exist_ok=True)


class Dump(vlib.Ctx):
    def put(self, driver, config, cases):
        with open(os.path.join(out, f"{self.prop}.{driver}.{config}"), "a") as f:
            for c in cases:
                f.write(json.dumps(c, separators=(",", ":")) + "\n")

    def conform(self, driver, module, cases, configs=("default",), **kw):
        for cf in configs:
            self.put(driver, cf, cases)
        return True

    def replay_behaviours(self, driver, behs, configs=("default",)):
        for cf in configs:
            self.put(driver, cf, [b["case"] for b in behs])
        return True


for p in sys.argv[2:] or sorted(checks.CHECKS):
    c = Dump(p, "quick", 1)
    for cf in vlib.CONFIGS:
        for d in os.listdir(vlib.HARN):
            f = os.path.join(out, f"{p}.{d[:-4]}.{cf}")
            if os.path.exists(f):
                os.unlink(f)
    checks.CHECKS[p][0](c)
    c.close()
    print(p, flush=True)
