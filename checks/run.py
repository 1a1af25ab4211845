#!/usr/bin/env python3
"""check <property> [quick|thorough]: decides one property by static analysis of /repo's current sources."""
import sys, os, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from common import *
import registry
def main():
    prop = sys.argv[1]; tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    t0 = time.time()
    viol, und, cov, assum = [], [], {}, []
    expl = []
    failed = []
    for a in registry.CHECKS[prop]["analyses"]:
        try:
            v, u, c = a(prop, tier)
            viol += v; und += u
            for k, x in c.items(): cov[k] = cov.get(k, 0) + x if isinstance(x, (int, float)) and k in cov else x
        except AnalysisError as e: failed.append(str(e))
    und += failed
    if len(failed) == len(registry.CHECKS[prop]["analyses"]):
        print("ANALYSIS-ERROR property=%s %s" % (prop, "; ".join(failed))); return 2
    cov["explanation"] = registry.CHECKS[prop]["explanation"]
    return finish(prop, tier, t0, cov, viol, und, registry.ASSUMPTIONS + registry.CHECKS[prop].get("assumptions", []), registry.CHECKS[prop].get("level", "other"))
sys.exit(main())
