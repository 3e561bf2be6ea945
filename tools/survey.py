#!/usr/bin/env python3
"""Lists the kinds of violations of some scenarios (development aid): survey.py SUITE SCENARIO... [-n RUNS] [-r MIN,MAX]"""
import sys, os, collections, argparse
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import check
a = argparse.ArgumentParser()
a.add_argument("suite"); a.add_argument("scenario", nargs="+"); a.add_argument("-n", type=int, default=4000); a.add_argument("-r", default="1,1"); a.add_argument("-s", type=int, default=1)
a = a.parse_args()
simrun, pre = check.build([a.suite])
for sc in a.scenario:
    job = {"suite": a.suite, "scenario": sc, "ranks": tuple(map(int, a.r.split(",")))}
    for c in check.CHECKS.values():
        for j in c["jobs"]:
            if j["suite"] == a.suite and j["scenario"] == sc:
                job = j
    v, t, _ = check.execute_batch(check.command(simrun, pre[a.suite], a.suite, job), a.s, a.n, 100, 8, None)
    print(sc, "runs", t["runs"], "violations", len(v), "discarded", t["discarded"])
    c = collections.Counter((x["class"], x["msg"][:140]) for x in v)
    for k, n in c.most_common(30):
        print("   %4d %s | %s  e.g. run %d" % (n, k[0], k[1], next(x["run"] for x in v if (x["class"], x["msg"][:140]) == k)))
    print("   ", {k: x[0] for k, x in sorted(t["counters"].items())})
