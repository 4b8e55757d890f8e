#!/usr/bin/env python3
"""One seed is one execution: each property's runs are repeated under another PYTHONHASHSEED, worker count and process,
and the digests of the complete event logs must agree run by run.   selfcheck.py [C01 ...] [--runs N]"""
import json
import os
import subprocess
import sys
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def digests(prop, runs, hashseed, workers, seed):
    with tempfile.TemporaryDirectory() as d:
        out = os.path.join(d, "digests")
        r = subprocess.run([os.path.join(ROOT, "check"), prop, "--no-evidence", "--runs", str(runs), "--workers", str(workers),
                            "--digests", out, "--seed", str(seed)], capture_output=True, text=True,
                           env=dict(os.environ, PYTHONHASHSEED=str(hashseed)))
        if not os.path.exists(out):
            print(r.stdout[-500:], r.stderr[-500:])
            return []
        return [json.loads(line) for line in open(out)]


def main():
    args = sys.argv[1:]
    runs = 160
    if "--runs" in args:
        k = args.index("--runs")
        runs = int(args[k + 1])
        del args[k:k + 2]
    props = args or sorted(f[:-3].upper() for f in os.listdir(os.path.join(ROOT, "sim/props")) if f[0] == "c" and f[1:3].isdigit())
    bad = 0
    for p in props:
        for seed in (1, 20261119):
            a = digests(p, runs, 1, 8, seed)
            b = digests(p, runs, 4242, 3, seed)
            # slow properties may stop at their time limit: compare the runs both made
            b_of = {x[0]: x for x in b}
            both = [x for x in a if x[0] in b_of]
            diff = [x[0] for x in both if x != b_of[x[0]]]
            ok = len(both) >= min(runs, 20) and not diff
            bad += not ok
            print(p, "seed", seed, "%d runs identical" % len(both) if ok else "DIFFERENT %d/%d runs %s" % (len(a), len(b), diff[:8]), flush=True)
    return 1 if bad else 0


if __name__ == "__main__":
    sys.exit(main())
