#!/usr/bin/env python3
"""One seed is one execution: runs the same seeds three times, with different numbers of worker processes, and compares the
hashes of every run's event log (all choices, faults, results and, under threads, the interleaving).

usage: determinism.py [--runs N] [--props C01,..] [--variants opt-nano,..]
"""
import argparse, os, subprocess, sys, tempfile

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--runs", type=int, default=400)
    ap.add_argument("--props", default=",".join("C%02d" % i for i in range(1, 19)))
    ap.add_argument("--variants", default="opt-nano,mem-nano,asan-base")
    a = ap.parse_args()
    vs = a.variants.split(",")
    runners = build.build(vs, quiet=True)
    bad = 0
    for p in a.props.split(","):
        for v in vs:
            seen = []
            for jobs in (1, 3, 8):
                with tempfile.TemporaryDirectory(prefix="mshio-det-") as d:
                    r = subprocess.run([runners[v], "batch", "--prop", p, "--seed", "7", "--start", "0", "--count", str(a.runs), "--jobs", str(jobs), "--hashes",
                                        "--out", os.path.join(d, "o.json"), "--known", os.path.join(build.VERIF, "known-findings.txt"), "--replay-dir", d,
                                        "--max-wall", "600"], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
                    seen.append(r.stdout)
            lines = seen[0].count(b"\n")
            ok = seen[0] == seen[1] == seen[2] and lines >= a.runs
            if not ok:
                bad += 1
                diff = [(x, y) for s in seen[1:] for x, y in zip(seen[0].split(b"\n"), s.split(b"\n")) if x != y]
                print("%s %s DIFFERS: %d lines, %d different; first %s" % (p, v, lines, len(diff), diff[:1]), flush=True)
        print("%s: %d runs, three times, in %s: %s" % (p, a.runs, a.variants, "differences above" if bad else "identical"), flush=True)
    sys.exit(1 if bad else 0)


if __name__ == "__main__":
    main()
