#!/usr/bin/env python3
"""Decides one property of MshIO by deterministic simulation with fault injection.

  check.py C01                     search seeded runs; tier from VERIF_TIER (quick), seed from VERIF_SEED (1)
  check.py C01 --tier thorough     deeper search
  check.py --replay FILE           replay a recorded violation against /repo's current tree
  check.py C01 --runs N            N runs per build variant instead of the tier's number

Exit 0: held on everything explored.  Exit 1 and a VIOLATION line: broken.  Anything else: the check failed.
"""
import argparse, json, os, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, "tools"))
import build as B  # noqa: E402

KNOWN = os.path.join(VERIF, "known-findings.txt")
OUT = os.environ.get("SIM_OUT", os.path.join(VERIF, "out"))
EVIDENCE = os.environ.get("SIM_EVIDENCE", os.path.join(VERIF, "evidence"))
ORDER = ["opt-nano", "asan-base", "asan-nano", "opt-base"]
ORDER_OF = {"C10": ["opt-nano", "mem-nano", "asan-base", "asan-nano"]}
# Parts of a property that are run a few times only, in one process: arrays of more than 2^32 bytes.
GIANT = {"C01": [("C01G", "opt-base", 1), ("C01H", "opt-base", 1)]}
GIANT_GB = 16

# Runs per build variant in the quick tier (thorough: THOROUGH times as many, or until the time is used up).
QUICK = {"C01": 13500, "C02": 13500, "C03": 16500, "C04": 18000, "C05": 12000, "C06": 12000, "C07": 18000, "C08": 12000,
         "C09": 30000, "C10": 13500, "C11": 13500, "C12": 10500, "C13": 13500, "C14": 150000, "C15": 9000, "C16": 30000, "C17": 3750, "C18": 18000}
THOROUGH = 60
WALL = {"quick": 480.0, "thorough": 3000.0}  # a guard for slow machines; on time, the numbers above decide
SHRINK_WALL = {"quick": 60.0, "thorough": 180.0}

WORKLOAD = {
    "C01": "a seeded valid spec saved as 4.1 (ASCII or binary) to a simulated stream or file and loaded from another",
    "C02": "a seeded valid spec saved as 2.2 (ASCII or binary) to a simulated stream or file and loaded from another",
    "C03": "a seeded well-formed document from an independent encoder imitating other producers, delivered three ways",
    "C04": "a seeded spec saved twice to simulated sinks, decoded by an independent strict reader",
    "C05": "a seeded document cut (or zero-filled) at up to 8 points, each load delivered by a different simulated source",
    "C06": "a seeded document whose source fails at a seeded byte or system call, then healthy loads",
    "C07": "a seeded document with seeded damage to its bytes or decoded fields, loaded under several deliveries and heap fills",
    "C08": "a seeded spec saved to sinks that fail at seeded bytes, flushes, opens and closes, then to a healthy one",
    "C09": "a load or save under failing allocations (one, all from one on, by size, memory budget), then repeated with memory",
    "C10": "2 to 4 simulated threads loading and saving under a seeded scheduler, some with failing memory, sources, sinks or files, compared with the calls run alone",
    "C11": "a seeded history of loads, saves, conversions and failing calls, each compared with the reference model",
    "C12": "loads and saves under seeded C, C++ and stream locales (system ones, too), flags, precision, width, fill, masks, heap and stack fills",
    "C13": "documents and specs with extension sections, in builds with and without the extension",
    "C14": "documents and specs with one unsupported feature each, under all deliveries",
    "C15": "file saves over earlier files with a crash right after return or after a seeded number of disk changes, then a restart",
    "C16": "one call (healthy, torn, damaged, failing or out of memory) repeated six times with resources counted",
    "C17": "one dimension of a seeded document or spec grown 32 or 100 times, the cost of the two loads and the two saves compared",
    "C18": "a seeded document with one number, end tag or entry count made invalid, loaded under all deliveries",
}
REAL = ["all of /repo/src and /repo/include, compiled unchanged from the working tree", "libstdc++ streams, locales and file buffers",
        "glibc heap (behind the allocation seam)", "the kernel's files, in a scratch directory, behind the system call seam"]
STUB = ["stream buffers of the simulated sources and sinks", "clocks, sleeping and the random device",
        "open/read/write/seek/sync/close/rename/remove of files under the scratch directory (faults, short transfers, crash)",
        "C streams the library opens itself (cookie streams over the same calls)",
        "operator new, and malloc as called by the library (failure, budget, fill patterns)", "thread scheduling (threads parked and released one at a time by the seeded scheduler)",
        "process death (the simulated disk stops at the crash point; nothing is killed)"]


def free_gb():
    m = {l.split(":")[0]: int(l.split()[1]) for l in open("/proc/meminfo") if len(l.split()) > 1}
    gb = m.get("MemAvailable", 0) / 2.0 ** 20
    try:
        limit = open("/sys/fs/cgroup/memory.max").read().strip()
        if limit != "max":
            gb = min(gb, (int(limit) - int(open("/sys/fs/cgroup/memory.current").read())) / 2.0 ** 30)
    except (OSError, ValueError):
        pass
    return gb


def known_lines(prop):
    if not os.path.exists(KNOWN):
        return []
    return [l.strip() for l in open(KNOWN) if l.startswith("known: property=%s " % prop)]


def check(prop, tier, seed, runs, jobs):
    t0 = time.time()
    order = ORDER_OF.get(prop, ORDER)
    try:
        runners = B.build(order, quiet=True)
    except RuntimeError as e:
        print(e, file=sys.stderr)
        print("check: the build failed", file=sys.stderr)
        return 2
    built = time.time() - t0
    os.makedirs(OUT, exist_ok=True)
    os.makedirs(EVIDENCE, exist_ok=True)
    count = runs or QUICK[prop] * (THOROUGH if tier == "thorough" else 1)
    deadline = time.time() + WALL[tier]
    done, broken, violation = [], [], None
    phases = [(prop, v, i * count, count, jobs) for i, v in enumerate(order)]
    if prop in GIANT and not runs and free_gb() >= GIANT_GB:
        phases += [(p, v, 0, n * (3 if tier == "thorough" else 1), 1) for p, v, n in GIANT[prop]]
    for i, (p, v, start, n, j) in enumerate(phases):
        out = os.path.join(OUT, "%s-%s.json" % (p, v))
        if os.path.exists(out):
            os.unlink(out)
        left = [x for x in phases[i:] if x[0] == prop]
        wall = max(5.0, (deadline - time.time()) / len(left)) if left else 300.0
        cmd = [runners[v], "batch", "--prop", p, "--seed", str(seed), "--start", str(start), "--count", str(n),
               "--jobs", str(j), "--out", out, "--known", KNOWN, "--replay-dir", OUT, "--max-wall", "%.0f" % wall,
               "--shrink-wall", "%.0f" % SHRINK_WALL[tier]]
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, errors="replace")
        if r.returncode not in (0, 1):
            broken.append((v, r.returncode, r.stdout[-2000:]))
            continue
        d = json.load(open(out))
        if p != prop:
            d["variant"] += ", " + p
        done.append(d)
        if r.returncode == 1:
            violation = d["violation"]
            violation["variant"] = v
            break
    wall = time.time() - t0
    if done:
        write_evidence(prop, tier, seed, jobs, count, done, violation, built, wall)
    hits = {}
    for d in done:
        for k, n in d["known"].items():
            hits[k] = hits.get(k, 0) + n
    for l in known_lines(prop):
        rest = l.split('match="', 1)[-1].split('"', 1)[-1].strip()
        print("KNOWN-FINDING: property=%s %s" % (prop, rest))
    n = sum(d["runs"] for d in done)
    if violation:
        print("%s: %s" % (violation["class"], violation["message"]))
        print("case: %s" % violation.get("case", ""))
        print("minimised from %s to %s choices; variant %s, run %s" %
              (violation["choices_before"], violation["choices_after"], violation["variant"], violation["run"]))
        print("replay with: python3 check.py --replay %s" % violation["replay"])
        print("VIOLATION property=%s replay=%s" % (prop, violation["replay"]))
        return 1
    for v, c, text in broken:
        print("check: variant %s ended with %d\n%s" % (v, c, text), file=sys.stderr)
    if broken:
        return 2
    late = [d["variant"] for d in done if d["out_of_time"]]
    print("%s held on %d simulated runs of %d planned (%d distinct), %.0f s%s" %
          (prop, n, sum(x[3] for x in phases), distinct(done), wall, ", out of time in " + ", ".join(late) if late else ""))
    return 0


def distinct(done):
    s = set()
    for d in done:
        g = d["sigs"]
        # the build variant is part of what makes a run distinct only through what it reached, so it is left out
        s.update(g[k:k + 10] for k in range(0, len(g), 10))
    return len(s)


def write_evidence(prop, tier, seed, jobs, count, done, violation, built, wall):
    total = {}
    for d in done:
        for k, n in d["counters"].items():
            total[k] = total.get(k, 0) + n
    runs = sum(d["runs"] for d in done)
    search = sum(d["search_s"] for d in done) or 1e-9
    samples = []
    for d in done:
        for s in d["samples"][:3]:
            samples.append(d["variant"] + ": " + s)
    cov = {
        "evaluations": runs,
        "distinct_nontrivial": distinct(done),
        "rule": "One evaluation is one simulated run: " + WORKLOAD[prop] + "; every choice (content, schedule, faults) is drawn from the run's "
                "seed. A run's signature hashes the shape of the content, the kinds and places of the faults, the media and delivery modes and "
                "the outcomes of the calls; distinct_nontrivial counts different signatures over all build variants, and every run makes at "
                "least one library call whose outcome is compared with the oracle.",
        "samples": samples[:8],
        "simulated_runs_per_hour": round(runs / search * 3600),
        "seeds_per_hour": round(runs / search * 3600),
        "simulated_time_steps": total.get("steps_k", 0),
        "simulated_seconds": total.get("simulated_s", 0),
        "simulated_time_note": "Steps are basic blocks of library code executed under the step budget; seconds are those of the simulated clock, which every transfer advances (MshIO reads no clock).",
        "library_calls": total.get("sut_calls", 0),
        "library_calls_returned": total.get("sut_returned", 0),
        "library_calls_threw": total.get("sut_threw", 0),
        "faults_injected": {k[2:]: n for k, n in sorted(total.items()) if k.startswith("f_") and n},
        "conditions_hit": {k[2:]: n for k, n in sorted(total.items()) if k.startswith("p_") and n},
        "library_blocks_reached": {d["variant"]: d["blocks"] for d in done},
        "longest_call_steps": max(d["maxsteps"] for d in done),
        "variants": {d["variant"]: {"runs": d["runs"], "planned": d["planned"], "processes": d["processes"], "event_log_hash": d["loghash"],
                                    "search_s": round(d["search_s"], 1), "out_of_time": d["out_of_time"]} for d in done},
        "worker_processes": jobs,
        "build_s": round(built, 1),
        "real_components": REAL,
        "stubbed_components": STUB,
    }
    if violation:
        cov["violation"] = {k: violation[k] for k in ("variant", "run", "class", "message", "replay", "choices_before", "choices_after") if k in violation}
    known = {}
    for d in done:
        for k, n in d["known"].items():
            known[k] = known.get(k, 0) + n
    if known:
        cov["known_findings_seen"] = known
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
        "assumptions": ["x86-64 Linux, glibc, libstdc++ of this sandbox", "sampling: a clean batch is evidence, not proof",
                        "documents and specs of up to a few thousand entries (a few per thousand runs: about 100000)"],
        "wall_s": round(wall, 1), "violations": 1 if violation else 0,
    }
    path = os.path.join(EVIDENCE, prop + ".json")
    with open(path + ".tmp", "w") as f:
        json.dump(ev, f, indent=1)
    os.rename(path + ".tmp", path)


def replay(path):
    variant = None
    for l in open(path):
        if l.startswith("variant "):
            variant = l.split()[1]
    if variant not in B.VARIANTS:
        print("check: no variant in " + path, file=sys.stderr)
        return 2
    runner = B.build([variant], quiet=True)[variant]
    return subprocess.run([runner, "replay", path]).returncode


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int)
    ap.add_argument("--runs", type=int)
    ap.add_argument("--jobs", type=int, default=os.cpu_count() or 4)
    ap.add_argument("--replay")
    a = ap.parse_args()
    if a.replay:
        return replay(a.replay)
    if a.prop not in QUICK:
        ap.error("property C01..C18 expected")
    tier = a.tier or os.environ.get("VERIF_TIER") or "quick"
    seed = a.seed if a.seed is not None else int(os.environ.get("VERIF_SEED") or 1)
    return check(a.prop, tier if tier in WALL else "quick", seed, a.runs, a.jobs)


if __name__ == "__main__":
    sys.exit(main())
