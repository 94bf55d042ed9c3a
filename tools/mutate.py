#!/usr/bin/env python3
"""Measures what the checks see: makes small changes to the library's sources one at a time, in a scratch copy, and runs a
short search for every property on each. Prints the changes nothing noticed, which are either without effect or a hole.

usage: mutate.py [--files GLOB] [--part K/N] [--runs N] [--props C01,..] [--only N,N..] [--list]
"""
import argparse, concurrent.futures, fnmatch, glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build

VARIANTS = ["opt-nano", "asan-base"]
ORDER = ["C01", "C02", "C04", "C03", "C13", "C14", "C05", "C18", "C07", "C06", "C08", "C11", "C12", "C09", "C10", "C15", "C16", "C17"]
RUNS = {"C17": 60, "C06": 300, "C14": 3000, "C09": 1500, "C16": 800, "C07": 2500}

BIN = [("<=", "<"), (">=", ">"), ("==", "!="), ("!=", "=="), ("&&", "||"), ("||", "&&"), (" < ", " <= "), (" > ", " >= "), (" + ", " - "), (" - ", " + "),
       (" * ", " + "), (" % ", " * "), ("+=", "-="), ("++", "--"), ("std::min", "std::max"), ("std::max", "std::min"), ("true", "false"), ("false", "true"),
       ("break;", "continue;"), ("continue;", "break;")]


def blank(line):
    """The line with strings, characters and comments blanked out, so that nothing in them is changed."""
    out, i, q = [], 0, None
    while i < len(line):
        ch = line[i]
        if q:
            if ch == "\\":
                out.append("  "); i += 2; continue
            if ch == q:
                q = None
            out.append(" ")
        elif line.startswith("//", i):
            out.append(" " * (len(line) - i)); break
        elif ch in "\"'":
            q = ch; out.append(" ")
        else:
            out.append(ch)
        i += 1
    return "".join(out)


def mutants(path):
    text = open(path).read()
    lines = text.split("\n")
    depth = 0
    for n, line in enumerate(lines):
        b = blank(line)
        s = b.strip()
        if not s or s.startswith(("#", "namespace", "using", "template", "assert", "/*", "*")):
            continue
        # operators
        for a, r in BIN:
            p = -1
            while True:
                p = b.find(a, p + 1)
                if p < 0:
                    break
                around = b[max(0, p - 1):p + len(a) + 1]
                if a in ("<=", ">=", "==", "!=") and ("<<" in around or ">>" in around):
                    continue
                if "template" in b or "static_cast<" in b[max(0, p - 12):p + 1] and a == "<=":
                    continue
                yield n, line[:p] + r + line[p + len(a):], "%s -> %s" % (a.strip(), r.strip())
        for m in re.finditer(r"(?<![\w.])(\d+)(?![\w.])", b):
            v = int(m.group(1))
            yield n, line[:m.start()] + str(v + 1) + line[m.end():], "%d -> %d" % (v, v + 1)
            if v > 1:
                yield n, line[:m.start()] + str(v - 1) + line[m.end():], "%d -> %d" % (v, v - 1)
        # conditions
        m = re.match(r"^(\s*(?:\} else )?if \()(.*)(\) \{?.*)$", line)
        if m and s.endswith("{"):
            yield n, m.group(1) + "false && (" + m.group(2) + ")" + m.group(3), "if never"
            yield n, m.group(1) + "true || (" + m.group(2) + ")" + m.group(3), "if always"
        # statements
        if s.endswith(";") and not re.match(r"^(return|break|continue|const|auto|static|int|size_t|double|float|std::(string|vector|unordered|map|set|locale|istream|ostream|ifstream|ofstream)|[A-Z]\w+ \w+;|\}|char|bool|else|for|using|typedef|struct|class|enum)\b", s) \
                and not s.startswith(("}", ")", "{")) and (n == 0 or blank(lines[n - 1]).rstrip().endswith((";", "{", "}", ":"))):
            yield n, re.match(r"\s*", line).group(0) + ";", "removed: " + s[:60]
    # adjacent statements swapped
    for n in range(len(lines) - 1):
        a, b = lines[n].strip(), lines[n + 1].strip()
        if a.endswith(";") and b.endswith(";") and re.match(r"^(in >>|out <<|in\.read|out\.write)", a) and re.match(r"^(in >>|out <<|in\.read|out\.write)", b) and a != b:
            yield n, lines[n + 1] + "\n" + lines[n], "swapped with the next"


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--files", default="*.cpp")
    ap.add_argument("--part", default="1/1")
    ap.add_argument("--runs", type=int, default=500)
    ap.add_argument("--props", default=",".join(ORDER))
    ap.add_argument("--only", default="")
    ap.add_argument("--list", action="store_true")
    ap.add_argument("--workers", type=int, default=4)
    a = ap.parse_args()
    all_m = []
    for f in sorted(glob.glob(os.path.join(build.REPO, "src", "*.cpp"))):
        if os.path.basename(f) in ("validate_spec.cpp",) or not fnmatch.fnmatch(os.path.basename(f), a.files):
            continue
        for n, new, what in mutants(f):
            all_m.append((f, n, new, what))
    k, nn = map(int, a.part.split("/"))
    todo = [(i, m) for i, m in enumerate(all_m) if i % nn == k - 1]
    if a.only:
        want = set(map(int, a.only.split(",")))
        todo = [(i, m) for i, m in enumerate(all_m) if i in want]
    if a.list:
        for i, m in todo:
            print(i, os.path.basename(m[0]), m[1] + 1, m[3], "|", m[2].strip()[:100])
        return
    root = tempfile.mkdtemp(prefix="mshio-mut-")
    bdir = os.path.join(root, "obj")
    os.makedirs(bdir)
    print("%d of %d changes" % (len(todo), len(all_m)), flush=True)
    out, objs = build.jobs_for(VARIANTS, bdir, bdir)
    with concurrent.futures.ThreadPoolExecutor(max_workers=8) as ex:
        list(ex.map(lambda o: build.run(out[o], []), out))
    counts = {"killed": 0, "survived": 0, "uncompilable": 0}
    by = {}

    def one(job):
        i, (f, n, new, what) = job
        name = os.path.basename(f)
        d = os.path.join(root, "m%d" % i)
        os.makedirs(d)
        try:
            lines = open(f).read().split("\n")
            if what == "swapped with the next":
                lines[n:n + 2] = new.split("\n")
            else:
                lines[n] = new
            src = os.path.join(d, name)
            open(src, "w").write("\n".join(lines))
            runners = {}
            for v in VARIANTS:
                o = os.path.join(bdir, v + "-" + name + ".o")
                cmd = [src if x == f else x for x in out[o]]
                mo = os.path.join(d, v + ".o")
                cmd[cmd.index("-o") + 1] = mo
                if subprocess.run(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode:
                    return i, job[1], "uncompilable", ""
                r = os.path.join(d, "runner-" + v)
                ld = build.VARIANTS[v][2]
                build.run(["clang++", "-pie"] + [mo if x == o else x for x in objs[v]] + ld + ["-Wl,--wrap=" + w for w in build.WRAPS] + ["-pthread", "-ldl", "-o", r], [])
                runners[v] = r
                os.unlink(mo)
            for p in a.props.split(","):
                for v in VARIANTS:
                    try:
                        r = subprocess.run([runners[v], "batch", "--prop", p, "--seed", "1", "--start", "0", "--count", str(RUNS.get(p, a.runs)), "--jobs", "2", "--out",
                                            os.path.join(d, "o.json"), "--known", os.path.join(build.VERIF, "known-findings.txt"), "--replay-dir", d,
                                            "--max-wall", "60", "--shrink-wall", "0"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=400)
                        rc = r.returncode
                    except subprocess.TimeoutExpired:
                        rc = "timeout"
                    if rc != 0:
                        return i, job[1], "killed", "%s %s rc %s" % (p, v, rc)
            return i, job[1], "survived", ""
        finally:
            shutil.rmtree(d, ignore_errors=True)

    t0 = time.time()
    try:
        with concurrent.futures.ThreadPoolExecutor(max_workers=a.workers) as ex:
            for i, (f, n, new, what), res, by_what in ex.map(one, todo):
                counts[res] += 1
                if res == "killed":
                    by[by_what.split()[0]] = by.get(by_what.split()[0], 0) + 1
                    if by_what.split()[-1] not in ("1",):
                        print("?%d %s:%d %s: %s" % (i, os.path.basename(f), n + 1, what, by_what), flush=True)
                if res == "survived":
                    print("SURVIVED %d %s:%d %s | %s" % (i, os.path.basename(f), n + 1, what, new.strip().replace("\n", " // ")[:140]), flush=True)
                if sum(counts.values()) % 50 == 0:
                    print("... %s %.0f s" % (counts, time.time() - t0), flush=True)
    finally:
        shutil.rmtree(root, ignore_errors=True)
    print(counts, by, "%.0f s" % (time.time() - t0))


if __name__ == "__main__":
    main()
