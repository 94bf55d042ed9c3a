#!/usr/bin/env python3
"""Makes /verif/seeded/<id>/ from the descriptions in tools/seeds/*.py and confirms each one in a scratch copy of /repo: it
builds, the stable tests pass, the demo passes without and fails with the change, and it changes lines of the base commit.

  mkseeded.py [ID...]          make and confirm
  mkseeded.py --check [ID...]  also run the property's check against the changed copy and report what it says
"""
import glob, json, os, re, shutil, subprocess, sys, tempfile, time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DST = os.path.join(V, "seeded")
BASE = "95798ab"
DEMO = """#!/bin/bash
# cwd: the MshIO tree, built by build.sh
here=$(cd "$(dirname "$0")" && pwd)
scratch=$(mktemp -d /tmp/mshio-demo.XXXXXX) || exit 3
%s -std=c++14 -O1 -g %s-Iinclude "$here/demo.cpp" %s -pthread -ldl -o "$scratch/demo" || exit 3
cd "$scratch" && timeout 100 ./demo
rc=$?
rm -rf "${scratch:?}"
exit $rc
"""


def sh(cmd, cwd=None, env=None, timeout=None):
    r = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, errors="replace", timeout=timeout)
    return r.returncode, r.stdout


def scratch_scripts(wt, tmp):
    for n in ("build.sh", "test.sh"):
        s = open("/opt/vp/" + n).read().replace("/opt/vp/build.sh", tmp + "/build.sh").replace("/repo", wt)
        open(tmp + "/" + n, "w").write(s)


def bugs():
    out = {}
    for f in sorted(glob.glob(os.path.join(V, "tools", "seeds", "*.py"))):
        ns = {}
        exec(open(f).read(), ns)
        for b in ns["BUGS"]:
            assert b["id"] not in out
            out[b["id"]] = b
    return out


def touched(wt):
    """Lines the change removes or replaces: of the base commit, and of later ones."""
    base = other = 0
    d = subprocess.run(["git", "diff", "-U0"], cwd=wt, stdout=subprocess.PIPE, text=True).stdout
    f = None
    for l in d.split("\n"):
        if l.startswith("--- a/"):
            f = l[6:]
        m = re.match(r"@@ -(\d+)(?:,(\d+))? ", l)
        if m and m.group(2) != "0":
            n = int(m.group(2) or 1)
            a = int(m.group(1))
            bl = subprocess.run(["git", "blame", "-s", "-L", "%d,%d" % (a, a + n - 1), "HEAD", "--", f], cwd=wt, stdout=subprocess.PIPE, text=True).stdout
            for x in bl.strip().split("\n"):
                if x.startswith("^" + BASE):
                    base += 1
                else:
                    other += 1
    return base, other


def main():
    args = sys.argv[1:]
    check = "--check" in args
    table = bugs()
    ids = [a for a in args if not a.startswith("--")] or sorted(table)
    ids = [i for a in ids for i in sorted(table) if i.startswith(a)]
    tmp = tempfile.mkdtemp(prefix="mshio-plant-", dir="/tmp")
    wt = tmp + "/wt"
    caught = 0
    try:
        sh(["cp", "-a", "/repo", wt])
        shutil.rmtree(wt + "/_build", ignore_errors=True)
        scratch_scripts(wt, tmp)
        rc, o = sh(["bash", tmp + "/build.sh"])
        assert rc == 0, o[-2000:]
        clean = {}
        for i in ids:
            b, dst = table[i], os.path.join(DST, i)
            shutil.rmtree(dst, ignore_errors=True)
            os.makedirs(dst)
            with open(dst + "/demo.cpp", "w") as f:
                f.write('#include "util.h"\n%s\nint main()\n{%s    return 0;\n}\n' % (b.get("prelude", ""), b["demo"]))
            shutil.copy(V + "/tools/seeded_util.h", dst + "/util.h")
            open(dst + "/demo.sh", "w").write(DEMO % (("clang++", "-fsanitize=thread ", "src/*.cpp") if b["conf"] == "race" else ("g++", "-DMSHIO_EXT_NANOSPLINE " if b["conf"] == "nanospline" else "", "_build/%s/libmshio.a" % b["conf"])))
            os.chmod(dst + "/demo.sh", 0o755)
            json.dump({k: b[k] for k in ("property", "needs", "what_it_breaks")}, open(dst + "/meta.json", "w"), indent=1)
            clean[i] = sh(["bash", dst + "/demo.sh"], cwd=wt, timeout=300)
        for i in ids:
            b, dst = table[i], os.path.join(DST, i)
            sh(["git", "checkout", "-q", "--", "."], cwd=wt)
            for f, old, new in b["edits"]:
                p = os.path.join(wt, f)
                t = open(p).read()
                assert t.count(old) == 1, (i, f, t.count(old), old)
                open(p, "w").write(t.replace(old, new))
            diff = subprocess.run(["git", "diff"], cwd=wt, stdout=subprocess.PIPE, text=True).stdout
            open(dst + "/patch.diff", "w").write(diff)
            t = touched(wt)
            brc, bo = sh(["bash", tmp + "/build.sh"])
            if os.path.exists(tmp + "/t.json"):
                os.unlink(tmp + "/t.json")
            rc, o = sh(["bash", tmp + "/test.sh", tmp + "/t.json"])
            passed = json.load(open(tmp + "/t.json"))["passed"] if os.path.exists(tmp + "/t.json") else []
            drc, do = sh(["bash", dst + "/demo.sh"], cwd=wt, timeout=300)
            ok = brc == 0 and clean[i][0] == 0 and drc != 0 and len(passed) >= 21 and t[0] > 0
            line = "%-24s %s %s tests %d demo clean %d patched %d, lines of base %d, of fixes %d" % (
                i, b["property"], "ok  " if ok else "BAD ", len(passed), clean[i][0], drc, t[0], t[1])
            if not ok:
                line += "\n" + clean[i][1][-600:] + do[-600:] + (bo[-1500:] if brc else "")
            if check:
                t0 = time.time()
                env = dict(os.environ, SIM_REPO=wt, SIM_BUILD=tmp + "/simbuild", SIM_EVIDENCE=tmp + "/ev", SIM_OUT=tmp + "/out")
                rc, o = sh([sys.executable, os.path.join(V, "check.py"), b["property"]], env=env)
                hit = re.findall(r"^VIOLATION.*$", o, re.M)
                good = rc == 1 and bool(hit)
                caught += good
                line += " | check rc %d %s %.0f s" % (rc, "CAUGHT" if good else "MISSED", time.time() - t0)
                line += "\n      " + " / ".join(o.strip().split("\n")[:4])[:400]
            print(line, flush=True)
        sh(["git", "checkout", "-q", "--", "."], cwd=wt)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    if check:
        print("caught %d of %d" % (caught, len(ids)))


main()
