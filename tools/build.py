#!/usr/bin/env python3
"""Builds the simulator around /repo's current sources: four variants of the library under one harness.

The result is keyed by the content of everything that goes in, so an unchanged tree is not rebuilt, and a changed one
always is. Nothing is written outside /verif/build.
"""
import concurrent.futures, fcntl, glob, hashlib, os, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SIM_REPO", "/repo")
BUILD = os.environ.get("SIM_BUILD", os.path.join(VERIF, "build"))

WRAPS = ["pthread_mutex_lock", "pthread_rwlock_wrlock", "pthread_rwlock_rdlock", "pthread_once",
         "__cxa_guard_acquire", "__cxa_guard_release", "__cxa_guard_abort", "mmap", "munmap", "flock", "pthread_mutex_unlock", "pthread_mutex_trylock", "pthread_rwlock_unlock",
         "pthread_rwlock_tryrdlock", "pthread_rwlock_trywrlock", "pthread_spin_lock", "pthread_spin_unlock", "pthread_spin_trylock", "sem_post", "sem_wait", "sem_trywait",
         "_ZNSt10_Sp_lockerC1EPKv", "_ZNSt10_Sp_lockerC1EPKvS1_", "_ZNSt10_Sp_lockerD1Ev", "nanosleep", "clock_nanosleep", "usleep",
         "clock_gettime", "gettimeofday", "time", "clock", "_ZNSt6chrono3_V212steady_clock3nowEv", "_ZNSt6chrono3_V212system_clock3nowEv",
         "_ZNSt13random_device9_M_getvalEv", "getrandom", "getentropy", "getpid"]
SAN = ["-fsanitize=address,bounds,integer-divide-by-zero,return,unreachable,bool", "-fno-sanitize-recover=all"]

VARIANTS = {
    # name: (compiler, library flags, link flags, flavour, extension)
    "asan-nano": ("clang++", ["-O1", "-g1", "-fno-omit-frame-pointer"] + SAN, SAN, "asan", True),
    "asan-base": ("clang++", ["-O1", "-g1", "-fno-omit-frame-pointer"] + SAN, SAN, "asan", False),
    "opt-nano": ("g++", ["-O2", "-g1", "-DNDEBUG"], [], "plain", True),
    "opt-base": ("g++", ["-O2", "-g1", "-DNDEBUG"], [], "plain", False),
    "mem-nano": ("clang++", ["-O1", "-g1", "-DNDEBUG", "-fsanitize=thread", "-mllvm", "-tsan-instrument-read-before-write=1",
                           "-mllvm", "-tsan-instrument-func-entry-exit=0"], [], "plain", True),
}


def sha(paths, extra):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode())
        with open(p, "rb") as f:
            h.update(f.read())
        h.update(b"\0")
    h.update(repr(extra).encode())
    return h.hexdigest()[:20]


def run(cmd, log):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise RuntimeError("%s\n%s" % (" ".join(cmd), r.stdout[-6000:]))
    if r.stdout.strip():
        log.append(r.stdout.strip())


def jobs_for(variants, hdir, ldir):
    """(command, object) per translation unit, harness first by flavour."""
    out = {}
    lib_src = sorted(glob.glob(os.path.join(REPO, "src", "*.cpp")))
    har_src = sorted(glob.glob(os.path.join(VERIF, "sim", "*.cpp")))
    objs = {}
    for v in variants:
        cc, lf, ld, flavour, nano = VARIANTS[v]
        ext = ["-DMSHIO_EXT_NANOSPLINE"] if nano else []
        objs[v] = []
        for s in lib_src:  # the library's objects come first in the link: shared inline code is the instrumented one
            o = os.path.join(ldir, v + "-" + os.path.basename(s) + ".o")
            out[o] = [cc, "-std=c++14", "-fPIE", "-I" + os.path.join(REPO, "include"), "-I" + os.path.join(REPO, "src"),
                      "-fsanitize-coverage=trace-pc", "-c", s, "-o", o] + lf + ext
            objs[v].append(o)
        for s in har_src:
            key = v if s.endswith("main.cpp") else flavour + ("-nano" if nano else "-base")
            o = os.path.join(hdir, key + "-" + os.path.basename(s) + ".o")
            out[o] = ["clang++", "-std=c++17", "-fPIE", "-O1", "-g1", "-Wall", "-Wextra", "-I" + os.path.join(REPO, "include"),
                      "-c", s, "-o", o] + ext + (["-DSIM_PLAIN"] if flavour == "plain" else []) + \
                     (['-DSIM_VARIANT="%s"' % v] if s.endswith("main.cpp") else [])
            objs[v].append(o)
    return out, objs


LOCALES = {"de_DE.UTF-8": ("de_DE", "UTF-8"), "fr_CH.ISO-8859-1": ("fr_CH", "ISO-8859-1"), "hi_IN.UTF-8": ("hi_IN", "UTF-8"), "tr_TR.ISO-8859-9": ("tr_TR", "ISO-8859-9")}


def locales():
    """System locales for C12, which the machine need not have installed; without localedef there are none."""
    top = os.path.join(BUILD, "locale")
    for name, (inp, cs) in LOCALES.items():
        d = os.path.join(top, name)
        if os.path.isdir(d) or not shutil.which("localedef"):
            continue
        os.makedirs(top, exist_ok=True)
        shutil.rmtree(d + ".tmp", ignore_errors=True)
        subprocess.run(["localedef", "--no-archive", "-i", inp, "-f", cs, d + ".tmp"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        if os.path.isfile(os.path.join(d + ".tmp", "LC_NUMERIC")):
            os.rename(d + ".tmp", d)


def build(variants=None, quiet=False):
    """Returns {variant: path of the runner}."""
    variants = list(variants or VARIANTS)
    os.makedirs(BUILD, exist_ok=True)
    har = glob.glob(os.path.join(VERIF, "sim", "*"))
    inc = [p for p in glob.glob(os.path.join(REPO, "include", "**", "*"), recursive=True) if os.path.isfile(p)]
    lib = [p for p in glob.glob(os.path.join(REPO, "src", "**", "*"), recursive=True) if os.path.isfile(p)]
    with open(os.path.abspath(__file__), "rb") as f:
        me = hashlib.sha256(f.read()).hexdigest()
    hkey = sha(har + inc, me)
    lkey = sha(har + inc + lib, me)
    hdir, ldir = os.path.join(BUILD, "h-" + hkey), os.path.join(BUILD, "l-" + lkey)
    runners = {v: os.path.join(ldir, "runner-" + v) for v in variants}
    with open(os.path.join(BUILD, ".lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        locales()
        if all(os.path.exists(p) for p in runners.values()):
            os.utime(ldir), os.utime(hdir) if os.path.isdir(hdir) else None
            return runners
        t0 = time.time()
        os.makedirs(hdir, exist_ok=True)
        os.makedirs(ldir, exist_ok=True)
        out, objs = jobs_for(variants, hdir, ldir)
        log = []
        # the largest harness files first
        todo = sorted((o for o in out if not os.path.exists(o)), key=lambda o: -os.path.getsize(out[o][out[o].index("-c") + 1]))

        def compile_one(o):
            tmp = o + ".tmp"
            cmd = list(out[o])
            cmd[cmd.index("-o") + 1] = tmp
            run(cmd, log)
            os.rename(tmp, o)

        with concurrent.futures.ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
            list(ex.map(compile_one, todo))

            def link(v):
                cc, lf, ld, flavour, nano = VARIANTS[v]
                tmp = runners[v] + ".tmp"
                run(["clang++", "-pie"] + objs[v] + ld + ["-Wl,--wrap=" + w for w in WRAPS] + ["-pthread", "-ldl", "-o", tmp], log)
                os.rename(tmp, runners[v])
            list(ex.map(link, variants))
        # keep only the last few builds
        for prefix, keep in (("l-", 4), ("h-", 2)):
            old = sorted((d for d in glob.glob(os.path.join(BUILD, prefix + "*")) if d not in (hdir, ldir)), key=os.path.getmtime)
            for d in old[:max(0, len(old) - keep)]:
                shutil.rmtree(d, ignore_errors=True)
        for o in glob.glob(os.path.join(ldir, "*.o")):
            os.unlink(o)
        if not quiet:
            for l in log:
                print(l)
            print("built %s in %.1f s" % (", ".join(variants), time.time() - t0), file=sys.stderr)
    return runners


if __name__ == "__main__":
    try:
        for v, p in build(sys.argv[1:] or None).items():
            print(v, p)
    except RuntimeError as e:
        print(e, file=sys.stderr)
        sys.exit(2)
