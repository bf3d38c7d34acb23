#!/usr/bin/env python3
"""Build (from /repo's working tree) and run the check of one property.

usage: run.py ID [--tier quick|thorough] [extra arguments for the harness]
"""
import concurrent.futures as cf, hashlib, os, shutil, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("MATSLISE_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(HERE, ".build"))
sys.path.insert(0, HERE)
from checks import CHECKS  # noqa: E402


def library_sources(matscs):
    """Every library source in the working tree, without the bindings (and without the slow coupled part unless needed)."""
    r = []
    for d, ds, fs in os.walk(os.path.join(REPO, "matslise")):
        ds[:] = sorted(x for x in ds if x not in ("pyslise", "js") and (matscs or x != "matscs"))
        r += [os.path.relpath(os.path.join(d, f), REPO) for f in sorted(fs) if f.endswith(".cpp")]
    return r


def tree_hash(bases):
    h = hashlib.sha256()
    for base in bases:
        for d, ds, fs in os.walk(base):
            ds.sort()
            for f in sorted(fs):
                p = os.path.join(d, f)
                h.update(p.encode())
                with open(p, "rb") as fd:
                    h.update(fd.read())
    return h.hexdigest()[:16]


def compile_check(pid, variant="", tries=2):
    c = CHECKS[pid]
    lib = os.path.join(REPO, "matslise")
    libkey = "L" + tree_hash([lib])
    key = "H" + tree_hash([lib, os.path.join(HERE, "harness"), os.path.join(HERE, "engine")])
    out = os.path.join(BUILD, key)
    libout = os.path.join(BUILD, libkey)
    os.makedirs(out, exist_ok=True)
    os.makedirs(libout, exist_ok=True)
    # throw away builds of other trees
    if not os.environ.get("VERIF_KEEP_BUILDS"):
        for d in os.listdir(BUILD):
            if d not in (key, libkey) and len(d) == 17:
                shutil.rmtree(os.path.join(BUILD, d), ignore_errors=True)
    tag = c.get("variant", "rel") + variant
    cxx = c.get("cxx", "g++")
    flags = ["-std=c++17", "-isystem", "/usr/include/eigen3", "-I", REPO, "-w"] + c.get("flags", ["-O2", "-DNDEBUG"]) + c.get("defs", []) + (["-DWITH_MATSCS"] if c.get("matscs") else [])
    flagkey = hashlib.sha256(" ".join([cxx] + flags).encode()).hexdigest()[:8]
    jobs = []
    for s in [] if c.get("nolib") else library_sources(c.get("matscs", False)):
        jobs.append((os.path.join(REPO, s), os.path.join(libout, f"{tag}-{flagkey}-" + s.replace("/", "_") + ".o")))
    for s in ["engine/pbt.cpp"] + c["harness"]:
        jobs.append((os.path.join(HERE, s), os.path.join(out, f"{tag}-{flagkey}-H" + s.replace("/", "_") + ".o")))
    exe = os.path.join(out, f"{pid}-{tag}-{flagkey}")
    if os.path.exists(exe):
        return exe

    def one(job):
        src, obj = job
        if os.path.exists(obj):
            return None
        tmp = obj + f".{os.getpid()}.tmp"
        hf = c.get("harness_flags", []) if src.startswith(HERE) else []
        # the generated formulas are straight-line arithmetic that is very slow to compile with UndefinedBehaviorSanitizer
        if src.endswith("_formulas.cpp") and any("undefined" in f for f in flags):
            hf = ["-fno-sanitize=undefined"]
        r = subprocess.run([cxx] + flags + hf + ["-c", src, "-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            return f"{src}\n{r.stdout}"
        os.rename(tmp, obj)
        return None

    # the most expensive first
    slow = ["matscs/sector", "matscs_formulas", "harness", "periodic", "matslise_formulas"]
    jobs.sort(key=lambda j: next((i for i, s in enumerate(slow) if s in j[0]), 99))
    with cf.ThreadPoolExecutor(8) as ex:
        errs = [e for e in ex.map(one, jobs) if e]
    if errs:
        print("BUILD FAILED\n" + "\n".join(errs)[:6000])
        return None
    r = subprocess.run([cxx] + flags + [j[1] for j in jobs] + c.get("libs", []) + ["-lpthread", "-o", exe + ".tmp"],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        print("LINK FAILED\n" + r.stdout[:6000])
        return None
    os.rename(exe + ".tmp", exe)
    return exe


def main():
    pid = sys.argv[1]
    if pid == "--setup":
        # nothing to install: every check compiles what it needs from the working tree of /repo
        return 0
    args = sys.argv[2:]
    t0 = time.time()
    exe = compile_check(pid)
    if exe is None:
        # code that does not compile is an error of the run, not a verdict on the property
        return 2
    if CHECKS[pid].get("fallback"):
        r = subprocess.run([exe, "--case", "0"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace",
                           env=dict(os.environ, **CHECKS[pid].get("env", {})), timeout=300)
        if "FATAL: ThreadSanitizer" in r.stdout or "FATAL: AddressSanitizer" in r.stdout:
            print("the sanitizer does not run here, going on without it")
            CHECKS[pid].update(flags=CHECKS[pid]["fallback"], variant="plain")
            exe = compile_check(pid)
            if exe is None:
                return 2
    print(f"built {pid} in {time.time() - t0:.1f} s", flush=True)
    if args == ["--build-only"]:
        return 0
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    os.makedirs(os.path.join(BUILD, "out"), exist_ok=True)
    env = dict(os.environ)
    env.update(CHECKS[pid].get("env", {}))
    if not any(a in ("--replay", "--case", "--evidence") for a in args):
        args = ["--evidence", os.path.join(HERE, "evidence", pid + ".json")] + args
    cmd = [exe, "--out", os.path.join(BUILD, "out"), "--known", os.path.join(HERE, "known_findings.txt")] + args
    r = subprocess.run(cmd, env=env)
    if r.returncode < 0 or r.returncode > 2:
        return 2
    return r.returncode


if __name__ == "__main__":
    sys.exit(main())
