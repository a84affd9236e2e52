"""Builds the code under test from /repo's current working tree, one directory per configuration."""
import concurrent.futures as cf, time
import glob
import hashlib
import os
import re
import shutil
import subprocess
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("NXV_REPO", "/repo")
BUILD = os.path.join(ROOT, "build")
HARNESS = os.path.join(ROOT, "harness")

COMMON = ["-std=c++20", "-w"]
CONFIGS = {
    # compiler, compile flags, link flags
    "plain": ("g++", ["-O1", "-g1"], []),
    "asan": ("clang++", ["-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=address,undefined",
                     "-fno-sanitize-recover=all", "-D_GLIBCXX_ASSERTIONS"],
             ["-fsanitize=address,undefined"]),
    "tsan": ("clang++", ["-O1", "-g1", "-fsanitize=thread"], ["-fsanitize=thread"]),
    "valgrind": ("g++", ["-O1", "-g1", "-gdwarf-4"], []),
    "gcc_O0": ("g++", ["-O0"], []),
    "gcc_O3_ndebug": ("g++", ["-O3", "-DNDEBUG"], []),
    "clang_O2": ("clang++", ["-O2"], []),
    "clang_O2_ndebug": ("clang++", ["-O2", "-DNDEBUG"], []),
    "clang_O0_ndebug": ("clang++", ["-O0", "-DNDEBUG"], []),
    "gcc_O2_native": ("g++", ["-O2", "-ffp-contract=off", "-fwrapv"], []),
    "gcc_pattern": ("g++", ["-O2", "-ftrivial-auto-var-init=pattern"], []),
    "clang_pattern": ("clang++", ["-O1", "-ftrivial-auto-var-init=pattern", "-DNDEBUG"], []),
    "fuzz": ("clang++", ["-O1", "-g1", "-fsanitize=fuzzer-no-link,address,undefined",
                         "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"],
             ["-fsanitize=fuzzer,address,undefined"]),
    # counts the work done: control-flow edges, and bytes passed to the string and memory functions
    "work": ("clang++", ["-O1", "-g1", "-fno-builtin", "-fsanitize-coverage=edge,trace-pc"], []),
    "gcov": ("g++", ["-O0", "--coverage"], ["--coverage"]),
}


class BuildError(Exception):
    pass


def lib_sources():
    """All library translation units, and the ones that define main() (the CLI)."""
    libs, mains = [], []
    for f in sorted(glob.glob(os.path.join(REPO, "src", "**", "*.cpp"), recursive=True)):
        with open(f, encoding="utf-8", errors="replace") as fh:
            text = fh.read()
        (mains if re.search(r"^\s*(int|auto)\s+main\s*\(", text, re.M) else libs).append(f)
    return libs, mains


def tree_hash():
    h = hashlib.sha256()
    files = []
    for pat in ("src/**/*", "include/**/*"):
        files += glob.glob(os.path.join(REPO, pat), recursive=True)
    files += glob.glob(os.path.join(HARNESS, "*"))
    for f in sorted(set(files)):
        if os.path.isfile(f):
            h.update(f.encode())
            with open(f, "rb") as fh:
                h.update(fh.read())
    return h.hexdigest()[:16]


def _run(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                       errors="replace")
    if r.returncode != 0:
        raise BuildError("command failed: %s\n%s" % (" ".join(cmd), r.stdout[-4000:]))


def build(configs, want=("driver",)):
    """want: driver (serve/one), cli, mt, fuzz.  Returns {(config, want): path}."""
    os.makedirs(BUILD, exist_ok=True)
    th = tree_hash()
    out = {}
    compiles, links = [], []
    libs, mains = lib_sources()
    incs = ["-I" + os.path.join(REPO, "include"), "-I" + os.path.join(REPO, "src")]
    for c in configs:
        cxx, cf_, lf = CONFIGS[c]
        fh = hashlib.sha256(repr((cxx, cf_, lf, COMMON)).encode()).hexdigest()[:8]
        d = os.path.join(BUILD, "%s-%s-%s" % (c, th, fh))
        for old in glob.glob(os.path.join(BUILD, c + "-*")):
            # not those of a check that may still be running beside this one
            if old != d and os.path.exists(old) and time.time() - os.path.getmtime(old) > 1200:
                shutil.rmtree(old, ignore_errors=True)
        os.makedirs(d, exist_ok=True)
        objs = []

        def add(src, tag):
            o = os.path.join(d, tag + os.path.relpath(src, REPO if src.startswith(REPO) else HARNESS)
                             .replace("/", "_") + ".o")
            if not os.path.exists(o):
                compiles.append((os.path.getsize(src) if "parse" not in src else 10 ** 9,
                                 [cxx] + COMMON + cf_ + incs + ["-c", src, "-o", o + ".tmp"], o))
            return o
        for s in libs:
            objs.append(add(s, "lib_"))
        for w in want:
            exe = os.path.join(d, w)
            out[(c, w)] = exe
            if os.path.exists(exe):
                continue
            if w == "cli":
                if not mains:
                    raise BuildError("no CLI main() found under src/")
                mo = [add(s, "cli_") for s in mains]
                extra = []
            else:
                mo = [add(os.path.join(HARNESS, w + ".cpp"), "h_")]
                extra = ["-Wl,--wrap=exit"] if w in ("fuzz", "driver") else []
                if w == "work":
                    # libstdc++ is linked statically so that its calls are counted as well
                    with open(os.path.join(HARNESS, "work.cpp")) as f:
                        names = set(re.findall(r"__wrap_(\w+)|^WRAP(?:_ALLOC)?\([^,()]+, (\w+)|^WRAP_VARIADIC\((\w+)", f.read(), re.M))
                    extra = ["-static-libstdc++"] + ["-Wl,--wrap=" + n for t in sorted(names) for n in t if n and n != "name"]
                if w == "mt":
                    extra = extra + ["-pthread"]
            links.append([cxx] + lf + objs + mo + extra + ["-o", exe])
    compiles.sort(key=lambda t: -t[0])

    def comp(t):
        _run(t[1])
        os.replace(t[2] + ".tmp", t[2])
    with cf.ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
        list(ex.map(comp, compiles))
        list(ex.map(_run, links))
    return out


if __name__ == "__main__":
    print(build(sys.argv[1].split(","), tuple(sys.argv[2].split(","))))
