"""Planted bugs: (re)creates seeded/<id>/ from a list of edits and demonstrations, and tries them out.

  plant.py make            write seeded/*  (patches against /repo's HEAD)
  plant.py try ID [CHECK]  apply to /repo, run tests, demo and checks, undo
"""
import json, os, subprocess, sys, shutil
V = "/verif"
R = "/repo"
HEAD = r'''#!/bin/bash
# exit 0: behaves as specified; nonzero: broken.  cwd = repository, after the build.
here=$(cd "$(dirname "$0")" && pwd)
NX=$PWD/_build/nxas
T=$(mktemp -d) || exit 9
trap 'rm -rf "$T"' EXIT
fail() { echo "DEMO FAILED: $*"; exit 1; }
# asm TEXT: assembles printf-formatted TEXT; output in $T/out, status returned
asm() { rm -f "$T/out"; printf "$1" > "$T/in"; timeout 60 "$NX" "$T/in" -o "$T/out" >"$T/log" 2>&1; }
words() { od -An -v -tx8 -w8 "$T/out" | tr -d ' ' | tr '\n' ' ' | sed 's/ $//'; }
word() { words | cut -d' ' -f$(($1 + 1)); }
accept() { asm "$1" || fail "rejected: $1"; }
reject() { asm "$1" && fail "accepted: $1"; [ $? = 1 ]; s=$?; [ -e "$T/out" ] && fail "output written: $1"; return 0; }
# expect TEXT INDEX WORD
expect() { accept "$1"; w=$(word $2); [ "$w" = "$3" ] || fail "$1: word $2 is $w, not $3"; }
same() { accept "$1"; a=$(words); accept "$2"; b=$(words); [ "$a" = "$b" ] || fail "differ: $1 / $2"; }
differ() { accept "$1"; a=$(words); accept "$2"; b=$(words); [ "$a" != "$b" ] || fail "same: $1 / $2"; }
# lib OUT FLAGS...: compiles main.cpp beside this script with the library's sources
lib() { o=$1; shift; s=$(grep -LE '^ *(int|auto) +main *\(' $(find src -name '*.cpp'))
  g++ -std=c++20 -w "$@" -Iinclude -Isrc $s "$here/main.cpp" -o "$o" || exit 9; }
'''
BUGS = []
def bug(id, prop, edits, demo, needs, breaks, main=None):
    BUGS.append(dict(id=id, prop=prop, edits=edits, demo=demo, needs=needs, breaks=breaks, main=main))

exec(open(os.path.join(V, "tools", "bugs.py")).read())

def sh(*a, **k):
    return subprocess.run(a, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **k)

def make(only=None):
    assert not sh("git", "-C", R, "status", "--porcelain").stdout
    for b in BUGS:
        if only and b["id"] not in only:
            continue
        d = os.path.join(V, "seeded", b["id"])
        os.makedirs(d, exist_ok=True)
        try:
            for f, old, new in b["edits"]:
                p = os.path.join(R, f)
                s = open(p).read()
                assert s.count(old) == 1, (b["id"], f, s.count(old), old)
                open(p, "w").write(s.replace(old, new))
            diff = sh("git", "-C", R, "diff").stdout
        finally:
            sh("git", "-C", R, "checkout", "--", ".")
        open(os.path.join(d, "patch.diff"), "w").write(diff)
        open(os.path.join(d, "demo.sh"), "w").write(HEAD + b["demo"].strip("\n") + "\nexit 0\n")
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        if b["main"]:
            open(os.path.join(d, "main.cpp"), "w").write(b["main"])
        json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]},
                  open(os.path.join(d, "meta.json"), "w"), indent=1)

def demo(id):
    r = sh("bash", os.path.join(V, "seeded", id, "demo.sh"), cwd=R)
    return r.returncode, r.stdout.strip()[-300:]

def attempt(id, checks=None):
    prop = json.load(open(os.path.join(V, "seeded", id, "meta.json")))["property"]
    out = {"id": id, "prop": prop}
    sh("bash", "/opt/vp/build.sh")
    out["demo_clean"] = demo(id)
    try:
        r = sh("git", "-C", R, "apply", os.path.join(V, "seeded", id, "patch.diff"))
        assert r.returncode == 0, r.stdout
        sh("bash", "/opt/vp/test.sh", "/tmp/plant-out.json")
        t = json.load(open("/tmp/plant-out.json"))
        out["passed"], out["failed"] = len(t["passed"]), t["failed"][:4]
        out["demo_bug"] = demo(id)
        for c in checks or [prop]:
            r = sh("bin/check", c, "quick", cwd=V)
            v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
            out[c] = (r.returncode, len(v), r.stdout[:300] if c == prop else "")
    finally:
        sh("git", "-C", R, "checkout", "--", ".")
    sh("bash", "/opt/vp/build.sh")
    ok = out["demo_clean"][0] == 0 and out["demo_bug"][0] != 0 and not out["failed"] and out["passed"] == 1110
    print("==", id, prop, "VALID" if ok else "INVALID", {c: out[c][0] for c in (checks or [prop])})
    if not ok:
        print("   clean", out["demo_clean"], "bug", out["demo_bug"], out["passed"], out["failed"])
    for c in [prop] if prop in out else []:
        print("   ", out[c][2].replace("\n", "\n    "))
    sys.stdout.flush()
    return out

if __name__ == "__main__":
    if sys.argv[1] == "make":
        make(sys.argv[2:])
    elif sys.argv[1] == "try":
        ids = [b["id"] for b in BUGS] if sys.argv[2] == "all" else sys.argv[2].split(",")
        for i in ids:
            attempt(i, sys.argv[3:] or None)
