"""Trial of hand-written bugs in a scratch copy (development aid, not a check).

  trial.py LIST.py [ID..]   LIST.py: T = [(id, "C05 C12", [(file, old, new), ..]), ..]

Every bug is applied to a copy of /repo, must pass the repository's own vectors (see mutate.py), and
is then handed to the named checks.
"""
import os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V, V + "/tools"]
R, W = os.environ.get("TR", "/repo"), "/tmp/tr"
sys.argv, argv = ["mutate.py", "none"], sys.argv
import mutate
from nxv.driver import Driver
exec(open(argv[1]).read())
only = argv[2:]
good, bads = mutate.vectors()
for id, checks, edits in T:
    if only and id not in only:
        continue
    rr = W + "/repo-" + id
    shutil.rmtree(rr, ignore_errors=True)
    shutil.copytree(R, rr, ignore=shutil.ignore_patterns("_build", ".git"))
    try:
        bad = False
        for f, old, new in edits:
            p = os.path.join(rr, f)
            s = open(p).read()
            if s.count(old) != 1:
                print(id, "EDIT", f, s.count(old), flush=True)
                bad = True
                break
            open(p, "w").write(s.replace(old, new))
        if bad:
            continue
        srcs = [rr + "/src/" + s for s in os.listdir(rr + "/src") if s.endswith(".cpp") and s != "command_line.cpp"]
        r = subprocess.run(["g++", "-std=c++20", "-w", "-O0", "-I" + rr + "/include", "-I" + rr + "/src"] + srcs +
                           [V + "/harness/driver.cpp", "-Wl,--wrap=exit", "-o", rr + "/drv"], stderr=subprocess.PIPE, text=True)
        if r.returncode:
            print(id, "COMPILE", r.stderr[:400], flush=True)
            continue
        dr = Driver(rr + "/drv", 5, False)
        outs = dr.run([(t + ";").encode() for t, _ in good] + [(t + ";").encode() for t in bads])
        dr.close()
        fails = [t for (t, w), o in zip(good, outs) if not o.ok or len(o.words) < 2 or o.words[1] != w]
        fails += [t for t, o in zip(bads, outs[len(good):]) if o.ok]
        if fails:
            print(id, "TESTS FAIL", fails[:3], flush=True)
            continue
        os.remove(rr + "/drv")
        for c in checks.split():
            e = dict(os.environ, NXV_REPO=rr, VERIF_SEED=os.environ.get("S", "1"))
            r = subprocess.run(["bin/check", c, "quick"], cwd=V, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
            print(id, c, {0: "MISSED", 1: "caught"}.get(r.returncode, r.returncode), r.stdout.strip()[:160].replace("\n", " | "), flush=True)
    finally:
        shutil.rmtree(rr, ignore_errors=True)
