"""Mutation campaign (development aid, not a check): small random edits of /repo's sources that compile and
pass the repository's own tests are handed to the checks, in a scratch copy.

  mutate.py gen N SEED      -> /tmp/mut/survivors.json   (mutants passing the upstream vectors)
  mutate.py run [CHECKS..]  -> /tmp/mut/results.json     (first check that kills each survivor)
"""
import concurrent.futures as cf, json, os, random, re, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = "/repo"
W = "/tmp/mut"
sys.path.insert(0, V)
FILES = ["src/token.cpp", "src/dksh.cpp", "src/command_line.cpp", "src/operand.h", "src/nxas.cpp",
         "src/helper.h", "src/options.cpp", "src/opcode.h", "src/parse.cpp", "src/error.cpp",
         "src/helper.cpp", "src/write.cpp", "src/fp16.h", "src/table.h", "src/context.cpp"]
WEIGHT = {"src/operand.h": 5, "src/table.h": 2, "src/context.cpp": 5, "src/helper.cpp": 5, "src/parse.cpp": 5,
          "src/dksh.cpp": 2, "src/options.cpp": 3, "src/fp16.h": 2, "src/nxas.cpp": 2,
          "src/command_line.cpp": 2}


def vectors():
    t = open(R + "/tests/CMakeLists.txt").read()
    ok, bad = t.split("set(failure_tests")
    good = [(m.group(2), int(m.group(1), 16)) for m in re.finditer(r'^    "(0x[0-9a-f]+) ([^"]*)"', ok, re.M)]
    bads = [m.group(1) for m in re.finditer(r'^    "([^"]*)"', bad, re.M)]
    return good, bads


def mutations(line, rng):
    out = []
    code = line.split("//")[0]
    for m in re.finditer(r"\b0x[0-9A-Fa-f]+|\b\d+\b", code):
        s = m.group(0)
        v = int(re.match(r"0x[0-9A-Fa-f]+|\d+", s).group(0), 0)
        for n in {v + 1, v - 1, v * 2, v ^ (1 << rng.randrange(8)), 0}:
            if n >= 0 and n != v:
                out.append(code[:m.start()] + (hex(n) if s.startswith("0x") else str(n)) + code[m.end():])
    for a, bs in (("<", ["<=", ">="]), (">", [">=", "<="]), ("<=", ["<", ">"]), (">=", [">", "<"]),
                  ("==", ["!="]), ("!=", ["=="]), ("&&", ["||"]), ("||", ["&&"])):
        for m in re.finditer(r"(?<= )" + re.escape(a) + r"(?= )", code):
            for b in bs:
                out.append(code[:m.start()] + b + code[m.end():])
    for a, bs in (("+", ["-"]), ("-", ["+"]), ("|", ["&", "^"]), ("&", ["|"]), ("<<", [">>"]), (">>", ["<<"]),
                  ("%", ["/"]), ("|=", ["="]), ("+=", ["-=", "="])):
        for m in re.finditer(r"(?<= )" + re.escape(a) + r"(?= )", code):
            for b in bs:
                out.append(code[:m.start()] + b + code[m.end():])
    for a, b in (("true", "false"), ("false", "true")):
        for m in re.finditer(r"\b%s\b" % a, code):
            out.append(code[:m.start()] + b + code[m.end():])
    m = re.match(r"(\s*(?:\} else )?if \()(.*)(\) \{\s*)$", code.rstrip("\n"))
    if m and ";" not in m.group(2):
        for c in ("false", "true", "!(%s)" % m.group(2)):
            out.append(m.group(1) + c + m.group(3) + "\n")
    if re.match(r"\s+[^/{}]*;\s*$", code) and not re.match(r"\s*(return|const|uint|int|auto|token tok|static|std::\w+ \w+|bool|DEFINE|#|using|enum)", code):
        out.append("\n")
    for m in re.finditer(r'"([^"\\%]*)"', code):
        s = m.group(1)
        for n in {s.lower(), s + "X", s[:-1], s[1:]}:
            if n != s:
                out.append(code[:m.start()] + '"' + n + '"' + code[m.end():])
    ss = list(re.finditer(r'"([^"\\%]*)"', code))
    if len(ss) > 1:
        i = rng.randrange(len(ss) - 1)
        a, b = ss[i], ss[i + 1]
        out.append(code[:a.start()] + b.group(0) + code[a.end():b.start()] + a.group(0) + code[b.end():])
    # table rows: exchange neighbouring operands
    if "INSN(" in code or code.count(",") > 3:
        parts = code.split(", ")
        if len(parts) > 3:
            i = rng.randrange(len(parts) - 1)
            q = parts[:]
            q[i], q[i + 1] = q[i + 1], q[i]
            out.append(", ".join(q))
            i = rng.randrange(len(parts))
            out.append(", ".join(parts[:i] + parts[i + 1:]))
    return [o if o.endswith("\n") else o + "\n" for o in out]


def gen(n, seed):
    rng = random.Random(seed)
    per = []
    for f in FILES:
        lines = open(os.path.join(R, f)).read().split("\n")
        ms = []
        for i, l in enumerate(lines):
            if l.startswith("#") or not l.strip() or l.strip().startswith("//"):
                continue
            for m in mutations(l + "\n", rng):
                if m.strip() != l.strip():
                    ms.append((f, i, m.rstrip("\n")))
        per.append((f, ms))
        print(f, len(ms))
    cand = []
    tot = sum(WEIGHT.get(f, 1) for f, _ in per)
    for f, ms in per:
        k = min(len(ms), n * WEIGHT.get(f, 1) // tot)
        cand += rng.sample(ms, k)
    print(len(cand), "candidates")
    good, bads = vectors()
    # base objects
    base = W + "/base"
    os.makedirs(base, exist_ok=True)
    srcs = [s for s in os.listdir(R + "/src") if s.endswith(".cpp")]
    for s in srcs:
        subprocess.check_call(["g++", "-std=c++20", "-w", "-O0", "-I" + R + "/include", "-I" + R + "/src", "-c", R + "/src/" + s, "-o", base + "/" + s + ".o"])
    subprocess.check_call(["g++", "-std=c++20", "-w", "-O0", "-I" + R + "/include", "-c", V + "/harness/driver.cpp", "-o", base + "/driver.o"])
    from nxv.driver import Driver

    def one(k):
        f, i, new = cand[k]
        d = W + "/m%d" % k
        shutil.copytree(R + "/src", d + "/src")
        try:
            p = d + "/" + f
            lines = open(p).read().split("\n")
            lines[i] = new
            open(p, "w").write("\n".join(lines))
            tus = [os.path.basename(f)] if f.endswith(".cpp") else [
                s for s in srcs if s in ("parse.cpp", "helper.cpp") or os.path.basename(f) in ("opcode.h", "helper.h")]
            objs = []
            for s in srcs:
                if s in tus:
                    r = subprocess.run(["g++", "-std=c++20", "-w", "-O0", "-I" + R + "/include", "-I" + d + "/src", "-c", d + "/src/" + s, "-o", d + "/" + s + ".o"], stderr=subprocess.DEVNULL)
                    if r.returncode:
                        return None
                    o = d + "/" + s + ".o"
                else:
                    o = base + "/" + s + ".o"
                if s != "command_line.cpp":
                    objs.append(o)
            subprocess.check_call(["g++"] + objs + [base + "/driver.o", "-Wl,--wrap=exit", "-o", d + "/drv"])
            dr = Driver(d + "/drv", 5, False)
            try:
                if not all(o.ok for o in dr.run([(t + ";").encode() for t, _ in good[:5]])):
                    return None
                outs = dr.run([(t + ";").encode() for t, _ in good] + [(t + ";").encode() for t in bads])
            except Exception:
                return None
            finally:
                dr.close()
            for (t, w), o in zip(good, outs):
                if not o.ok or len(o.words) < 2 or o.words[1] != w:
                    return None
            for t, o in zip(bads, outs[len(good):]):
                if o.ok:
                    return None
            return cand[k]
        finally:
            shutil.rmtree(d, ignore_errors=True)
    with cf.ThreadPoolExecutor(8) as ex:
        surv = [s for s in ex.map(one, range(len(cand))) if s]
    json.dump(surv, open(W + "/survivors.json", "w"), indent=0)
    print(len(surv), "survivors")


ORDER = ["C08", "C02", "C12", "C04", "C10", "C13", "C16", "C14", "C07", "C06", "C05", "C09", "C15", "C11", "C03", "C17", "C19", "C01", "C18"]


def run(checks):
    surv = json.load(open(W + "/survivors.json"))
    res = json.load(open(W + "/results.json")) if os.path.exists(W + "/results.json") else []
    done = {tuple(r["m"]) for r in res}
    vv, rr = W + "/verif", W + "/repo"
    shutil.rmtree(vv, ignore_errors=True)
    shutil.copytree(V, vv, ignore=shutil.ignore_patterns("build", "evidence", ".git", "seeded"))
    for m in surv:
        if tuple(m) in done:
            continue
        f, i, new = m
        shutil.rmtree(rr, ignore_errors=True)
        shutil.copytree(R, rr, ignore=shutil.ignore_patterns("_build", ".git"))
        p = os.path.join(rr, f)
        lines = open(p).read().split("\n")
        old, lines[i] = lines[i], new
        open(p, "w").write("\n".join(lines))
        killed = []
        first = {"options": "C10", "dksh": "C10", "write": "C10", "command_line": "C13", "fp16": "C09", "helper": "C09 C02 C04",
                 "parse": "C07 C14 C08", "context": "C12 C16 C05", "table": "C02 C08", "operand": "C02 C04 C08", "nxas": "C06 C07",
                 "error": "C16", "opcode": "C07 C02"}[os.path.basename(f).split(".")[0]].split()
        cs = checks or ORDER
        for c in [c for c in first if c in cs] + [c for c in cs if c not in first]:
            e = dict(os.environ, NXV_REPO=rr, VERIF_SEED="1")
            r = subprocess.run(["bin/check", c, "quick"], cwd=vv, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
            if r.returncode:
                killed.append((c, r.returncode, r.stdout[:200]))
                break
        res.append({"m": m, "old": old, "killed": killed})
        json.dump(res, open(W + "/results.json", "w"), indent=1)
        print(len(res), "/", len(surv), "KILLED " + killed[0][0] if killed else "ALIVE", f, i + 1, "|", old.strip(), "->", new.strip(), flush=True)


if sys.argv[1] == "gen":
    gen(int(sys.argv[2]), int(sys.argv[3]))
elif sys.argv[1] == "run":
    run(sys.argv[2:])
