"""C01: no source text can crash, hang or corrupt the assembler."""
import os
import shutil
import struct
import subprocess
import tempfile

from .. import gen, isa
from ..core import b
from ..driver import SIGNAL, env_for, run_one
from ..gen import join, loose_join
from .c08 import char_edit

LEVEL = "exploration"
NEEDS = [("asan", "driver"), ("plain", "driver"), ("valgrind", "driver"), ("fuzz", "fuzz")]
RULE = ("source texts run under AddressSanitizer+UndefinedBehaviorSanitizer with the library's own "
        "assertions on: valid instructions of every form, token and character mutations, programs "
        "truncated at every byte, random bytes, embedded NULs, very long tokens and label runs, hostile "
        "file names; coverage-guided fuzzing with the same oracle; a subset under valgrind memcheck for "
        "uninitialised values; the only legal endings are words or a diagnostic with status 1; distinct "
        "by text")
ASSUMPTIONS = ["a call that needs more than 20 s, and again more than 60 s when repeated, hangs"]
MINIMUM = {"quick": {"accepted": 10000, "rejected": 100000, "fuzzer executions": 100000,
                     "valgrind cases": 5000, "truncations": 20000}}


def tasks(tier):
    q = tier == "quick"
    t = [("huge", i) for i in range(1 if q else 3)] + [("fuzz", i) for i in range(8 if q else 32)]
    t += [("vg", i) for i in range(8 if q else 48)]
    t += [("long", i) for i in range(LONGS)]
    t += [("mut", i) for i in range(160 if q else 1600)]
    t += [("trunc", i) for i in range(80 if q else 800)]
    t += [("bytes", i) for i in range(40 if q else 400)]
    t += [("near", f.index) for f in isa.FORMS]
    return t


def judge(o):
    for x in o:
        if not x.sane:
            return "neither words nor a diagnostic with status 1: " + x.brief()
        if x.ok and len(x.words) % 4:
            return "output is not a whole number of bundles: " + x.brief()


NAMES = [b"file", b"", b"%s%s%s%n", b"a" * 5000, b"\xff\xfe\x01", b"dir/with space.asm", b"%d:%d", b"x%"]


def put(ctx, text, name=None, cfg="asan"):
    ctx.submit([text], judge, cfg=cfg, names=[name if name is not None else b"file"])


def soup(rng, n):
    voc = gen.vocab()
    out = []
    for _ in range(n):
        out.append(rng.choice(voc))
        out.append(rng.choice(["", " ", " ", "\n", "\t", "\r\n", ";"]))
    return "".join(out)


LONG_PARTS = [
    ("A", "identifier"), ("0", "digits"), ("9", "digits"), ("1", "digits"), ("R", "regs"), ("P", "preds"), (".", "dots"),
    (";", "semicolons"), ("a:\n", "labels"), ("a: ", "labels"), ("\n", "newlines"), ("\t", "tabs"), ("@", "ats"),
    ("-", "minus"), ("[", "brackets"), ("NOP;", "nops"), ("NOP;\n", "nops"), (".CC", "modifiers"), ("!", "bangs"), ("!P", "preds"),
    ("R0 ", "regs"), ("x y ", "words"), ("0x", "hex"), ("1.", "floats"), ("-1.", "floats"), (",", "commas"), ("|", "bars"),
    ("\xff", "bytes"), ("\x00", "nuls"), (":", "colons"), ("P0:", "labels"), (".num_gprs 1\n", "options"),
    (".dksh compute\n", "options"), ("@P0 ", "guards"), ("BRA a;", "branches"), ("\na:BRA a;", "x"), ("\na:\nBRA a;", "branches"),
]
LONGS = len(LONG_PARTS)
# tokens that are harmful when a diagnostic, a fixed buffer or a table look-up treats them carelessly
WEIRD = ["%s%n%s%s", ".%n%s", "%", "%9999999d", "P%s", "!P%s", "R%n", "9%s", "-9%n", "%s:", "." * 3, "." + "Z" * 300, "Z" * 300,
         "R" + "0" * 300 + "1", "0x" + "0" * 300 + "1", "1" * 300, "1." + "1" * 300, "P" * 300, "\x7f", "\x80\xff", ".\xff",
         "-" * 100, "!" * 10, "@" * 10, "\\n", "SR" + "1" * 40, "c" * 40, "R254" + "4" * 20, "-" + "9" * 40, "D", "1D", "2D2D", "-1D",
         "R", "P", "!", ".", "~", "|", "RZZ", "PTT", ".R", ".P0", ".-1", "0x", "-0x", "08", "1.e5", "1.5.5", "a:b:c", "a:", ":"]


def run(ctx, task):
    rng = ctx.rng
    kind = task[0]
    if kind == "fuzz":
        fuzz(ctx, task)
    elif kind == "huge":
        huge(ctx, task)
    elif kind == "vg":
        vg(ctx, task)
    elif kind == "long":
        unit = LONG_PARTS[task[1]][0]
        for size in (1 << 12, 1 << 16, (1 << 20) + 3) if ctx.quick else (1 << 12, 1 << 16, 1 << 20, 1 << 23):
            body = unit * (size // len(unit))
            for text in (body, "NOP;\n" + body, "MOV R0, " + body, body + "NOP;", "NOP" + body, "FADD R0, R1, " +
                         body + ".0;", "main:\n" + body, "MOV R0" + body + ", R1;", "BRA " + body + ";",
                         body + ":\nBRA " + body + ";", "NOP @" + body + ";", "." + body + "\nNOP;", ".dksh " + body,
                         "@" + body + " NOP;", "MOV R0, c[" + body + "][0x0];", "LDG R0, [" + body + "];",
                         ".dksh compute\nmain:" + body + "\nNOP;"):
                put(ctx, text)
                ctx.count("long texts")
            put(ctx, body, cfg="plain")
            ctx.flush()
        # single tokens beyond the size of a stack, uninstrumented
        if len(unit.split()) == 1 and ";" not in unit:
            body = unit * ((12 << 20) // len(unit))
            for text in (body, "NOP;\n" + body + ":\nBRA x;", "BRA " + body + ";\nx:", "MOV R0, " + body + ";", "." + body + "\nNOP;",
                         "NOP @" + body + ";", "R" + body, "P" + body, "FADD R0, R1, 1." + body + ";", ".dksh " + body):
                put(ctx, text, cfg="plain")
                ctx.count("long texts")
                ctx.flush()
        put(ctx, "NOP" + unit * 20, rng.choice(NAMES))
    elif kind == "mut":
        for _ in range(2500):
            t = gen.gen_inst(rng, None, 0.3, 0.3).tokens()
            r = rng.random()
            if r < 0.12:
                text = join(t)
            elif r < 0.6:
                for _ in range(rng.choice([1, 1, 2, 3, 6])):
                    t = gen.mutate_tokens(rng, t) or [";"]
                text = loose_join(t) if rng.random() < 0.7 else join(t)
            elif r < 0.9:
                text = join(t)
                for _ in range(rng.choice([1, 2, 3, 8])):
                    text = char_edit(rng, text) or ";"
            else:
                text = soup(rng, rng.randint(1, 12))
            if rng.random() < 0.1:
                text = text[:rng.randrange(len(text) + 1)]
            put(ctx, text, rng.choice(NAMES) if rng.random() < 0.02 else None)
    elif kind == "trunc":
        for _ in range(10):
            insts = [i for i in (gen.gen_inst(rng, None, 0.3, 0.4) for _ in range(rng.randint(1, 4)))]
            text = rng.choice(["", ".dksh compute\nmain:\n", ".num_gprs 8\n.workgroup_size 1 2 3\n",
                               "main:\n", ".type compute\n.local_memory 16\n"]) + \
                rng.choice(["\n", " "]).join(i.text() for i in insts)
            for k in range(len(text)):
                put(ctx, text[:k])
                ctx.count("truncations")
                if rng.random() < 0.05:
                    put(ctx, text[:k] + "\0" + text[k:])
    elif kind == "bytes":
        alph = [bytes(range(256)).decode("latin-1"), " \t\n\r.;,@[]|~-+!:RPT0123xNOP", "RPZT0189!.;, \n", "0x1.-+e;"]
        for _ in range(3000):
            a = rng.choice(alph)
            put(ctx, "".join(rng.choice(a) for _ in range(rng.choice([1, 2, 3, 5, 15, 16, 17, 40, 200]))))
    else:
        form = isa.FORMS[task[1]]
        for _ in range(6 if ctx.quick else 60):
            base = gen.gen_inst(rng, form, 0.3, 0.2)
            for i, s in enumerate(form.slots):
                ch = s.all_choices(rng)
                for c in ch if len(ch) < 24 else rng.sample(ch, 24):
                    put(ctx, base.with_slot(i, c).text())
            toks = base.tokens()
            for i in range(len(toks)):
                for w in rng.sample(WEIRD, 3):
                    put(ctx, loose_join(toks[:i] + [w] + toks[i + 1:]))
                    put(ctx, loose_join(toks[:i] + [w] + toks[i:]))
                put(ctx, join(toks[:i] + [toks[i] + "%s%n%s"] + toks[i + 1:]))
                put(ctx, join(toks[:i]))
                put(ctx, join(toks[:i]) + " ")


def fuzz(ctx, task):
    rng = ctx.rng
    exe = ctx.paths[("fuzz", "fuzz")]
    d = tempfile.mkdtemp(prefix="nxv-fuzz-")
    try:
        corpus = os.path.join(d, "corpus")
        os.mkdir(corpus)
        for i in range(400):
            n = rng.choice([1, 1, 1, 2, 3])
            text = "\n".join(gen.gen_inst(rng, None, 0.3, 0.3).text() for _ in range(n))
            if rng.random() < 0.1:
                text = ".dksh compute\n.num_gprs 8\nmain:\n" + text
            if rng.random() < 0.1:
                text = "a:\n" + text + "\nb: BRA a;"
            with open(os.path.join(corpus, "%d" % i), "wb") as f:
                f.write(b(text))
        with open(os.path.join(d, "dict"), "w") as f:
            for v in gen.vocab():
                f.write('"%s"\n' % "".join("\\x%02x" % ord(c) for c in v))
        runs = 150000 if ctx.quick else 2000000
        art = os.path.join(d, "art-")
        seed = rng.randrange(1, 1 << 30)
        cmd = [exe, corpus, "-runs=%d" % runs, "-seed=%d" % seed, "-max_len=%d" % rng.choice([64, 256, 1024]),
               "-dict=" + os.path.join(d, "dict"), "-artifact_prefix=" + art, "-close_fd_mask=3",
               "-timeout=30", "-rss_limit_mb=6000", "-detect_leaks=0", "-print_final_stats=1", "-max_total_time=%d" %
               (240 if ctx.quick else 3600)]
        p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env_for(), cwd=d)
        out = p.communicate()[0].decode("latin-1")
        done = 0
        for l in out.splitlines():
            if l.startswith("stat::number_of_executed_units:"):
                done = int(l.split()[-1])
        ctx.count("fuzzer executions", done)
        ctx.evals += done
        ctx.count("fuzzer corpus files", len(os.listdir(corpus)))
        cov = [l for l in out.splitlines() if " cov: " in l]
        if cov:
            ctx.saw("fuzzer edge coverage values", cov[-1].split(" cov: ")[1].split()[0])
        for nm in sorted(os.listdir(corpus))[:4000]:
            ctx.nontrivial.add(hash(nm))
        for nm in sorted(os.listdir(d)):
            if nm.startswith("art-"):
                text = open(os.path.join(d, nm), "rb").read()
                o = run_one(ctx.paths[("asan", "driver")], text, b"fuzz", 60)
                if not o.sane:
                    ctx.violation("fuzzing: neither words nor a diagnostic with status 1: " + o.brief(), [text],
                                  [o.brief()], cfg="asan")
                else:
                    ctx.count("fuzzer artifacts not reproduced")
        ctx.sample({"input": ["libFuzzer seed %d" % seed], "observed": [(cov or [""])[-1].strip()[:160]]})
    finally:
        shutil.rmtree(d, ignore_errors=True)


def huge(ctx, task):
    """Texts on which a count of columns does not fit in 32 bits."""
    unit, n, end = [(b"\t", 540000000, b"FOO;"), (b"\t", 1080000000, b"\nNOP;\n"), (b"  \t\r ", 540000000, b"NOP")][task[1]]
    n //= len(unit)
    o = run_one(ctx.paths[("asan", "driver")], unit * n + end, b"file", 400 if ctx.quick else 1800)
    what = "%d times %r, then %r" % (n, unit, end)
    if o.status == SIGNAL and o.diag == b"timeout":
        ctx.count("inconclusive: huge text timed out")
        return
    ctx.count("huge texts")
    ctx.evals += 1
    ctx.nontrivial.add(hash(what))
    if not o.sane:
        ctx.violation("huge text: neither words nor a diagnostic with status 1: " + o.brief(), [b(what)], [o.brief()], cfg="asan")


VG = ["valgrind", "--tool=memcheck", "-q", "--error-exitcode=99", "--exit-on-first-error=yes", "--undef-value-errors=yes",
      "--leak-check=no", "--num-callers=12"]


def vg(ctx, task):
    """memcheck: no decision, address or output may depend on uninitialised memory."""
    rng = ctx.rng
    exe = ctx.paths[("valgrind", "driver")]
    texts = []
    for _ in range(2500 if ctx.quick else 10000):
        t = gen.gen_inst(rng, None, 0.3, 0.3).tokens()
        r = rng.random()
        if r < 0.4:
            text = join(t)
        elif r < 0.6:
            text = join(gen.mutate_tokens(rng, t) or [";"])
        elif r < 0.75:
            text = char_edit(rng, join(t)) or ";"
        elif r < 0.85:
            text = join(t)
            text = text[:rng.randrange(len(text) + 1)]
        elif r < 0.95:
            text = rng.choice(["", ".dksh compute\nmain:\n"]) + "a:\n" + join(t) + rng.choice(["BRA a;", "\nBRA b;\nb:"])
        else:
            text = soup(rng, rng.randint(1, 10))
        texts.append(b(text))
    d = tempfile.mkdtemp(prefix="nxv-vg-")
    try:
        i, pr = os.path.join(d, "in"), os.path.join(d, "prog")
        with open(i, "wb") as f:
            for t in texts:
                f.write(struct.pack("<II", len(t), 4) + t + bytes("file", "ascii"))
        try:
            r = subprocess.run(VG + [exe, "batch", i, pr], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE,
                               env=env_for(), timeout=300 if ctx.quick else 1800)
        except subprocess.TimeoutExpired:
            # hangs are decided by the other tasks, natively
            ctx.count("inconclusive: valgrind timeout")
            return
        k = int(open(pr).read() or "0")
        ctx.count("valgrind cases", k + 1)
        ctx.evals += k + 1
        for t in texts[:k + 1]:
            ctx.nontrivial.add(hash(t))
        if r.returncode != 0:
            t = texts[min(k, len(texts) - 1)]
            o = run_one(exe, t, b"file", 300, VG)
            if o.status != 0 and not (o.status == 1 and o.code == 1):
                ctx.violation("memcheck: " + o.brief(), [t], [o.brief()], cfg="valgrind")
            else:
                ctx.count("valgrind reports not reproduced")
    finally:
        shutil.rmtree(d, ignore_errors=True)
