"""C18: the work grows in proportion to the text."""
import struct
import subprocess

from .. import gen, isa
from ..core import Stop, b
from ..driver import env_for
from .c05 import LABEL_FORMS, branch_text

LEVEL = "exploration"
NEEDS = [("work", "work")]
RULE = ("families of texts that grow by repeating or lengthening one part (statements of every form, labels, branches, directives, "
        "white space at every place, names, literals, malformed ends, mixtures) at sizes n and 4n; an instrumented build counts control-flow "
        "edges executed, bytes handed to the C string and memory functions and bytes allocated during the call, and processor time "
        "is measured; work per byte of text at 4n may not exceed that at n by more than half; distinct by family; "
        "non-trivial = work was measured at both sizes")
ASSUMPTIONS = ["work is counted in the library's own code, in the C functions it calls and in allocations; processor time, with a wide margin, covers the rest"]
MINIMUM = {"quick": {"families measured": 600, "distinct forms": 265, "texts over 100 kB": 400}}
FACTOR = 1.5
TIME_LIMIT = 30


def tasks(tier):
    q = tier == "quick"
    return [("big", i) for i in range(16)] + [("fam", i) for i in range(len(FAMILIES))] + [("form", k) for k in range(0, len(isa.FORMS), 5)] + \
        [("mix", i) for i in range(60 if q else 800)]


def measure(ctx, texts, name=b"file"):
    data = b"".join(struct.pack("<II", len(t), len(name)) + t + name for t in texts)
    r = subprocess.run([ctx.paths[("work", "work")], str(TIME_LIMIT)], input=data, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
                       env=env_for(), timeout=TIME_LIMIT * 8)
    return [tuple(int(x) for x in l.split()) for l in r.stdout.decode().splitlines()]


def judge(sizes, small, large):
    """-> None or message. Tuples: status edges bytes allocated allocations cpu words."""
    if large[0] == 2:
        if small[0] != 2:
            return "a text of %d bytes is handled in %d us, but one of %d bytes not within %d s" % (sizes[0], small[5], sizes[1], TIME_LIMIT)
        return None
    if small[0] == 2 or small[0] != large[0]:
        return None
    s = sizes[1] / sizes[0]
    for k, what in ((1, "control-flow edges"), (2, "bytes scanned or copied"), (3, "bytes allocated"), (4, "allocations")):
        # the constant covers fixed costs and the capacity steps of growing containers
        if large[k] > FACTOR * s * (small[k] + sizes[0] * 0.5 + 20000):
            return "text %.1f times as long (%d -> %d bytes) needs %.1f times the %s (%d -> %d)" % (
                s, sizes[0], sizes[1], large[k] / max(1, small[k]), what, small[k], large[k])
    if large[5] > 3 * s * max(small[5], 100000) and large[5] > 4000000:
        return "text %.1f times as long (%d -> %d bytes) needs %.1f times the processor time (%d -> %d us)" % (
            s, sizes[0], sizes[1], large[5] / max(1, small[5]), small[5], large[5])


def family(ctx, name, f, n):
    if ctx.stop.is_set():
        raise Stop()
    t1, t2 = b(f(n)), b(f(4 * n))
    m = measure(ctx, [t1, t2])
    if len(m) != 2:
        ctx.count("inconclusive: no measurement")
        return
    ctx.evals += 2
    ctx.count("families measured")
    if len(t2) > 100000:
        ctx.count("texts over 100 kB")
    ctx.count({0: "accepted", 1: "rejected"}.get(m[1][0], "abnormal"))
    ctx.nontrivial.add(hash((name, t1[:200], n)))
    ctx.count("edges counted", m[0][1] + m[1][1])
    if ctx.rng.random() < 0.1:
        ctx.sample({"family": name, "bytes": [len(t1), len(t2)], "status edges string-bytes allocated allocations us words": m})
    why = judge((len(t1), len(t2)), *m)
    if why:
        again = measure(ctx, [t1, t2])
        why = judge((len(t1), len(t2)), *again) if len(again) == 2 else None
        if not why:
            ctx.unconfirmed += 1
            return
        ctx.violation("family %s: %s" % (name, why), [t1, t2], [repr(x) for x in again])
        raise Stop()


def rep(pre, unit, post=""):
    """unit: text, or function of the index."""
    if callable(unit):
        return lambda n: pre + "".join(unit(i) for i in range(n)) + post
    return lambda n: pre + unit * n + post


FAMILIES = [
    ("nops", rep("", "NOP;"), 8000), ("nop lines", rep("", "NOP;\n"), 8000), ("crlf lines", rep("", "NOP;\r\n"), 8000),
    ("container", rep(".dksh compute\nmain:\n", "EXIT;\n"), 8000),
    ("labels", rep("", lambda i: "L%d:\n" % i, "NOP;"), 8000), ("labelled statements", rep("", lambda i: "L%d: NOP;\n" % i), 6000),
    ("long label names", rep("", lambda i: "L%d%s: NOP;\n" % (i, "x" * 100)), 1500),
    ("one label again and again", rep("", "again:\nNOP;\n"), 6000),
    ("backward branches", rep("", lambda i: "L%d: BRA L%d;\n" % (i, max(0, i - 1))), 5000),
    ("branches to the start", rep("top:\n", "BRA top;\n"), 6000),
    ("forward branches", lambda n: "".join("L%d: BRA L%d;\n" % (i, min(n - 1, i + 1)) for i in range(n)), 5000),
    ("branches to the end", rep("", "SSY end;\n", "end:\n"), 6000),
    ("cross branches", lambda n: "".join("L%d: BRA L%d;\n" % (i, n - 1 - i) for i in range(n)), 5000),
    ("similar names", lambda n: "".join("k%s%d:\nBRA k%s%d;\n" % ("a" * 30, i, "a" * 30, i) for i in range(n)), 2500),
    ("container with labels", rep(".dksh compute\nmain:\n", lambda i: "L%d: CAL L%d;\n" % (i, i)), 5000),
    ("undefined at the end", rep("", lambda i: "L%d: NOP;\n" % i, "BRA nowhere;"), 5000),
    ("malformed at the end", rep("", "FADD R0, R1, R2;\n", "FADD R0, R1;"), 5000),
    ("missing terminator", rep("", "FADD R0, R1, R2;\n", "FADD R0, R1"), 5000),
    ("bad first statement", rep("FOO;\n", "FADD R0, R1, R2;\n"), 5000),
    ("bad first statement, labels", rep("FOO;\n", lambda i: "L%d: NOP;\n" % i), 5000),
    ("directives", rep("", ".num_gprs 8\n", "NOP;"), 6000), ("workgroups", rep("", ".workgroup_size 1 2 3\n", "NOP;"), 4000),
    ("directives between", rep("", ".num_gprs 8\nNOP;\n", "NOP;"), 5000),
    ("blank lines", rep("", "\n", "NOP;"), 40000), ("blank ends", rep("NOP;", "\n"), 40000), ("spaces", rep("NOP", " ", ";"), 40000),
    ("tabs", rep("MOV", "\t", "R0, R1;"), 40000), ("returns", rep("MOV R0", "\r", ", R1;"), 40000), ("gap of many forms", rep("FADD R0, R1,", " \n", "c[0x1][0x4];"), 20000),
    ("gap before the end", rep("FFMA R0, R1, R2, R3", " ", "@WAIT 3;"), 40000), ("gaps everywhere", rep("", "IADD  \t R0 ,\n R1 ,  \n c [ 1 ] [ 4 ] ;\n"), 3000),
    ("long label", rep("", "x", ":\nNOP;"), 40000), ("long label and branch", lambda n: "x" * n + ":\nBRA " + "x" * n + ";", 20000),
    ("long label, many branches", lambda n: "x" * n + ":\n" + ("BRA " + "x" * n + ";\n") * 10, 5000),
    ("long mnemonic", rep("", "X", ";"), 40000), ("long modifier", rep("MOV.", "X", " R0, R1;"), 40000), ("modifiers", rep("MOV", ".X", " R0, R1;"), 20000),
    ("long decimal", rep("MOV32I R0, ", "1", ";"), 40000), ("long zeros", rep("MOV32I R0, ", "0", "1;"), 40000), ("long hexadecimal", rep("MOV32I R0, 0x", "0", "1;"), 40000),
    ("long float", rep("FADD R0, R1, 1.", "0", ";"), 40000), ("long fraction", rep("FADD R0, R1, 0.", "3", ";"), 40000), ("long double", rep("DADD R0, R2, 1", "0", ".5;"), 40000),
    ("long half", rep("HADD2 R0, R1, 0.", "1", ", 1.0;"), 20000), ("long register", rep("MOV R", "0", "1, R2;"), 40000), ("annotations", rep("NOP ", "@DEP 1 ", ";"), 8000),
    ("guards", rep("", "@P0 ", "NOP;"), 10000), ("signs", rep("FADD R0, R1, ", "-", "R2;"), 40000), ("commas", rep("MOV R0", ",", "R1;"), 40000),
    ("colons", rep("", ":", "\nNOP;"), 40000), ("indented labels", rep("", "  x:\n", "NOP;"), 8000), ("labels in a statement", rep("MOV R0,\n", lambda i: "q%d:\n" % i, "R1;"), 8000),
    ("labels and failing forms", rep("", lambda i: "q%d:\nFADD R0, R1, c[0x1][0x4];\n" % i), 3000), ("words", rep("", "abc "), 20000), ("garbage", rep("", "\x80\xff"), 20000),
    ("words without labels", rep("", "abc\n"), 20000), ("half labels", rep("", "abc :\n"), 10000), ("long lines", rep("", "a" * 5000 + ":\n", "NOP;"), 20),
    ("registers", rep("", lambda i: "IADD R%d, R%d, R%d;\n" % (i % 255, i * 7 % 255, i * 3 % 255)), 4000), ("integers", rep("", lambda i: "MOV32I R0, 0x%x;\n" % i), 4000),
    ("predicates", rep("", lambda i: "@P%d MOV R0, R1;\n" % (i % 7)), 4000), ("constant buffers", rep("", lambda i: "FADD R0, R1, c[0x%x][0x%x];\n" % (i % 18, i % 1000 * 4)), 4000),
    ("memory", rep("", lambda i: "LDG.E.64 R2, [R4+0x%x];\n" % (i % 100000)), 4000), ("one long line", rep("", "FADD R0, R1, c[0x1][0x4]; "), 4000),
    ("statements over lines", rep("", "FADD\nR0,\nR1,\nc[0x1][0x4];\n"), 4000), ("system registers", rep("", "S2R R0, SR_TID.X;\n"), 4000),
    ("long file of one form and a fault", rep("", "XMAD.MRG.H1 R0, R1, R2.H1, R3;\n", "XMAD.MRG.H1 R0, R1, R2.H1, R3, R4;"), 3000),
    ("fault before labels", rep("BRA nowhere;\n", lambda i: "L%d:\n" % i), 8000), ("directive values", rep("", lambda i: ".local_memory %d\n" % i, "NOP;"), 5000),
    ("nul at the end", rep("", "NOP;", "\0"), 8000), ("annotated", rep("", "MOV R0, R1 @WAIT 3 @Y @DEP 1 @DEP 2;\n"), 3000), ("floats", rep("", lambda i: "FADD R0, R1, %d.%d;\n" % (i, i)), 4000),
]


def run(ctx, task):
    rng = ctx.rng
    if task[0] == "fam":
        name, f, n = FAMILIES[task[1]]
        family(ctx, name, f, n)
        family(ctx, name, f, n * 2 + rng.randint(1, 50))
        return
    if task[0] == "big":
        name, f, n = rng.choice(FAMILIES)
        ctx.count("large families")
        family(ctx, name, f, n * (8 if ctx.quick else 16))
        return
    if task[0] == "form":
        for form in isa.FORMS[task[1]:task[1] + 5]:
            ctx.saw("forms", form.index)
            for _ in range(2 if ctx.quick else 6):
                if form in LABEL_FORMS:
                    u = branch_text(rng, form, "top")
                else:
                    i = gen.valid_inst(rng, form, 0.3, 0.3)
                    if i is None:
                        continue
                    u = i.text() if rng.random() < 0.5 else gen.scatter(rng, i.tokens(), 0.4)
                lab = rng.random() < 0.5
                family(ctx, "form %d" % form.index, rep("top:\n", (lambda k: "\nL%d: %s" % (k, u)) if lab else u + "\n"), 30000 // len(u))
        return
    # mixtures: a random block repeated, some names numbered
    pool = [i.tokens() for i in gen.gen_program_items(rng, 30)]
    for _ in range(3):
        block = []
        for _ in range(rng.randint(1, 6)):
            r = rng.random()
            if r < 0.25:
                block.append("\nB%d_#:" % rng.randrange(3) + rng.choice(["\n", " "]))
            elif r < 0.4:
                block.append(branch_text(rng, rng.choice(LABEL_FORMS), rng.choice(["top", "end"])))
            elif r < 0.5:
                block.append("\n.num_gprs 9\nNOP;")
            elif r < 0.6:
                block.append(rng.choice([" ", "\n", "\t", "\r\n"]) * rng.randint(1, 100))
            else:
                block.append(gen.scatter(rng, rng.choice(pool), rng.choice([0, 0.3])))
        u = "".join(block)
        pre = rng.choice(["", ".dksh compute\nmain:\n"]) + "top:\n"
        post = "\nend:\n" + rng.choice(["", "NOP;", "FOO;", "BRA none;", "NOP"])
        family(ctx, "mixture", rep(pre, lambda k: u.replace("#", str(k)), post), max(20, 40000 // len(u)))
