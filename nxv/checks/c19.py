"""C19: a call leaves the process as it found it; a rejection ends it in order."""
import struct
import subprocess

from .. import gen, isa
from ..core import Stop, b
from ..driver import env_for
from ..gen import loose_join
from . import c16
from .c05 import LABEL_FORMS, branch_text
from .c08 import char_edit

LEVEL = "exploration"
NEEDS = [("plain", "state"), ("plain", "driver")]
RULE = ("accepted texts of every form, in every layout, programs with labels, branches, directives and containers: each is assembled three times in a "
        "process with interposed memory functions and a state of its own; bytes and blocks in use after the third call may not exceed those after the "
        "second, and locale, floating-point control, signal actions and mask, timers, descriptors, threads, directory, file mask, environment, "
        "limits, streams, handlers, random sequence and the arguments are compared before and after; thousands of different texts in one process may not "
        "keep growing its memory; rejected texts are assembled in a child that must end with status 1, run its exit handlers and "
        "write its buffered output; distinct by text; non-trivial = all")
ASSUMPTIONS = ["memory that is kept once (for example a table built on first use, or the largest buffer so far) is not a leak"]
MINIMUM = {"quick": {"calls watched": 60000, "rejections watched": 2000, "calls for growth": 30000, "distinct forms": 265, "blocks allocated": 300000}}


def tasks(tier):
    q = tier == "quick"
    return [("grow", i) for i in range(8 if q else 80)] + [("form", f.index, r) for r in range(1 if q else 10) for f in isa.FORMS] + \
        [("prog", i) for i in range(40 if q else 400)]


def serve(ctx, mode, cases):
    data = b"".join(struct.pack("<II", len(t), len(n)) + t + n for t, n in cases)
    try:
        r = subprocess.run([ctx.paths[("plain", "state")], mode], input=data, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
                           env=env_for(), timeout=240)
    except subprocess.TimeoutExpired:
        return None
    lines = r.stdout.decode("latin-1").splitlines()
    if not lines or not lines[-1].startswith("done "):
        return None
    return lines


def split(ctx, texts):
    cases = [(b(t), ctx.rng.choice([b"file", b"", b"a.asm", b"n" * 300])) for t in texts]
    outs = ctx.driver("plain", True).run(cases)
    return [c for c, o in zip(cases, outs) if o.ok], [c for c, o in zip(cases, outs) if o.rejected]


def report(ctx, mode, cases, lines):
    for l in lines:
        k, _, what = l.partition(" ")
        if not k.isdigit():
            continue
        c = cases[int(k)]
        again = serve(ctx, mode, [c])
        if not again or not again[0].startswith("0 "):
            again = serve(ctx, mode, cases)         # it may need the calls before it
            if not again or not any(x.split(" ")[0].isdigit() for x in again):
                ctx.unconfirmed += 1
                continue
        ctx.violation(("a successful call " if mode == "keep" else "a rejected call ") + what, [c[0]], [l])
        raise Stop()


def watch(ctx, texts):
    rng = ctx.rng
    good, bad = split(ctx, texts)
    for t, n in good + bad:
        ctx.nontrivial.add(hash((t, n)))
    if good:
        lines = serve(ctx, "keep", good)
        if lines is None:
            ctx.count("inconclusive: no answer")
        else:
            ctx.evals += len(good)
            ctx.count("calls watched", int(lines[-1].split()[1]))
            ctx.count("blocks allocated", int(lines[-1].split()[2]))
            report(ctx, "keep", good, lines)
            if rng.random() < 0.05:
                ctx.sample({"inputs": [t.decode("latin-1")[:80] for t, _ in good[:3]], "observed": lines[-1]})
    bad = rng.sample(bad, min(len(bad), 30))
    if bad:
        lines = serve(ctx, "exit", bad)
        if lines is None:
            ctx.count("inconclusive: no answer")
        else:
            ctx.evals += len(bad)
            ctx.count("rejections watched", len(bad))
            report(ctx, "exit", bad, lines)
    if ctx.stop.is_set():
        raise Stop()


def growth(lines):
    """-> None or message. Marks after each quarter of the calls."""
    m = [tuple(int(x) for x in l.split()[1:]) for l in lines if l.startswith("mark ")]
    if len(m) < 4:
        return None
    n = m[3][0] - m[1][0]
    q = [m[k + 1][1] - m[k][1] for k in range(3)]
    if q[1] > 0 and q[2] > 0 and q[1] + q[2] > n and q[1] > q[0] / 4 and q[2] > q[0] / 4:
        return "memory in use grows by %d, %d and %d bytes over three times %d different successful calls" % (*q, n // 2)


def grow(ctx):
    rng = ctx.rng
    texts = []
    for k in range(5000 if ctx.quick else 20000):
        r = rng.random()
        if r < 0.6:
            i = gen.valid_inst(rng, rng.choice(gen.PLAIN_FORMS), 0.3, 0.3)
            if i is None:
                continue
            texts.append(i.text())
        elif r < 0.8:
            name = "q%d_%d" % (k, rng.randrange(1 << 30)) + rng.choice(["", "x" * 20, "y" * rng.randrange(100)])
            texts.append("%s:\n%s\n" % (name, branch_text(rng, rng.choice(LABEL_FORMS), name)))
        else:
            texts.append(rng.choice(["FADD R0, R1, %d.%d;", "DADD R0, R2, %d.%d;", "HADD2 R0, R1, %d.%d, 1.0;"]) % (rng.randrange(1 << 16), rng.randrange(1 << 30)))
    good, _ = split(ctx, texts)
    good.sort(key=lambda c: (-len(c[0]) - len(c[1])))
    head = good[:len(good) // 5]
    rest = good[len(good) // 5:]
    rng.shuffle(rest)
    cases = head + rest
    lines = serve(ctx, "grow", cases)
    if lines is None:
        ctx.count("inconclusive: no answer")
        return
    ctx.evals += 1
    ctx.count("calls for growth", len(cases))
    ctx.nontrivial.add(hash(tuple(cases[:3])))
    why = growth(lines)
    if why:
        again = serve(ctx, "grow", cases)
        if again and growth(again):
            ctx.violation(growth(again), [t for t, _ in cases[-3:]], [l for l in again if l.startswith("mark")])
            raise Stop()
        ctx.unconfirmed += 1


def label(rng):
    n = rng.choice([1, 3, 7, 8, 15, 16, 17, 22, 23, 24, 31, 32, 33, 63, 64, 65, 100, 255, 300])
    return "q" + "".join(rng.choice("abcXYZ_0123456789") for _ in range(n - 1))


def run(ctx, task):
    rng = ctx.rng
    if task[0] == "grow":
        grow(ctx)
        return
    texts = []
    if task[0] == "form":
        form = isa.FORMS[task[1]]
        ctx.saw("forms", form.index)
        for _ in range(100):
            if form in LABEL_FORMS:
                name = label(rng)
                texts.append("\n%s:\n" % name + branch_text(rng, form, name, scattered=rng.random() < 0.5))
            else:
                i = gen.valid_inst(rng, form, 0.3, 0.3)
                if i:
                    texts.append(i.text() if rng.random() < 0.6 else gen.scatter(rng, i.tokens(), 0.3))
        for _ in range(12):
            i = gen.gen_inst(rng, form, 0.3, 0.3)
            texts.append(loose_join(gen.mutate_tokens(rng, i.tokens())))
            texts.append(char_edit(rng, i.text()))
    else:
        pool = [i.tokens() for i in gen.gen_program_items(rng, 30)]
        for _ in range(30):
            n = rng.choice([0, 1, 2, 3, 4, 9, 30, 100])
            names = [label(rng) for _ in range(n)]
            ls = []
            for k in range(n):
                if rng.random() < 0.3:
                    ls.append(rng.choice(names) + ":")
                if rng.random() < 0.3:
                    ls.append(branch_text(rng, rng.choice(LABEL_FORMS), rng.choice(names)))
                else:
                    ls.append(gen.scatter(rng, rng.choice(pool), 0.2))
            ls += [x + ":" for x in names]
            if rng.random() < 0.3:
                ls = [".dksh compute", "main:"] + [".num_gprs 9", ".workgroup_size 1 2 3", ".local_memory 16"][:rng.randrange(4)] + ls
            if rng.random() < 0.3:
                ls.insert(rng.randint(0, len(ls)), rng.choice(c16.DIRS + ["FOO;", "BRA nowhere;", "MOV R0;", "\0", "!", "R300"]))
            texts.append(rng.choice(["\n", "\n\n", "\r\n"]).join(ls))
        texts += ["", "\n", "NOP;", "x:\n"]
    watch(ctx, texts)
