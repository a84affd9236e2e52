"""C15: output does not depend on build configuration."""
from .. import gen, isa
from ..core import Stop, b
from ..driver import run_one
from .c05 import LABEL_FORMS, PAD, branch_text
from .c08 import char_edit

LEVEL = "exploration"
CONFIGS = ["plain", "gcc_O0", "gcc_O3_ndebug", "clang_O2", "clang_O2_ndebug", "clang_O0_ndebug", "gcc_O2_native",
           "gcc_pattern", "clang_pattern"]
NEEDS = [(c, "driver") for c in CONFIGS]
RULE = ("every text runs in nine builds (gcc and clang, -O0 to -O3, assertions on and off, two with "
        "pattern-initialised locals so that a read of an uninitialised variable shows); outcome, exit "
        "status and words are compared between all of them; texts: instructions of every form, "
        "one-token and one-character edits, programs with labels and annotations, container directives, range "
        "edges of every immediate, literals, truncations and garbage; distinct by text; non-trivial = all")
ASSUMPTIONS = ["sizeof(long) = 8; other hosts are not available here"]
MINIMUM = {"quick": {"texts accepted by all builds": 20000, "texts rejected by all builds": 20000,
                     "distinct forms": 265}}


def tasks(tier):
    q = tier == "quick"
    reps = 1 if q else 12
    return [("form", f.index, r) for r in range(reps) for f in isa.FORMS] + \
        [("prog", i) for i in range(40 if q else 500)] + [("junk", i) for i in range(24 if q else 300)] + [("long", i) for i in range(len(LONG))]


def compare(ctx, texts, names=None):
    texts = [b(t) for t in texts]
    ref = None
    for c in CONFIGS:
        outs = ctx.driver(c, True).run(texts)
        if ref is None:
            ref = outs
            continue
        for t, x, y in zip(texts, ref, outs):
            if x.same(y):
                continue
            a = run_one(ctx.paths[(CONFIGS[0], "driver")], t, b"file", 60)
            v = run_one(ctx.paths[(c, "driver")], t, b"file", 60)
            if a.same(v):
                ctx.unconfirmed += 1
                continue
            ctx.violation("builds %s and %s differ" % (CONFIGS[0], c), [t, t], [a.brief(), v.brief()], cfg=c)
            raise Stop()
    for t, x in zip(texts, ref):
        ctx.evals += 1
        ctx.nontrivial.add(hash(t))
        ctx.count("texts accepted by all builds" if x.ok else "texts rejected by all builds" if x.rejected
                  else "texts ending abnormally in all builds")
        ctx.count("build comparisons", len(CONFIGS) - 1)
    k = ctx.rng.randrange(len(texts))
    if ctx.rng.random() < 0.05:
        ctx.sample({"input": texts[k].decode("latin-1")[:160], "observed": ref[k].brief()[:160]})
    if ctx.stop.is_set():
        raise Stop()


LONG = ["NOP;", "a:\n", "a: NOP;\n", ".num_gprs 1\n", " ", "\t", "\n", "\r\n", ";", "A", "0", "9", "x y ", ".CC", "@P0 ", "-", "!P",
        "R0 ", ",", "@DEP 1 ", "BRA a;\na:", "P", "R"]
EDGES = [0, 1, -1, 2, 3, 4, 7, 8, 15, 16, 31, 32, 63, 64, 127, 128, 255, 256, 511, 512, 1023, 1024, 8191, 8192, 32767,
         32768, 65535, 65536, 0x7FFFF, 0x80000, 0xFFFFF, 0x100000, 0x7FFFFF, 0x800000, 0xFFFFFF, 0x1000000, 0x7FFFFFFF,
         0x80000000, 0xFFFFFFFF, 0x100000000, (1 << 63) - 1, 1 << 63, 1 << 64]
FLOATS = ["0.0", "-0.0", "1.0", "0.1", "3.4028235677973366e38", "65504.0", "65519.999", "65520.0", "0.00000006",
          "340282356779733661637539395458142568448.0", "1.", "-1.5", "16777217.0", "16777217", "1" + "0" * 400 + ".0",
          "0." + "0" * 400 + "1", "0." + "0" * 44 + "14", "2049.0", "0.333333333333333333333333333"]


def run(ctx, task):
    rng = ctx.rng
    texts = []
    if task[0] == "form":
        form = isa.FORMS[task[1]]
        ctx.saw("forms", form.index)
        for _ in range(100 if ctx.quick else 200):
            i = gen.gen_inst(rng, form, 0.4, 0.4)
            t = i.tokens()
            texts.append(gen.join(t))
            texts.append(gen.loose_join(gen.mutate_tokens(rng, t)))
            texts.append(char_edit(rng, gen.join(t)))
            nums = [k for k, x in enumerate(t) if gen.is_number(x)]
            if nums:
                k = rng.choice(nums)
                for _ in range(3):
                    v = rng.choice(EDGES) * rng.choice([1, 1, -1])
                    v = rng.choice(FLOATS) if rng.random() < 0.3 else str(v)
                    texts.append(gen.join(t[:k] + [v] + t[k + 1:]))
    elif task[0] == "long":
        unit = LONG[task[1]]
        for size in (300, 70000) if ctx.quick else (300, 70000, 1 << 20):
            body = unit * size
            texts += [body, "NOP;" + body + "NOP;", "main:\n" + body, body + "\nNOP;", "MOV R0, " + body + "1;", "NOP " + body + ";"]
    elif task[0] == "prog":
        pool = [x.text() for x in gen.gen_program_items(rng, 60)]
        for _ in range(60):
            n = rng.choice([1, 2, 3, 4, 6, 9, rng.randint(1, 60)])
            ls = []
            if rng.random() < 0.4:
                ls += [".dksh " + rng.choice(["compute", "compute", "compute", "vertex", "geometry"])]
                ls += rng.sample([".num_gprs 255", ".local_memory %d" % rng.choice(EDGES), ".shared_memory %d" %
                                  rng.choice(EDGES), ".workgroup_size 1 %d 3" % rng.choice(EDGES), ".type compute"],
                                 rng.randint(0, 3))
                ls += ["main:"]
            for k in range(n):
                if rng.random() < 0.3:
                    ls.append("L%d:" % k)
                if rng.random() < 0.3:
                    ls.append(branch_text(rng, rng.choice(LABEL_FORMS), "L%d" % rng.randrange(n)))
                else:
                    ls.append(rng.choice(pool))
            text = "\n".join(ls)
            texts.append(text)
            for _ in range(2):
                texts.append(char_edit(rng, text) or ";")
    else:
        voc = gen.vocab()
        for _ in range(150):
            k = rng.randrange(3)
            if k == 0:
                texts.append(bytes(rng.randrange(256) for _ in range(rng.randrange(1, 60))))
            elif k == 1:
                texts.append(" ".join(rng.choice(voc) for _ in range(rng.randrange(1, 30))))
            else:
                t = gen.gen_inst(rng, None, 0.3, 0.3).text()
                texts.append(t[:rng.randrange(len(t))])
    compare(ctx, texts)
