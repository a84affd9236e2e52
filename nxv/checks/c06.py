"""C06: programs are laid out in order, in complete four-word bundles."""
from .. import gen, isa
from .. import refasm
from ..refasm import layout

LEVEL = "exploration"
NEEDS = [("plain", "driver")]
RULE = ("programs of 0 to 740,000 instructions of random forms, every form next to every other form (with guards, annotations and "
        "reuse flags, on one line or many); with labels between them, branches to these labels, and inside containers; every instruction is also assembled alone, and the "
        "program's output must be exactly those words and control fields arranged in bundles of four "
        "with neutral padding (branch displacements apart, which C05 decides); non-trivial = at least two instructions; distinct by text")
ASSUMPTIONS = ["padding is NOP 50b0000000070f00 with control 0x7e0"]
MINIMUM = {"quick": {"instructions placed": 50000, "distinct program lengths": 100,
                     "distinct forms": 262, "distinct neighbouring forms": 69000,
                     "programs in a container": 1000, "branches to labels": 1000}}


def tasks(tier):
    n = 4000 if tier == "quick" else 30000
    t = [("large", i) for i in range(24 if tier == "quick" else 160)]
    t = [("huge", n) for n in ((150000, 270000, 530000, 740000) if tier == "quick" else
                               (131072, 150000, 200000, 262144, 270000, 350000, 400000, 524288, 600000, 740000, 750000))] + t
    t += [("pairs", f.index) for f in isa.FORMS]
    return t + [("exact", 0)] + [("rand", i) for i in range(n)]


FIELD = 0xFFFFFF << 20      # of a branch displacement


def cmp(exp, p, masks, container=False):
    if not p.ok:
        return "each instruction assembles alone, but the program does not: " + p.brief()
    words = p.words
    if container:
        words = words[32:]              # after the control section; up to the next multiple of 256 bytes there is padding
        if any(words[len(exp):]):
            return "the container's code goes on after %d words" % len(exp)
        words = words[:len(exp)]
    if len(words) != len(exp):
        return "%d words instead of %d" % (len(words), len(exp))
    for k, (a, b) in enumerate(zip(exp, words)):
        if (a ^ b) & ~masks.get(k, 0):
            return "word %d is %016x, but its instructions alone give %016x" % (k, b, a)


def program_judge(order, branches=(), container=False):
    """o = outputs of the distinct instructions, then the program; order = index per statement; branches =
    statements with a displacement."""
    masks = {i // 3 * 4 + i % 3 + 1: FIELD for i in branches}

    def j(o):
        items = []
        for x in o[:-1]:
            if not x.ok:
                return None             # not supported: decided elsewhere
            if len(x.words) != 4:
                return "one instruction assembled alone gives %d words" % len(x.words)
            items.append((x.words[1], x.words[0] & 0x1FFFFF))
            if list(x.words) != layout([items[-1]]):
                return "one instruction is not followed by neutral padding: " + x.brief()
        return cmp(layout([items[k] for k in order]), o[-1], masks, container)
    return j


def render(ctx, insts, container):
    rng = ctx.rng
    texts = [i.text() for i in insts]
    sep = rng.choice(["\n", "", " ", "\r\n", "\n\n", "\t"])
    mode = rng.random()
    head = ""
    if container:
        ctx.count("programs in a container")
        head = rng.choice([".dksh %s\n", "\n.dksh %s\n", ".num_gprs 8\n.dksh %s\n\n"]) % "compute" + \
            "main:" + rng.choice(["\n", " ", "\n\n", "\t"])
    if mode < 0.35:
        # labels between the statements, and branches that name them
        names = ["l%d" % k for k in range(rng.choice([1, 4, 20]))]
        out, have = [], False
        for k, i in enumerate(insts):
            if rng.random() < 0.3:
                out.append("\n%s:%s" % (rng.choice(names), rng.choice(["\n", " ", "\t"])))
            if i.form.index in BRANCH and rng.random() < 0.7:
                n = next(n for n, s in enumerate(i.form.slots) if getattr(s, "is_label", False))
                out.append(i.with_slot(n, (None, [rng.choice(names)])).text())
                ctx.count("branches to labels")
            else:
                out.append(texts[k])
            out.append(rng.choice(["", " ", "\n"]))
            if container and k + 1 < len(insts) and rng.random() < 0.05:
                out.append("\n.num_gprs 4\n")
        out.append("\n" + "".join("%s:\n" % x for x in names))
        if len(insts) > 500000:
            return head + sep.join(texts)
        return head + "".join(out) + rng.choice(["", "\nend:", "\nend:\n"])
    if mode < 0.75:
        return head + sep.join(texts) + rng.choice(["", "\n", " ", "\n\n"])
    toks = [t for i in insts for t in i.tokens()]
    return head + gen.scatter(rng, toks, rng.choice([0.1, 0.5]))


BRANCH = {f.index for f in gen.LABEL_FORMS}


def branch(rng):
    """An instruction with an absolute target, valid at every position up to 750,000."""
    form = rng.choice(gen.LABEL_FORMS)
    k = next(n for n, s in enumerate(form.slots) if getattr(s, "is_label", False))
    while True:
        i = gen.gen_inst(rng, form, 0.2, 0.2).with_slot(k, (None, [str(8 * rng.randrange(0, 80000))]))
        if refasm.assemble(i.text()).ok:
            return i


def items(rng, n):
    return [branch(rng) if rng.random() < 0.06 else gen.gen_program_items(rng, 1)[0] for _ in range(n)]


def put(ctx, insts):
    rng = ctx.rng
    alone, idx, order = [], {}, []
    for i in insts:
        t = i.text()
        if t not in idx:
            idx[t] = len(alone)
            alone.append(t)
        order.append(idx[t])
        ctx.saw("forms", i.form.index)
    for a, c in zip(insts, insts[1:]):
        ctx.saw("neighbouring forms", a.form.index << 16 | c.form.index)
    container = rng.random() < 0.15
    prog = render(ctx, insts, container)
    ctx.count("instructions placed", len(insts))
    ctx.saw("program lengths", len(insts))
    ctx.submit(alone + [prog], program_judge(order, [k for k, i in enumerate(insts) if i.form.index in BRANCH], container), key=prog, trivial=len(insts) < 2)


def run(ctx, task):
    rng = ctx.rng
    kind = task[0]
    if kind == "exact":
        # the empty program in every layout, and fixed length 1..200
        for t in ("", " ", "\n", "\r\n", "\t\t", "\n\n\n  ", "main:", "main:\n", "a:\nb:\nc:", "a: b: c:",
                  "\nfoo:\n\n", "  foo:  "):
            ctx.count("empty programs")
            ctx.submit([t], lambda o: None if o[0].ok and not o[0].words else
                       "an empty program gives " + o[0].brief())
        one = items(rng, 7)
        for n in range(1, 201):
            put(ctx, [one[k % 7] for k in range(n)])
        return
    if kind == "huge":
        pool = items(rng, 1000)
        put(ctx, [rng.choice(pool) for _ in range(task[1] + rng.randint(0, 5))])
        ctx.flush()
        return
    if kind == "large":
        n = rng.choice([260, 1000, 4096, 9999, 10000, 21845, 30000, 65534, 65540, 70000] +
                       ([] if ctx.quick else [200000, 500000])) + rng.randint(0, 5)
        pool = items(rng, 300)
        put(ctx, [rng.choice(pool) for _ in range(n)])
        ctx.flush()
        return
    if kind == "pairs":
        # this form before and after every other one
        def inst(f):
            return branch(rng) if f.index in BRANCH else gen.valid_inst(rng, f, 0.25, 0.25)
        seq = []
        mine = [x for x in (inst(isa.FORMS[task[1]]) for _ in range(3)) if x]
        if not mine:
            return
        others = list(isa.FORMS)
        rng.shuffle(others)
        for f in others:
            x = inst(f)
            if x:
                seq += [rng.choice(mine), x]
        for k in range(0, len(seq), 40):
            put(ctx, seq[max(0, k - 1):k + 40])
        return
    for _ in range(12):
        n = rng.choice([1, 2, 3, 4, 5, 6, 7, 8, 9, rng.randint(1, 25), rng.randint(1, 130)])
        insts = items(rng, n)
        put(ctx, insts)
        if n > 1 and rng.random() < 0.5:
            # repetitions of the same instruction: nothing may be merged or dropped
            put(ctx, [rng.choice(insts[:3]) for _ in range(n)])
