"""C07: scheduling and reuse annotations land in their own instruction's slot."""
import itertools

from .. import gen, isa, refasm
from ..gen import join
from ..slots import spell_int

LEVEL = "exploration"
NEEDS = [("plain", "driver")]
RULE = ("all 16x2x7x7x64 combinations of stall, yield, barriers and dependency mask, in random order and "
        "random slots; every form with every subset of its reuse flags; annotated programs, also with labels, branches and directives between and in containers; the "
        "monitor unpacks the three 21-bit control fields of every scheduling word and compares them "
        "with what the generator wrote; plus duplicate, out-of-range, malformed and unsupported "
        "annotations that must be rejected; distinct by text; non-trivial = at least one annotation")
ASSUMPTIONS = []
MINIMUM = {"quick": {"control fields compared": 300000, "must be rejected": 5000,
                     "distinct control values": 90000, "distinct reuse forms": 100,
                     "annotated branches": 5000, "containers": 500}}
SIMPLE = ["NOP", "EXIT", "MOV R1, R2", "IADD R5, R6, 1", "SYNC", "FADD R3, R4, R9", "S2R R0, SR_TID.X"]

BRANCHES = ["BRA %s", "@P0 BRA %s", "@!P3 BRA.U.LMT CC.F, %s", "SSY %s", "@PT PBK %s", "CAL.NOINC %s", "BRA.U %s", "CAL %s"]


def tasks(tier):
    t = [("long", n) for n in ((260, 2000, 4099, 22000, 66000, 70000) if tier == "quick" else
                               (260, 2000, 22000, 66000, 70000) * 4 + (200000, 400000))]
    t += [("len", k, r) for r in range(2 if tier == "quick" else 10) for k in range(0, 420, 10)]
    t += [("all", s, r) for r in range(4 if tier == "quick" else 20) for s in range(16)]
    t += [("prog", i) for i in range(600 if tier == "quick" else 5000)]
    t += [("reuse", f.index, r) for r in range(1 if tier == "quick" else 8) for f in isa.FORMS]
    t += [("bad", i) for i in range(64 if tier == "quick" else 500)]
    return t


def parts(stall, yld, wb, rb, dep, rng):
    a = []
    if stall is not None:
        a.append(["@", "WAIT", spell_int(rng, stall)])
    if yld:
        a.append(["@", rng.choice(["Y", "YIELD"])])
    if wb is not None:
        a.append(["@", "WB", spell_int(rng, wb)])
    if rb is not None:
        a.append(["@", "RB", spell_int(rng, rb)])
    for d in range(6):
        if dep >> d & 1:
            a.append(["@", "DEP", spell_int(rng, d)])
    rng.shuffle(a)
    return [t for x in a for t in x]


def value(stall, yld, wb, rb, dep, reuse=0):
    return (stall or 0) | (1 << 4 if yld else 0) | (7 if wb is None else wb) << 5 | \
        (7 if rb is None else rb) << 8 | dep << 11 | reuse << 17


def judge(ctls, skip=0):
    def j(o):
        o = o[0]
        if not o.ok:
            return "well-formed annotations were not accepted: " + o.brief()
        size = 4 * ((len(ctls) + 2) // 3)
        if len(o.words) < skip + size or not skip and len(o.words) != size:
            return None                 # layout is decided elsewhere
        words = o.words[skip:skip + size]
        for i, c in enumerate(ctls):
            got = words[i // 3 * 4] >> 21 * (i % 3) & 0x1FFFFF
            if got != c:
                return "control field of instruction #%d is %#x, written %#x" % (i, got, c)
        for i in range(len(ctls), len(words) // 4 * 3):
            got = words[i // 3 * 4] >> 21 * (i % 3) & 0x1FFFFF
            if got != 0x7E0:
                return "control field of the unused slot #%d is %#x" % (i, got)
        for i in range(0, len(words), 4):
            if words[i] >> 63:
                return "bit 63 of a scheduling word is set"
    return j


def must_reject(why):
    def j(o):
        if o[0].ok:
            return why + " accepted: " + o[0].brief()
        if not o[0].rejected:
            return why + ": the call ended abnormally: " + o[0].brief()
    return j


def put(ctx, items):
    """items: [(text without ;, annotation tokens, control value)]"""
    rng = ctx.rng
    out = []
    for t, a, c in items:
        ann = gen.scatter(rng, a, 0.2) if rng.random() < 0.3 else join(a)
        out.append(t + " " + ann + ";")
        ctx.saw("control values", c)
    ctx.count("control fields compared", len(items))
    ctls = [c for _, _, c in items]
    sep = rng.choice(["\n", "", " "])
    skip = 0
    if rng.random() < 0.2:
        # labels, branches to them and directives around the annotated statements; perhaps a container
        names = ["L%d" % k for k in range(rng.choice([1, 3, 9]))]
        o2, c2 = [], []
        if rng.random() < 0.3:
            skip = 32
            o2 += [".dksh compute\nmain:\n"]
            ctx.count("containers")
        for k, (t, c) in enumerate(zip(out, ctls)):
            if skip and k and rng.random() < 0.03:
                o2.append("\n.num_gprs 9\n")
            if rng.random() < 0.2:
                o2.append("\n%s:%s" % (rng.choice(names), rng.choice(["\n", " ", "\t"])))
            if rng.random() < 0.2:
                a = rand_ann(rng)
                o2.append(rng.choice(BRANCHES) % rng.choice(names) + " " + join(parts(*a, rng)) + ";")
                c2.append(value(*a))
                ctx.count("annotated branches")
                if rng.random() < 0.2:
                    o2.append("\n%s:\n" % rng.choice(names))
            o2.append(t + sep)
            c2.append(c)
        out, ctls = o2 + ["\n" + "".join("%s:\n" % x for x in names)], c2
        sep = ""
    ctx.submit([sep.join(out)], judge(ctls, skip))


def rand_ann(rng):
    if rng.random() < 0.25:
        return (None, False, None, None, 0)
    return (rng.choice([None, rng.randrange(16)]), rng.random() < 0.4,
            rng.choice([None, rng.randrange(6)]), rng.choice([None, rng.randrange(6)]),
            rng.choice([0, rng.randrange(64), 1 << rng.randrange(6), 63]))


def run(ctx, task):
    rng = ctx.rng
    kind = task[0]
    if kind == "long":
        # positions far into a program
        pool = []
        for _ in range(60):
            a = rand_ann(rng)
            pool.append((rng.choice(SIMPLE), parts(*a, rng), value(*a)))
        pool += [("FADD R0, R1.reuse, R2.reuse", [], value(None, False, None, None, 0, 3)),
                 ("FFMA R0, R1, R2, R3.reuse", [], value(None, False, None, None, 0, 4))]
        for _ in range(3):
            put(ctx, [rng.choice(pool) for _ in range(task[1] + rng.randint(0, 4))])
            ctx.flush()
    elif kind == "len":
        # every length
        for n in range(task[1], task[1] + 10):
            items = []
            for _ in range(n):
                a = rand_ann(rng)
                items.append((rng.choice(SIMPLE), parts(*a, rng), value(*a)))
            put(ctx, items)
    elif kind == "all":
        stall = task[1]
        bar = [None, 0, 1, 2, 3, 4, 5]
        combos = list(itertools.product((False, True), bar, bar, range(64)))
        rng.shuffle(combos)
        items = []
        for y, wb, rb, dep in combos:
            st = None if stall == 0 and rng.random() < 0.5 else stall
            items.append((rng.choice(SIMPLE), parts(st, y, wb, rb, dep, rng),
                          value(st, y, wb, rb, dep)))
            if len(items) == rng.choice([1, 2, 3, 4, 5, 7]) or len(items) > 7:
                put(ctx, items)
                items = []
        if items:
            put(ctx, items)
    elif kind == "prog":
        for _ in range(60):
            items = []
            for i in gen.gen_program_items(rng, rng.randint(1, 14), ann=0):
                a = rand_ann(rng)
                r = refasm.assemble(i.text())
                items.append((i.text()[:-1], parts(*a, rng), value(*a, r.stmts[0].reuse)))
            put(ctx, items)
    elif kind == "reuse":
        form = isa.FORMS[task[1]]
        for _ in range(8):
            base = gen.valid_inst(rng, form)
            if base is None:
                continue
            toks = base.tokens()[:-1]
            # strip reuse flags, then put every subset back
            toks = [t for t in toks if t != ".reuse"]
            regs = [i for i, t in enumerate(toks) if t[0] == "R" and (t == "RZ" or t[1:].isdigit())]
            for sub in itertools.product((0, 1), repeat=min(len(regs), 5)):
                t2 = []
                for i, t in enumerate(toks):
                    t2.append(t)
                    if i in regs and regs.index(i) < 5 and sub[regs.index(i)]:
                        t2.append(".reuse")
                text = join(t2 + [";"])
                r = refasm.assemble(text)
                a = rand_ann(rng)
                nb = rng.choice([[], ["NOP"], ["FADD R0, R1.reuse, R2.reuse"]])
                if r.ok:
                    if any(sub):
                        ctx.saw("reuse forms", form.index)
                    items = [(n, [], refasm.assemble(n + ";").stmts[0].ctl) for n in nb]
                    items.append((join(t2), parts(*a, rng), value(*a, r.stmts[0].reuse)))
                    put(ctx, items)
                else:
                    ctx.count("must be rejected")
                    ctx.submit(["".join(n + ";" for n in nb) + text],
                               must_reject("a reuse flag on an operand without one was"))
    else:
        for _ in range(700):
            a = rand_ann(rng)
            p = parts(*a, rng)
            bad = list(p)
            k = rng.randrange(9)
            units = []
            for t in p:
                if t == "@":
                    units.append([])
                units[-1].append(t)
            if k == 0 and units:
                bad = p + rng.choice(units)                       # a repeated annotation
            elif k == 1:
                n, v = rng.choice([("WAIT", 16), ("WAIT", 17), ("WAIT", -1), ("WAIT", 31), ("WAIT", 32),
                                   ("WAIT", 256), ("WB", 6), ("WB", 7), ("WB", 8), ("WB", -1),
                                   ("RB", 6), ("RB", 7), ("RB", 8), ("RB", -1), ("DEP", 6), ("DEP", 7),
                                   ("DEP", 8), ("DEP", -1), ("DEP", 64), ("WAIT", 1 << 32), ("DEP", 1 << 32),
                                   ("WB", 1 << 32), ("RB", (1 << 32) + 1), ("DEP", 32), ("WAIT", 1 << 63)])
                u = [x for x in units if x[1] != n]
                u.insert(rng.randint(0, len(u)), ["@", n, spell_int(rng, v)])
                bad = [t for x in u for t in x]
            elif k == 2:
                bad = p + ["@", rng.choice(["FOO", "wait", "Wait", "WAITS", "WAI", "W", "R", "B", "DEPS", "dep",
                                            "yield", "y", "YI", "YIELDS", "NOP", "CC", "P0", "RZ", "!PT"])]
            elif k == 3:
                bad = p + ["@", rng.choice(["WAIT", "WB", "RB", "DEP"])]     # value missing
            elif k == 4:
                bad = p + ["@", rng.choice(["WAIT", "WB", "RB", "DEP"]),
                           rng.choice(["1.0", "R1", "P1", "PT", "x", "@", ",", "-", "INF", "0.0"])]
            elif k == 5:
                bad = p + ["@", rng.choice(["Y", "YIELD"]), rng.choice(["0", "1"])]
            elif k == 6 and p:
                i = rng.randrange(len(p))
                bad = p[:i] + p[i + 1:]
            elif k == 7:
                n = rng.choice(["WAIT", "WB", "RB", "DEP"])
                v = rng.choice(["0", "1", "5"])
                w = v if n == "DEP" else rng.choice(["0", "1", "5"])
                bad = ["@", n, v, "@", n, w]
                if rng.random() < 0.5:
                    bad = ["@", n, v] + ["@", "Y"] + ["@", n, w]
            else:
                bad = ["@", rng.choice(["Y", "YIELD"])] + p + ["@", rng.choice(["Y", "YIELD"])]
            inst = rng.choice(SIMPLE) + " " + join(bad) + ";"
            pre = rng.choice(["", "NOP;", "NOP; NOP @WAIT 1;\n"])
            post = rng.choice(["", "NOP;", "\nEXIT @WAIT 5;"])
            text = pre + inst + post
            if refasm.assemble(text).ok:
                continue
            ctx.count("must be rejected")
            ctx.submit([text], must_reject("a bad annotation was"))
