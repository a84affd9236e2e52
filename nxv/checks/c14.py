"""C14: guard predicates are encoded on every instruction or rejected."""
from .. import gen, isa, refasm
from ..gen import join, loose_join, scatter

LEVEL = "exploration"
NEEDS = [("plain", "driver")]
RULE = ("instructions of every form with random operands, modifiers and annotations, each assembled without "
        "a guard and with all 16 guards in several spellings and layouts; the monitor compares the guarded "
        "word with the unguarded one (relation: only the guard field differs and holds the guard) and the "
        "control field and length must be equal; not predicable forms must reject every guard but the "
        "always-true one; about 60 kinds of malformed guards must be rejected on every form; the guarded instruction "
        "also sits at other positions of a program; distinct by text; non-trivial = all")
ASSUMPTIONS = ["which instructions cannot be predicated is taken from the specification (nxv/isa.py)"]
MINIMUM = {"quick": {"guarded words compared": 60000, "guards refused on unpredicable forms": 500,
                     "malformed guards": 20000, "distinct (form, guard)": 265 * 16}}

ALL = [(n, i) for n in ("", "!") for i in "0123456T"]
ALWAYS = (7 << 16)
FIELD = 0xF << 16
BAD = ["@P7", "@P8", "@P9", "@!P7", "@!P8", "@!P9", "@", "@!", "@P", "@!P", "@p", "@R0", "@RZ", "@0", "@7", "@-P0",
       "@~P0", "@!!P0", "@PT.", "@P0.", "@P0,", "@,P0", "@@P0", "@P0 @P1", "@PT @PT", "@P0@P0", "@[P0]", "@|P0|",
       "@P0;", "@P10", "@P00", "@PTT", "@P0x", "@PX", "@PZ", "@T", "@x", "@CC", "@PR", "@WAIT 1", "@Y", "@DEP 1",
       "P0", "!P0", "PT", "!PT", "@P-1", "@P+1", "@-", "@+P0", "@1.0", "@P1.5", "@!T", "@!0", "@!R0", "@P!0",
       "@P 0", "@! P0", "!@P0", "@0P", "@P:", "@P0 .CC", "@P0.CC", "@PT.reuse", "@NOP", "@ ;", "@P0 P0", "@P0 ,"]


def tasks(tier):
    reps = 1 if tier == "quick" else 12
    return [("form", f.index, r) for r in range(reps) for f in isa.FORMS] + \
        [("prog", i) for i in range(60 if tier == "quick" else 900)]


def value(g):
    return (8 if g[0] else 0) | (7 if g[1] == "T" else int(g[1]))


def spell(rng, g):
    t = g[1].lower() if rng.random() < 0.2 else g[1]
    return g[0] + rng.choice("PPPp") + t


def judge_guard(g):
    want = value(g) << 16

    def j(o):
        a, v = o
        if not a.ok:
            return None if a.sane else "abnormal end without a guard: " + a.brief()
        if not v.ok:
            return "accepted without a guard, but not with @%sP%s: %s" % (g[0], g[1], v.brief())
        if len(a.words) != len(v.words) or len(a.words) < 2:
            return "the guard changed the length of the output"
        if a.words[1] & FIELD != ALWAYS:
            return "an omitted guard must mean always execute: " + a.brief()
        if v.words[1] & FIELD != want:
            return "guard field holds %#x instead of %#x: %s" % (v.words[1] >> 16 & 15, want >> 16, v.brief())
        if (v.words[1] ^ a.words[1]) & ~FIELD or v.words[:1] + v.words[2:] != a.words[:1] + a.words[2:]:
            return "the guard changed other bits: %s / %s" % (a.brief(), v.brief())
    return j


def judge_reject(why):
    def j(o):
        a, v = o
        if not a.ok:
            return None
        if v.ok:
            return why + ", but it was accepted: " + v.brief()
        if not v.rejected:
            return why + ", but it ended abnormally: " + v.brief()
    return j


def run(ctx, task):
    rng = ctx.rng
    if task[0] == "form":
        form = isa.FORMS[task[1]]
        nopred = bool(form.flags & isa.NO_PRED)
        for _ in range(90 if ctx.quick else 120):
            i = gen.valid_inst(rng, form, 0, 0.3)
            if i is None:
                continue
            i.guard = None
            toks = i.tokens()
            base = join(toks)
            if not refasm.assemble(base).ok:
                continue
            for g in ALL:
                t = ["@", spell(rng, g)] + toks
                text = join(t) if rng.random() < 0.5 else scatter(rng, t, rng.choice([0.2, 0.8])) \
                    if rng.random() < 0.7 else loose_join(t)
                r = refasm.assemble(text)
                if nopred and value(g) != 7:
                    if r.ok:
                        continue
                    ctx.count("guards refused on unpredicable forms")
                    ctx.saw("(form, guard)", (form.index, g))
                    ctx.submit([base, text], judge_reject("%s cannot be predicated" % form.mnemonic), key=text)
                elif r.ok:
                    ctx.count("guarded words compared")
                    ctx.saw("(form, guard)", (form.index, g))
                    ctx.submit([base, text], judge_guard(g), key=text)
            for bad in (BAD if _ == 0 else rng.sample(BAD, 6)):
                text = bad + rng.choice([" ", " ", "\n", "\t"]) + base
                r = refasm.assemble(text)
                if r.ok or r.unspec:
                    continue
                ctx.count("malformed guards")
                ctx.saw("malformed guards", bad)
                ctx.submit([base, text], judge_reject("malformed guard " + bad), key=text)
        return
    # a guard inside a program belongs to its own instruction only
    pool = gen.gen_program_items(rng, 60, guard=0.5, ann=0.3)
    pool = [p for p in pool]
    for _ in range(60):
        n = rng.randint(1, 14)
        items = [rng.choice(pool) for _ in range(n)]
        k = rng.randrange(n)
        it = items[k]
        if it.form.flags & isa.NO_PRED:
            continue
        g = rng.choice(ALL)
        bare = gen.Inst(it.form, None, it.ch, it.ann)
        sep = rng.choice(["\n", " ", ""])
        t0 = sep.join(x.text() for x in items[:k] + [bare] + items[k + 1:])
        t1 = sep.join((x.text() if q != k else "@" + spell(rng, g) + " " + bare.text())
                      for q, x in enumerate(items))
        if not (refasm.assemble(t0).ok and refasm.assemble(t1).ok):
            continue
        ctx.count("guards inside programs")
        ctx.submit([t0, t1], judge_prog(g, refasm.slot_address(k) // 8), key=t1)


def judge_prog(g, at):
    def j(o):
        a, v = o
        if not a.ok:
            return None if a.sane else "abnormal end: " + a.brief()
        if not v.ok:
            return "accepted without the guard, but not with it: " + v.brief()
        want = list(a.words)
        if at >= len(want):
            return "output too short"
        if want[at] & FIELD != ALWAYS:
            return "an omitted guard must mean always execute: %016x" % want[at]
        want[at] = want[at] & ~FIELD | value(g) << 16
        if list(v.words) != want:
            return "guard on word %d changed something else: %s / %s" % (at, a.brief(), v.brief())
    return j
