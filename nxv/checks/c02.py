"""C02: the emitted word is exactly the one the encoding specification assigns."""
from .. import gen, isa, refasm
from ..gen import Inst

LEVEL = "exploration"
NEEDS = [("plain", "driver")]
RULE = ("instructions of every form: every slot swept over all its values from random valid baselines, "
        "plus random combinations of all slots and guards; non-trivial = the specification accepts "
        "the text, so the emitted word is compared bit for bit; distinct by source text")
ASSUMPTIONS = ["the encoding specification in nxv/isa.py and nxv/slots.py, validated against the "
               "1085 upstream vectors (tools/selftest.py)"]
MINIMUM = {"quick": {"accepted": 100000, "distinct forms": 265},
           "thorough": {"accepted": 1000000, "distinct forms": 265}}


def tasks(tier):
    reps = 1 if tier == "quick" else 12
    return [(f.index, r) for r in range(reps) for f in isa.FORMS]


def judge_word(exp):
    def j(o):
        o = o[0]
        if not o.ok:
            return "specified word %016x, but not assembled: %s" % (exp, o.brief())
        if len(o.words) != 4:
            return "expected one bundle of four words"
        if o.words[1] != exp:
            return "specified word %016x, emitted %016x" % (exp, o.words[1])
    return j


def put(ctx, inst):
    t = inst.text()
    r = refasm.assemble(t)
    if not r.ok or len(r.stmts) != 1:
        ctx.count("not specified")
        return False
    st = r.stmts[0]
    ctx.saw("forms", st.form.index)
    ctx.submit([t], judge_word(st.word))
    return True


def run(ctx, task):
    rng = ctx.rng
    form = isa.FORMS[task[0]]
    nbase = 8 if ctx.quick else 12
    nrand = 7000 if ctx.quick else 15000
    for _ in range(nbase):
        base = gen.valid_inst(rng, form)
        if base is None:
            continue
        for i, s in enumerate(form.slots):
            ch = s.all_choices(rng)
            if len(ch) > 300:
                ch = rng.sample(ch, 300)
            for c in ch:
                put(ctx, base.with_slot(i, c))
        if not form.flags & isa.NO_PRED:
            for g in gen.GUARDS:
                for n in ("", "!"):
                    put(ctx, Inst(form, n + g, base.ch, base.ann))
    for _ in range(nrand):
        put(ctx, gen.gen_inst(rng, form))
