"""C09: floating-point immediates encode the literal's value exactly as specified."""
from fractions import Fraction

from .. import gen, isa, refasm
from ..slots import _dec, fp_base, float_text, spell_int, dimm20, f16imm

LEVEL = "exploration"
NEEDS = [("plain", "driver")]
RULE = ("literals placed in every form with a float immediate: all half-precision values and all ties "
        "between them with neighbours on both sides, single/double values, ties and near-ties at every "
        "exponent, subnormals, overflow and underflow limits, up to 1,500-digit literals, signed zeros, "
        "INF/QNAN, integers up to 64 bits; the change of the word against the literal 1.0 is compared "
        "with exact rational rounding; distinct by text; non-trivial = the literal is not 1.0")
ASSUMPTIONS = ["exact rational rounding of nxv/lex.py"]
MINIMUM = {"quick": {"literals encoded": 100000, "integers rejected": 500, "distinct float forms": 20}}

FLOAT_FORMS = [f for f in isa.FORMS if any(isinstance(s, fp_base) for s in f.slots)]
HALF16 = [f for f in FLOAT_FORMS if any(isinstance(s, f16imm) and s.bits == 16 for s in f.slots)]


def fmt_of(s):
    return "half" if isinstance(s, f16imm) else "double" if isinstance(s, dimm20) else "single"


def tasks(tier):
    reps = 40 if tier == "quick" else 80
    t = [("form", f.index, r) for r in range(reps) for f in FLOAT_FORMS]
    t += [("halves", k) for k in range(32)]
    t += [("exp", f.index) for f in FLOAT_FORMS]
    return t


def judge(exp_delta, lit):
    def j(o):
        x, y = o
        if not x.ok or len(x.words) < 2:
            return None
        if exp_delta is None:
            if y.ok:
                return "literal %s is not exactly representable, but accepted: %s" % (lit, y.brief())
            return None if y.rejected else "literal %s: %s" % (lit, y.brief())
        if not y.ok:
            return "literal %s was not accepted: %s" % (lit, y.brief())
        d = x.words[1] ^ y.words[1]
        if d != exp_delta:
            return "literal %s: immediate differs from that of 1.0 in bits %016x, expected %016x" % (
                lit, d, exp_delta)
    return j


def baseline(rng, form):
    for _ in range(200):
        i = gen.gen_inst(rng, form, 0.2)
        for k, s in enumerate(form.slots):
            if isinstance(s, fp_base):
                i = i.with_slot(k, (None, ["1.0"]))
        if refasm.assemble(i.text()).ok:
            return i
    raise AssertionError(form)


def put(ctx, base, bt, bw, k, toks):
    toks = [t for t in toks if t]
    t = base.with_slot(k, (None, toks)).text()
    lit = " ".join(toks)
    r = refasm.assemble(t)
    if r.unspec:
        return
    s = base.form.slots[k]
    ctx.saw("(format, stored bits)", (fmt_of(s), getattr(s, "bits", 20)))
    ctx.saw("float forms", base.form.index)
    if r.ok:
        ctx.count("literals encoded")
        ctx.submit([bt, t], judge(bw ^ r.stmts[0].word, lit), key=t)
    else:
        ctx.count("integers rejected")
        ctx.submit([t], lambda o, lit=lit: None if o[0].rejected else
                   "literal %s cannot be represented exactly, but: %s" % (lit, o[0].brief()), key=t)


def near(rng, v, ulp):
    """v and close neighbours, as exact decimals."""
    out = [_dec(v)]
    for d in (Fraction(1, 1 << 12), Fraction(1, 1 << 30), Fraction(1, 1 << 60)):
        out.append(_dec(v + ulp * d))
        if v > ulp * d:
            out.append(_dec(v - ulp * d))
    return out


def rand_lit(rng, fmt):
    """A hostile literal for a format."""
    r = rng.random()
    mb, emin, emax = {"half": (10, -14, 15), "single": (23, -126, 127), "double": (52, -1022, 1023)}[fmt]
    sign = rng.choice(["", "", "-", "+"])
    if r < 0.2:
        return float_text(rng)
    if r < 0.3:
        v = rng.choice([rng.getrandbits(rng.randint(1, 63)), (1 << rng.randint(0, 62)) + rng.randint(-3, 3),
                        rng.randrange(1 << 24) << rng.randint(0, 39), rng.randrange(1 << 26)])
        if v >= 1 << 63:
            v >>= 1
        return [spell_int(rng, v if rng.random() < 0.6 else -v)]
    # a value of one of the formats (or of the stored prefix), a tie, or next to a tie
    mbx = rng.choice([mb, mb, mb + 1, mb - 1, 23, 10, 8, 11, 6])
    e = rng.choice([rng.randint(-24, 20), rng.randint(emin - mb - 2, emax + 1)])
    if e < emin - mb - 2:
        e = emin
    if abs(e) > 200 and rng.random() < 0.7:
        e = rng.randint(-160, 140)
    m = (1 << mbx) | rng.getrandbits(mbx)
    if rng.random() < 0.3:
        m = rng.choice([1 << mbx, (2 << mbx) - 1, (1 << mbx) + 1, (1 << mbx) | (1 << mbx - 1)])
    v = Fraction(m)
    k = rng.randrange(5)
    if k == 0:
        v += Fraction(1, 2)
    elif k == 1:
        v += Fraction(1, 2) + Fraction(1, 1 << rng.randint(2, 60))
    elif k == 2:
        v += Fraction(1, 2) - Fraction(1, 1 << rng.randint(2, 60))
    elif k == 3:
        v += Fraction(rng.getrandbits(16), 1 << 16)
    v *= Fraction(2) ** (e - mbx)
    s = _dec(v)
    if rng.random() < 0.1 and len(s) > 12:
        s = s[:rng.randint(8, len(s))]          # truncated decimal expansion
        if "." not in s:
            s += ".0"
    if rng.random() < 0.05:
        s = "0" * rng.randint(1, 40) + s
    if rng.random() < 0.05:
        s += "0" * rng.randint(1, 400)
    return [sign + s]


def run(ctx, task):
    rng = ctx.rng
    if task[0] == "halves":
        # every half-precision magnitude, the ties between neighbours, and points next to the ties
        form = rng.choice(HALF16)
        base = baseline(rng, form)
        ks = [k for k, s in enumerate(form.slots) if isinstance(s, f16imm)]
        bt = base.text()
        bw = refasm.assemble(bt).stmts[0].word
        lo = task[1] * (0x7C00 // 32)
        for h in range(lo, lo + 0x7C00 // 32):
            e, m = h >> 10, h & 0x3FF
            ulp = Fraction(2) ** (max(e, 1) - 25)
            v = (Fraction(m | (1024 if e else 0))) * ulp
            sg = rng.choice(["", "-"])
            for q in (v, v + ulp / 2, v + ulp / 2 + ulp / (1 << 10), v + ulp / 2 - ulp / (1 << 10)):
                put(ctx, base, bt, bw, rng.choice(ks), [sg + _dec(q)])
        return
    form = isa.FORMS[task[1]]
    base = baseline(rng, form)
    bt = base.text()
    bw = refasm.assemble(bt).stmts[0].word
    ks = [k for k, s in enumerate(form.slots) if isinstance(s, fp_base)]
    if task[0] == "exp":
        for k in ks:
            fmt = fmt_of(form.slots[k])
            mb, emin, emax = {"half": (10, -14, 15), "single": (23, -126, 127),
                              "double": (52, -1022, 1023)}[fmt]
            es = range(emin - mb - 2, emax + 3)
            if fmt == "double" and ctx.quick:
                es = sorted(set(rng.sample(range(-1076, 1026), 60)) | set(range(-20, 21)) |
                            {-1074, -1075, -1076, -1022, -1023, 1023, 1024, 127, 128, 129, -126, -127,
                             -149, -150, -151})
            for e in es:
                p = Fraction(2) ** e
                ulp = Fraction(2) ** (max(e, emin) - mb)
                for v in (p, p * 2 - ulp / 2, p + ulp / 2):
                    for s in near(rng, v, ulp)[:7 if fmt != "double" else 3]:
                        put(ctx, base, bt, bw, k, [rng.choice(["", "-", "+"]) + s])
            for t in (["0.0"], ["-0.0"], ["+0.0"], ["0."], ["-0."], ["0"], ["-0"], ["+0"], ["INF"], ["-", "INF"],
                      ["+", "INF"], ["QNAN"], ["-", "QNAN"], ["+", "QNAN"],
                      ["0." + "0" * 400 + "1"], ["-0." + "0" * 400 + "1"], ["1" + "0" * 400 + ".0"],
                      ["-1" + "0" * 400 + ".0"], ["0." + "0" * 1400 + "1"], ["9" * 1500 + ".9"],
                      ["0." + "3" * 1500],
                      ["0.000000000000000000000000000000000000010282970205525219778587329756466917904346"
                       "2407947403319012529381007293289261583790761278578429482877254486083984375"],
                      ["65519.999"], ["65520.0"], ["-65520.0"], ["65536"], ["65505"],
                      ["16777217"], ["-16777217"], ["16777216"], ["16777218"], ["33554433"], ["33554434"],
                      ["9007199254740993"], ["9007199254740992"], ["9223372036854775807"],
                      ["-9223372036854775808"], ["9223371487098961920"], ["4294967295"], ["4294967296"],
                      ["2147483647"], ["2147483648"], ["-2147483648"], ["-2147483649"], ["0x1000001"]):
                put(ctx, base, bt, bw, k, t)
        return
    for _ in range(700 if ctx.quick else 2000):
        k = rng.choice(ks)
        put(ctx, base, bt, bw, k, rand_lit(rng, fmt_of(form.slots[k])))
        if rng.random() < 0.02:
            base = baseline(rng, form)
            bt = base.text()
            bw = refasm.assemble(bt).stmts[0].word
