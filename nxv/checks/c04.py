"""C04: numeric operands are accepted exactly when they fit their field."""
import re

from .. import gen, isa, refasm
from ..gen import join, is_number

LEVEL = "exploration"
NEEDS = [("plain", "driver")]
RULE = ("every register, predicate and integer token of random valid instructions of every form is "
        "replaced by boundary values (all powers of two +-{0..4}, 64-bit extremes and beyond, random "
        "values; registers R0..R300 and beyond; all predicates), the outcome is compared with the "
        "operand's range, and when accepted the change of the word relative to the baseline must be "
        "exactly the change of the operand's field; distinct by text; non-trivial = value differs "
        "from the baseline's")
ASSUMPTIONS = ["operand ranges of nxv/slots.py"]
MINIMUM = {"quick": {"in range": 50000, "out of range": 50000, "distinct numeric positions": 500}}

_reg = re.compile(r"R(Z|[0-9]+)$")
_pred = re.compile(r"!?P[T0-9]$")


def tasks(tier):
    reps = 1 if tier == "quick" else 8
    return [(f.index, r) for r in range(reps) for f in isa.FORMS]


def int_probes(rng, nrand):
    vals = set(range(-9, 34))
    for k in range(1, 64):
        p = 1 << k
        for d in (-4, -3, -2, -1, 0, 1, 2, 3, 4):
            vals.add(p + d)
            vals.add(-p + d)
    vals.update([(1 << 64) - 1, 1 << 64, (1 << 64) + 1, (1 << 64) + 4, -(1 << 64), -(1 << 64) + 1,
                 (1 << 63), (1 << 63) - 1, -(1 << 63), -(1 << 63) - 1, 1 << 65, 10 ** 30,
                 (1 << 32) + 1, (1 << 32) - 1, 0xffffffff00000000, 0x8000000080000000])
    for _ in range(nrand):
        b = rng.randint(1, 40)
        v = rng.getrandbits(b)
        vals.add(v if rng.random() < 0.6 else -v)
    return vals


def spell(rng, v):
    a = abs(v)
    r = rng.random()
    s = "0x%x" % a if r < 0.5 else "%d" % a if r < 0.92 else ("0%o" % a if a else "0")
    return ("-" if v < 0 else "+" if rng.random() < 0.1 else "") + s


REGS = ["R%d" % i for i in range(0, 301)] + ["R%d" % i for i in (
    510, 511, 512, 999, 1000, 1023, 1024, 4095, 65535, 65536, 65791, 2 ** 31 - 1, 2 ** 31, 2 ** 32 - 1,
    2 ** 32, 2 ** 32 + 1, 2 ** 32 + 7, 2 ** 63, 2 ** 64, 2 ** 64 + 3, 10 ** 25)] + \
    ["R007", "R00255", "R0254", "RZ", "R-1", "R+1", "R2R", "R1x", "R256", "RZ0", "R0x10"]
PREDS = ["%sP%s" % (n, v) for n in ("", "!") for v in
         ["0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "T", "10", "00", "01", "06", "07", "16",
          "255", "-1", "Z", "TT", "4294967296"]]


def run(ctx, task):
    rng = ctx.rng
    form = isa.FORMS[task[0]]
    for _ in range(9):
        base = gen.valid_inst(rng, form)
        if base is None:
            continue
        bt = base.text()
        rb = refasm.assemble(bt)
        toks = base.tokens()
        skip = 2 if base.guard else 0
        for p in range(skip, len(toks)):
            t = toks[p]
            prev = toks[p - 1] if p else ""
            if _reg.match(t):
                ps = REGS
                kind = "reg"
            elif _pred.match(t):
                ps = PREDS
                kind = "pred"
            elif is_number(t) and "." not in t:
                ps = [spell(rng, v) for v in int_probes(rng, 40 if ctx.quick else 200)]
                if prev not in ("[", "+", ",") and t[0] in "+-":
                    ps = [q if q[0] in "+-" else "+" + q for q in ps]
                kind = "int"
            else:
                continue
            ctx.saw("numeric positions", (form.index, p - skip, kind))
            for q in ps:
                if q == t:
                    continue
                nt = toks[:p] + [q] + toks[p + 1:]
                text = join(nt)
                r = refasm.assemble(text)
                if r.unspec:
                    continue
                ctx.count("in range" if r.ok else "out of range")
                if r.ok:
                    ctx.submit([bt, text], accept(rb.stmts[0], r.stmts[0], q), key=text)
                else:
                    ctx.submit([text], reject(q), key=text)


def accept(b, n, val):
    dw, dc = b.word ^ n.word, b.ctl ^ n.ctl

    def j(o):
        x, y = o
        if not x.ok:
            return None             # the baseline itself is broken: not this property
        if not y.ok:
            return "%s is in range but was not accepted: %s" % (val, y.brief())
        if len(x.words) < 2 or len(y.words) < 2:
            return None
        d = x.words[1] ^ y.words[1]
        if d != dw or (x.words[0] ^ y.words[0]) & 0x1FFFFF != dc:
            return "value %s changes bits %016x of the word instead of %016x" % (val, d, dw)
    return j


def reject(val):
    def j(o):
        if o[0].ok:
            return "value %s does not fit its operand, but was accepted: %s" % (val, o[0].brief())
        if not o[0].rejected:
            return "value %s: no diagnostic, the call ended abnormally: %s" % (val, o[0].brief())
    return j
