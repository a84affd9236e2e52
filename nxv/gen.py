"""Workload generators: instructions, programs, layouts, mutations."""
import random
import re

from . import isa, slots
from .lex import OPS, SEP
from .slots import gpr, mirror_dgpr, spell_int

REGTOK = re.compile(r"R(\d+|Z)")
GUARDS = ["P0", "P1", "P2", "P3", "P4", "P5", "P6", "PT"]


def is_number(t):
    if t[0].isdigit():
        return not (len(t) > 1 and t[1] == "D")
    return t[0] in "+-" and len(t) > 1


def need_space(a, b):
    """Must tokens a and b be separated to be read as two tokens?"""
    if is_number(a):
        return b[0] not in "~|[]@,;"
    if a in ("+", "-"):
        return b[0].isdigit()
    if a in OPS:
        return False
    return b[0] not in SEP


def join(tokens):
    """Conventional layout."""
    out = []
    prev = None
    for t in tokens:
        if prev is not None and (need_space(prev, t) or
                                 (t[0] not in ".,;]|[+" and prev not in "[@-~|!" and
                                  not (prev == "+"))):
            out.append(" ")
        out.append(t)
        prev = t
    return "".join(out)


WS = [" ", "  ", "\t", "\n", "\r\n", " \t ", "\n\n", "\n\t", "   ", "\r"]


def scatter(rng, tokens, density=0.4, nl=True, labels=None):
    """Random layout of the same tokens; labels (list of names) may be put at fresh lines."""
    out = []
    prev = None
    for t in tokens:
        gap = ""
        if prev is not None and need_space(prev, t):
            gap = rng.choice(WS if nl else WS[:3])
        elif rng.random() < density:
            gap = rng.choice(WS if nl else WS[:3])
        if labels and nl and prev is not None and rng.random() < 0.05:
            gap = "\n" + rng.choice(labels) + ":" + rng.choice([" ", "\n", "\t"])
        out.append(gap)
        out.append(t)
        prev = t
    return "".join(out)


REGLIKE = ["R1x", "R1_loop", "R12abc", "R0_", "R255x", "R300a", "Rx1", "R_1", "RX", "R", "RR", "R1R2", "RY", "P0x", "P1_a", "P6b", "P7x",
           "PTx", "PT0", "PX", "P", "PP", "P00x", "Pt1", "P0P1", "P9_", "p0x", "r1", "rz", "r", "D", "D1", "e5", "x1", "xFF", "F", "f32",
           "QNAN0", "INF1", "WAIT", "DEP", "Y", "WB", "RB", "YIELD", "compute0", "vertex", "SRx", "SR_X", "CCx", "EQ0", "cx", "ax", "c1", "a1"]


def name_family(rng, k=6):
    """Distinct label names that are easily taken for one another."""
    kind = rng.randrange(7)
    n = rng.choice([6, 7, 8, 14, 15, 16, 22, 23, 24, 30, 31, 32, 62, 63, 64, 126, 127, 128, 254, 255, 256, 257, 500, 1000, 4096])
    stem = "k" + "".join(rng.choice("abcdXYZ_019") for _ in range(n - 1))
    if kind == 0:           # long common beginning
        out = {stem + s for s in ("", "a", "b", "A", "_", "0", "1", "10", "aa", "ab")}
    elif kind == 1:         # long common end
        out = {p + stem for p in ("", "a", "b", "A", "q0", "q1", "aa", "bb", "Q")}
    elif kind == 2:         # one character in the middle
        i = rng.randrange(1, n)
        out = {stem[:i] + c + stem[i + 1:] for c in "abABzZ_0123456789"}
    elif kind == 3:         # letter case
        out = {stem, stem.upper(), stem.lower(), stem.swapcase(), stem.capitalize(), stem[:-1] + stem[-1].swapcase()}
    elif kind == 4:         # the same letters in another order
        t = stem[:min(n, 12)]
        out = {t} | {t[:i] + t[i + 1] + t[i] + t[i + 2:] for i in range(1, len(t) - 1)}
    elif kind == 5:         # numbered
        b = rng.choice([1, 9, 10, 99, 100, 255, 256, 999, 65535])
        out = {"L%d" % (b + i) for i in range(4)} | {"L0%d" % (b + i) for i in range(3)} | {"L%d_%d" % (b, i) for i in range(3)}
    else:
        out = set(rng.sample(REGLIKE, 12))
    out = sorted(out)
    return rng.sample(out, min(k, len(out)))


class Inst:
    """An instruction as a list of slot choices of one form."""
    __slots__ = ("form", "guard", "ch", "ann")

    def __init__(self, form, guard, ch, ann):
        self.form, self.guard, self.ch, self.ann = form, guard, ch, ann

    def operand_tokens(self):
        out = []
        for s, (k, t) in zip(self.form.slots, self.ch):
            if t == ["$MIRROR"]:
                k0 = next(c[0] for q, c in zip(self.form.slots, self.ch)
                          if type(q) is gpr and q.addr == s.addr)
                out.append("RZ" if k0[0] == 255 else "R%d" % k0[0])
            else:
                out += t
        return out

    def tokens(self):
        g = ["@", self.guard] if self.guard else []
        return g + [self.form.mnemonic] + self.operand_tokens() + self.ann + [";"]

    def text(self):
        return join(self.tokens())

    def with_slot(self, i, choice):
        ch = list(self.ch)
        ch[i] = choice
        return Inst(self.form, self.guard, ch, self.ann)


def gen_guard(rng, form, p=0.3):
    if rng.random() > p:
        return None
    if form.flags & isa.NO_PRED:
        return "PT"
    return rng.choice(["", "", "!"]) + rng.choice(GUARDS)


def gen_ann(rng, p=0.3):
    """Random scheduling annotations, each kind at most once (DEP: distinct indices)."""
    if rng.random() > p:
        return []
    a = []
    if rng.random() < 0.6:
        a.append(["@", "WAIT", spell_int(rng, rng.randrange(16))])
    if rng.random() < 0.4:
        a.append(["@", "WB", spell_int(rng, rng.randrange(6))])
    if rng.random() < 0.4:
        a.append(["@", "RB", spell_int(rng, rng.randrange(6))])
    if rng.random() < 0.4:
        a.append(["@", rng.choice(["Y", "YIELD"])])
    if rng.random() < 0.5:
        for d in rng.sample(range(6), rng.randint(1, 6)):
            a.append(["@", "DEP", spell_int(rng, d)])
    rng.shuffle(a)
    return [t for x in a for t in x]


def gen_inst(rng, form=None, guard=0.3, ann=0.0):
    if form is None:
        form = rng.choice(isa.FORMS)
    ch = [s.choices(rng) for s in form.slots]
    if rng.random() < 0.15:
        # correlated operands: one or two registers everywhere
        pool = [rng.choice([255, 0, 1, 254, rng.randrange(256)]) for _ in range(rng.randint(1, 2))]
        for i, s in enumerate(form.slots):
            k, toks = ch[i]
            v = rng.choice(pool)
            t2 = [("RZ" if v == 255 else "R%d" % v) if REGTOK.fullmatch(t) else t for t in toks]
            if t2 != toks:
                ch[i] = ((v,) + tuple(k[1:]) if type(s) is gpr else k, t2)
    return Inst(form, gen_guard(rng, form, guard), ch, gen_ann(rng, ann))


LABEL_FORMS = [f for f in isa.FORMS if any(getattr(s, "is_label", False) for s in f.slots)]
PLAIN_FORMS = [f for f in isa.FORMS if f not in LABEL_FORMS]


def valid_inst(rng, form=None, guard=0.3, ann=0.0, tries=60):
    """An instruction the specification accepts (some modifier combinations are illegal)."""
    from . import refasm
    for _ in range(tries):
        i = gen_inst(rng, form, guard, ann)
        if refasm.assemble(i.text()).ok:
            return i
    return None


VOCAB = None


def vocab():
    """Every token text of the language, for replacement mutations."""
    global VOCAB
    if VOCAB is None:
        rng = random.Random(7)
        v = set()
        for f in isa.FORMS:
            v.add(f.mnemonic)
            for s in f.slots:
                for _, t in s.all_choices(rng)[:40]:
                    v.update(x for x in t if x != "$MIRROR")
        v.update(["@", ";", ",", "-", "+", "~", "|", "[", "]", "!P3", "P7", "PT", "WAIT", "WB", "RB",
                  "DEP", "Y", "YIELD", ".dksh", "compute", ".type", ".reuse", "RZ", "R255", "c", "a",
                  ".", ":", "foo:", "foo", "!", "R", "P", "0x", "1.0", "-1.0", "-0", "08", "1e5",
                  "0x1p3", ".CC", "CC", "PR", "pt", "p0", "!p1", "r0", "INF", "QNAN", "-5", "+5",
                  "9223372036854775807", "9223372036854775808", "-9223372036854775808",
                  "4294967296", "0x100000", "%", "\\", "\"", "(", ")", "{", "}", "#", "//", "/*"])
        VOCAB = sorted(v)
    return VOCAB


def mutate_tokens(rng, toks):
    """One structural mutation of a token list (result may or may not still be valid)."""
    t = list(toks)
    n = len(t)
    k = rng.randrange(12)
    i = rng.randrange(n)
    if k == 0:
        del t[i]
    elif k == 1:
        t.insert(i, t[i])
    elif k == 2 and n > 1:
        j = min(i + 1, n - 1)
        t[i], t[j] = t[j], t[i]
    elif k == 3:
        t[i] = rng.choice(vocab())
    elif k == 4:
        t.insert(i, rng.choice(vocab()))
    elif k == 5:
        x = t[i]
        j = rng.randrange(len(x))
        r = rng.randrange(5)
        if r == 0:
            x = x[:j] + x[j + 1:]
        elif r == 1:
            x = x[:j] + x[j].swapcase() + x[j + 1:]
        elif r == 2:
            x = x + rng.choice("0123456789ABXZ_.:x")
        elif r == 3:
            x = x[:j] + rng.choice("0123456789ABCDEFPRTXZ._-+") + x[j:]
        else:
            x = x[:j]
        if x:
            t[i] = x
        else:
            del t[i]
    elif k == 6:
        # insert an unexpected modifier
        t.insert(i, rng.choice([".CC", ".SAT", ".FTZ", ".X", ".reuse", ".H1", ".B1", ".NEG", ".ABS",
                                ".32", ".64", ".U32", ".S32", ".RN", ".E", ".AND", ".LO", ".PO"]))
    elif k == 7:
        # duplicate a modifier or operand elsewhere
        t.insert(rng.randrange(n + 1), t[i])
    elif k == 8 and n > 3:
        # drop an operand with its comma
        cs = [q for q, x in enumerate(t) if x == ","]
        if cs:
            q = rng.choice(cs)
            e = q + 1
            while e < n and t[e] not in (",", ";"):
                e += 1
            del t[q:e]
    elif k == 9:
        # extra operand
        q = rng.choice([q for q, x in enumerate(t) if x in (",", ";")] or [n])
        t[q:q] = [",", rng.choice(["R0", "RZ", "0x1", "PT", "c[0x1][0x4]", "1.0", "!P0", "0"])]
    elif k == 10:
        # move a modifier
        ms = [q for q, x in enumerate(t) if x[0] == "." and len(x) > 1]
        if ms:
            q = rng.choice(ms)
            x = t.pop(q)
            t.insert(rng.randrange(len(t) + 1), x)
    else:
        # swap two arbitrary tokens
        j = rng.randrange(n)
        t[i], t[j] = t[j], t[i]
    return t


def loose_join(tokens):
    return " ".join(tokens)


def gen_program_items(rng, n, forms=None, guard=0.25, ann=0.4):
    """n valid instructions without label operands."""
    out = []
    while len(out) < n:
        f = rng.choice(forms or PLAIN_FORMS)
        i = valid_inst(rng, f, guard, ann)
        if i is not None:
            out.append(i)
    return out
