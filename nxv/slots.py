"""Operand slots: for each kind of operand or modifier, the accepted syntax (parse), its encoding,
its numeric range, and generators of spellings.

parse(P) consumes tokens from P and adds bits; it returns False when the slot does not match.
choices(rng) yields (key, [token strings]); equal keys mean the same semantic value of the slot.
"""
from .lex import (ID, REG, PRED, INT, FLT, OP, f32_bits, f64_bits, f16_via_f32, int_f32, int_f64,
                  f32_value, f16_bits_of)


class Overlap(Exception):
    """Two slots of the specification claimed the same bit: the specification is inconsistent."""


class P:
    """Parser state over a token list."""
    __slots__ = ("t", "i", "v", "r", "pc", "labels", "fields")

    def __init__(self, toks, i, pc=8, labels=None):
        self.t, self.i, self.v, self.r, self.pc = toks, i, 0, 0, pc
        self.labels = labels if labels is not None else {}
        self.fields = []

    def add(self, bits):
        if self.v & bits:
            raise Overlap("%x over %x" % (bits, self.v))
        self.v |= bits


class Slot:
    optional = False        # may be absent without a token
    numeric = None          # (min, max, align) for numeric slots
    mandatory_text = None

    def parse(self, p):
        raise NotImplementedError

    def choices(self, rng):
        raise NotImplementedError

    def all_choices(self, rng):
        """Every (or a boundary-complete sample of) alternative(s) for sweeps."""
        return [self.choices(rng) for _ in range(4)]


def is_id(t, s):
    return t.k == ID and t.d == s


class _Comma(Slot):
    def parse(self, p):
        t = p.t[p.i]
        if t.k == OP and t.d == ",":
            p.i += 1
            return True
        return False

    def choices(self, rng):
        return (None, [","])

    def all_choices(self, rng):
        return [(None, [","])]


comma = _Comma()

_REGS = [0, 1, 2, 3, 7, 8, 15, 16, 31, 63, 64, 127, 128, 129, 200, 253, 254]


def reg_text(rng):
    v = rng.choice(_REGS) if rng.random() < 0.5 else rng.randrange(255)
    if rng.random() < 0.15:
        return 255, "RZ"
    return v, "R%d" % v


class gpr(Slot):
    def __init__(self, addr):
        self.addr = addr
        self.reuse = {8: 1, 20: 2, 39: 4}.get(addr, 0)
        self.numeric_reg = True

    def parse(self, p):
        t = p.t[p.i]
        if t.k != REG:
            return False
        p.add(t.d << self.addr)
        p.i += 1
        if is_id(p.t[p.i], ".reuse"):
            if not self.reuse:
                return False
            if p.r & self.reuse:
                raise Overlap("reuse")
            p.r |= self.reuse
            p.i += 1
        return True

    def choices(self, rng):
        v, s = reg_text(rng)
        if self.reuse and rng.random() < 0.12:
            return ((v, True), [s, ".reuse"])
        return ((v, False), [s])

    def all_choices(self, rng):
        out = [((v, False), ["R%d" % v]) for v in range(255)] + [((255, False), ["RZ"])]
        if self.reuse:
            out += [((v, True), ["R%d" % v, ".reuse"]) for v in (0, 255 - 1, rng.randrange(255))]
            out.append(((255, True), ["RZ", ".reuse"]))
        return out


dgpr = sgpr = gpr


class mirror_dgpr(gpr):
    """Must name the register already encoded at addr."""

    def parse(self, p):
        t = p.t[p.i]
        if t.k != REG or t.d != (p.v >> self.addr) & 0xFF:
            return False
        p.i += 1
        return not is_id(p.t[p.i], ".reuse")

    def choices(self, rng):
        return (None, ["$MIRROR"])

    def all_choices(self, rng):
        return [(None, ["$MIRROR"])]


class flag(Slot):
    optional = True

    def __init__(self, text, addr):
        self.text, self.addr = text, addr

    def parse(self, p):
        if is_id(p.t[p.i], self.text):
            if p.v >> self.addr & 1:
                return False        # conflicts with an earlier modifier
            p.v |= 1 << self.addr
            p.i += 1
        return True

    def choices(self, rng):
        return (1, [self.text]) if rng.random() < 0.35 else (0, [])

    def all_choices(self, rng):
        return [(0, []), (1, [self.text])]


def _flag(text, default=None):
    def make(addr=default):
        return flag(text, addr)
    return make


cc = _flag(".CC", 47)
psl = _flag(".PSL")
x = _flag(".X")
mrg = _flag(".MRG")
brev = _flag(".BREV")
ftz = _flag(".FTZ")
sat = _flag(".SAT")
bf = _flag(".BF")
h_and = _flag(".H_AND")
u = _flag(".U")
lmt = _flag(".LMT")
w = _flag(".W")
post_neg = _flag(".NEG")
post_abs = _flag(".ABS")
sh = _flag(".SH")
inv = _flag(".INV")
ndv = _flag(".NDV")
nodep = _flag(".NODEP")
dc = _flag(".DC")
aoffi = _flag(".AOFFI")
lc = _flag(".LC")
ms = _flag(".MS")
cl = _flag(".CL")
keeprefcount = _flag(".KEEPREFCOUNT", 5)
ald_o = al2p_o = _flag(".O", 32)
nop_trig = _flag(".TRIG", 13)
stg_e = _flag(".E", 45)
lds_u = _flag(".U", 44)
atom_e = red_e = _flag(".E", 48)
image_ba = _flag(".BA")


class table(Slot):
    """One keyword out of a list; the position in the list is the value. default None: required."""

    def __init__(self, default, addr, names, prefix="."):
        self.default, self.addr, self.prefix = default, addr, prefix
        self.names = {prefix + n: i for i, n in enumerate(names) if n}
        self.optional = default is not None

    def parse(self, p):
        t = p.t[p.i]
        v = self.names.get(t.d) if t.k == ID else None
        if v is None:
            if self.default is None:
                return False
            v = self.default
        else:
            p.i += 1
        p.add(v << self.addr)
        return True

    def choices(self, rng):
        if self.optional and rng.random() < 0.45:
            return (self.default, [])
        n = rng.choice(list(self.names))
        return (self.names[n], [n])

    def all_choices(self, rng):
        out = [(v, [n]) for n, v in self.names.items()]
        if self.optional:
            out.append((self.default, []))
        return out


def _table(default, addr, *names):
    if addr is None:
        return lambda a: table(default, a, names)
    return lambda: table(default, addr, names)


_CC_TESTS = ("F LT EQ LE GT NE GE NUM NAN LTU EQU LEU GTU NEU GEU T OFF LO SFF LS HI SFT HS OFT "
             "CSM_TA CSM_TR CSM_MX FCSM_TA FCSM_TR FCSM_MX RLE RGT").split()

half = _table(0, None, "H0", "H1")
float_format = _table(2, None, "", "F16", "F32", "F64")
byte_selector = _table(0, None, "B0", "B1", "B2", "B3")
fp_rounding = _table(0, None, "RN", "RM", "RP", "RZ")
bop = _table(None, None, "AND", "OR", "XOR", "INVALIDBOP3")
memory_size = stg_size = _table(4, 48, "U8", "S8", "U16", "S16", "32", "64", "128")
store_cache = _table(0, None, "", "CG", "CS", "WT")
rro_mode = _table(None, 39, "SINCOS", "EX2")
load_cache = _table(0, None, "", "CG", "CI", "CV")
lop_bit_op = _table(None, None, "AND", "OR", "XOR", "PASS_B")
lop_pred_op = _table(0, 44, "", "T", "Z", "NZ")
amem_size = ald_size = _table(0, 47, "32", "64", "96", "128")
cc_tests = _table(15, 8, *_CC_TESTS)
xmad_mode_a = _table(0, 50, "", "CLO", "CHI", "CSFU", "CBCC")
xmad_mode_b = _table(0, 50, "", "CLO", "CHI", "CSFU")
lop3_operation = _table(0, 36, "", "T", "Z", "NZ")
shr_format = bfe_format = _table(1, 48, "U32", "S32")
shr_mode = _table(0, 39, "C", "W")
shr_xmode = _table(0, 43, "", "INVALIDSHRXMODE1", "X", "XHI")
bpt_mode = _table(None, 6, "DRAIN_ILLEGAL", "CAL", "PAUSE", "TRAP", "INT", "DRAIN")
fmul_fmz = _table(0, None, "", "FTZ", "FMZ", "INVALIDFMZ3")
fmul_scale = _table(0, 41, "", "D2", "D4", "D8", "M8", "M4", "M2", "INVALIDSCALE37")
iadd3_shift = _table(0, 37, "", "RS", "LS")
iadd3_half = _table(0, None, "", "H0", "H1")
f2i_rounding = _table(0, 39, "", "FLOOR", "CEIL", "TRUNC")
fp16_merge = _table(0, None, "", "F32", "MRG_H0", "MRG_H1")
fp16_control = _table(0, None, "", "FTZ", "FMZ")
fp16_swizzle = _table(0, None, "H1_H0", "F32", "H0_H0", "H1_H1")
stl_cache = _table(0, 44, "", "CG", "CS", "WT")
float_compare = _table(None, None, *_CC_TESTS[:16])
integer_compare = _table(None, None, "F", "LT", "EQ", "LE", "GT", "NE", "GE", "T")
vsetp_integer_compare = _table(None, None, "F", "LT", "EQ", "LE", *[""] * 12, "GT", "NE", "GE", "T")
mufu_operation = _table(None, 20, "COS", "SIN", "EX2", "LG2", "RCP", "RSQ", "RCP64H", "RSQ64H",
                        "SQRT")
imnmx_mode = _table(0, 43, "", "XLO", "XMED", "XHI")
ldc_mode = _table(0, 44, "", "IL", "IS", "ISL")
ldc_size = _table(None, 48, "U8", "S8", "U16", "S16", "32", "64")
image_type = _table(None, 33, "1D", "1D_BUFFER", "1D_ARRAY", "2D", "2D_ARRAY", "3D")
image_rgba = _table(15, 20, "", "R", "G", "RG", "B", "RB", "GB", "RGB", "A", "RA", "GA", "RGA",
                    "BA", "RBA", "GBA", "RGBA")
image_size = _table(4, 20, "U8", "S8", "U16", "S16", "32", "64", "128")
image_clamp = _table(1, 49, "IGN", "", "TRAP")
shfl_mode = _table(None, 30, "IDX", "UP", "DOWN", "BFLY")
int_sign = _table(1, 48, "U32", "S32")
ldg_cache = _table(0, 46, "", "CG", "CI", "CV")
atoms_operation = _table(None, 52, "ADD", "MIN", "MAX", "INC", "DEC", "AND", "OR", "XOR", "EXCH")
atoms_size = _table(None, 28, "U32", "S32", "U64", "S64")
ldl_cache = _table(0, 44, "", "LU", "CI", "CV")
vote_operation = _table(None, 48, "ALL", "ANY", "EQ")
atom_operation = _table(None, 52, "ADD", "MIN", "MAX", "INC", "DEC", "AND", "OR", "XOR", "EXCH",
                        "SAFEADD")
shf_max_shift = _table(0, 37, "32", "INVALIDMAXSHIFT3", "U64", "S64")
shf_xmode = _table(0, 48, "", "HI", "X", "XHI")
noinc = _table(1, 6, "NOINC", "INC")
video_dest_sign = _table(1, 54, "UD", "SD")
video_mx = _table(0, None, "MN", "MX")
video_vmnmx_op = _table(7, None, "MRG_16H", "MRG_16L", "MRG_8B0", "MRG_8B2", "ACC", "MIN", "MAX")
vmad_scale = _table(0, 51, "", "SHR_7", "SHR_15", "INVALIDVMADSCALE3")
red_operation = _table(0, 23, "ADD", "MIN", "MAX", "INC", "DEC", "AND", "OR", "XOR")
blod = _table(0, None, "", "LZ", "LB", "LL", "INVALIDBLOD4", "INVALIDBLOD5", "LBA", "LLA")
sample_size = _table(1, None, "F16", "")
sample_size_inv = _table(0, None, "", "F16")
tld4_component = _table(None, None, "R", "G", "B", "A")
tld4_offset = _table(0, None, "", "AOFFI", "PTP")
tld_lod = _table(None, None, "LZ", "LL")


def p2r_mode(addr):
    return table(None, addr, ("PR", "CC"), "")


def tex_type(addr):
    return table(None, addr, ("1D", "ARRAY_1D", "2D", "ARRAY_2D", "3D", "ARRAY_3D", "CUBE",
                              "ARRAY_CUBE"), "")


def txq_mode():
    return table(None, 22, ("", "TEX_HEADER_DIMENSION", "TEX_HEADER_TEXTURE_TYPE", "", "",
                            "TEX_HEADER_SAMPLER_POS"), "")


class req(Slot):
    """A mandatory keyword contributing fixed bits."""

    def __init__(self, text, bits=0):
        self.text, self.bits = text, bits
        self.mandatory_text = text

    def parse(self, p):
        if not is_id(p.t[p.i], self.text):
            return False
        p.add(self.bits)
        p.i += 1
        return True

    def choices(self, rng):
        return (None, [self.text])

    def all_choices(self, rng):
        return [(None, [self.text])]


ald_p = req(".P", 1 << 31)
ald_phys = req(".PHYS")
b2r_warp = req(".WARP", 0xE << 32 | 0xFF << 8)
b2r_result = req(".RESULT", 0xD << 32 | 0xFF << 8)
cc_text = req("CC")
lop3_lut = req(".LUT")
lea_hi = req(".HI")
shf_r = req(".R")
shf_l = req(".L")
image_p = req(".P")
image_d = req(".D", 1 << 52)
b_text = req(".B")
lod_text = req(".LOD")


class _LeaLo(Slot):
    optional = True

    def parse(self, p):
        if is_id(p.t[p.i], ".LO"):
            p.i += 1
        return True

    def choices(self, rng):
        return (None, [".LO"] if rng.random() < 0.3 else [])

    def all_choices(self, rng):
        return [(None, []), (None, [".LO"])]


lea_lo = _LeaLo()


class pred(Slot):
    def __init__(self, addr, negable=False):
        self.addr, self.negable = addr, negable

    def parse(self, p):
        t = p.t[p.i]
        if t.k != PRED or (t.d[1] and not self.negable):
            return False
        p.add((t.d[0] | (8 if t.d[1] else 0)) << self.addr)
        p.i += 1
        return True

    def choices(self, rng):
        v = rng.randrange(8)
        n = self.negable and rng.random() < 0.4
        return ((v, n), [("!" if n else "") + ("PT" if v == 7 else "P%d" % v)])

    def all_choices(self, rng):
        return [((v, n), [("!" if n else "") + ("PT" if v == 7 else "P%d" % v)])
                for v in range(8) for n in ((False, True) if self.negable else (False,))]


class inverted_pred(pred):
    def parse(self, p):
        t = p.t[p.i]
        if t.k != PRED or t.d[1]:
            return False
        p.add((7 - t.d[0]) << self.addr)
        p.i += 1
        return True


class mark(Slot):
    """Optional prefix operator: '-' or '~'."""
    optional = True

    def __init__(self, ch, addr):
        self.ch, self.addr = ch, addr

    def parse(self, p):
        t = p.t[p.i]
        if t.k == OP and t.d == self.ch:
            if p.v >> self.addr & 1:
                if self.ch == "-":
                    return False
                raise Overlap("tilde")
            p.v |= 1 << self.addr
            p.i += 1
        return True

    def choices(self, rng):
        return (1, [self.ch]) if rng.random() < 0.3 else (0, [])

    def all_choices(self, rng):
        return [(0, []), (1, [self.ch])]


def neg(addr):
    return mark("-", addr)


def tilde(addr):
    return mark("~", addr)


class abs(Slot):            # noqa: A001 (mirrors the operand's name)
    def __init__(self, addr, inner):
        self.addr = addr
        self.inner = inner if isinstance(inner, Slot) else inner()

    def parse(self, p):
        t = p.t[p.i]
        bar = t.k == OP and t.d == "|"
        if bar:
            p.add(1 << self.addr)
            p.i += 1
        if not self.inner.parse(p):
            return False
        if bar:
            t = p.t[p.i]
            if t.k != OP or t.d != "|":
                return False
            p.i += 1
        return True

    def choices(self, rng):
        k, t = self.inner.choices(rng)
        if rng.random() < 0.3:
            return ((k, 1), ["|"] + t + ["|"])
        return ((k, 0), t)

    def all_choices(self, rng):
        out = []
        for k, t in self.inner.all_choices(rng):
            out.append(((k, 0), t))
            out.append(((k, 1), ["|"] + t + ["|"]))
        return out


class po(Slot):
    optional = True

    def __init__(self, a, b):
        self.a, self.b = a, b

    def parse(self, p):
        if is_id(p.t[p.i], ".PO"):
            p.add(1 << self.a | 1 << self.b)
            p.i += 1
        return True

    def choices(self, rng):
        return (1, [".PO"]) if rng.random() < 0.15 else (0, [])

    def all_choices(self, rng):
        return [(0, []), (1, [".PO"])]


class default_rz(Slot):
    optional = True

    def __init__(self, addr):
        self.addr = addr

    def parse(self, p):
        p.add(0xFF << self.addr)
        return True

    def choices(self, rng):
        return (None, [])

    def all_choices(self, rng):
        return [(None, [])]


def spell_int(rng, v):
    """One of the spellings of an integer."""
    r = rng.random()
    a = -v if v < 0 else v
    if r < 0.5:
        s = "0x%x" % a
        if rng.random() < 0.2:
            s = "0x" + ("%x" % a).upper()
        if rng.random() < 0.1:
            s = "0X" + s[2:]
    elif r < 0.9:
        s = "%d" % a
    else:
        s = "0%o" % a if a else "0"
    if v < 0:
        return "-" + s
    if rng.random() < 0.05:
        return "+" + s
    return s


def edge_values(lo, hi, align=1):
    """In-range values at and around every boundary of [lo, hi]."""
    s = {lo, hi // align * align, 0, align, lo + align, (hi - align) // align * align}
    b = 1
    while b <= hi or b <= -lo:
        for v in (b, b - align, b + align, -b, -b - align, -b + align):
            s.add(v // align * align)
        b <<= 1
    return sorted(v for v in s if lo <= v <= hi and v % align == 0)


class num(Slot):
    """Integer in [lo, hi], stored in `bits` bits at addr."""

    def __init__(self, lo, hi, addr, bits):
        self.lo, self.hi, self.addr, self.bits = lo, hi, addr, bits
        self.numeric = (lo, hi, 1)

    def parse(self, p):
        t = p.t[p.i]
        if t.k != INT or not self.lo <= t.d <= self.hi:
            return False
        p.add((t.d & ((1 << self.bits) - 1)) << self.addr)
        p.i += 1
        return True

    def pick(self, rng):
        if rng.random() < 0.4:
            return rng.choice(edge_values(self.lo, self.hi))
        return rng.randint(self.lo, self.hi)

    def choices(self, rng):
        v = self.pick(rng)
        return (v, [spell_int(rng, v)])

    def all_choices(self, rng):
        if self.hi - self.lo < 300:
            vs = range(self.lo, self.hi + 1)
        else:
            vs = set(edge_values(self.lo, self.hi)) | {rng.randint(self.lo, self.hi)
                                                       for _ in range(8)}
            vs = sorted(vs)
        return [(v, [spell_int(rng, v)]) for v in vs]


def uinteger(bits, addr):
    return num(0, (1 << bits) - 1, addr, bits)


def sinteger(bits, addr):
    return num(-(1 << bits - 1), (1 << bits - 1) - 1, addr, bits)


def mask4(addr):
    return uinteger(4, addr)


def uimm32():
    return uinteger(32, 20)


def simm32():
    return sinteger(32, 20)


def uimm16():
    return uinteger(16, 20)


nop_mask = uimm16


class split20(num):
    """20-bit immediate: low 19 bits at 20, top bit at 56."""

    def parse(self, p):
        t = p.t[p.i]
        if t.k != INT or not self.lo <= t.d <= self.hi:
            return False
        v = t.d & 0xFFFFF
        p.add((v & 0x7FFFF) << 20 | (v >> 19) << 56)
        p.i += 1
        return True


def imm():
    return split20(-(1 << 19), (1 << 19) - 1, 20, 20)


def uimm_extended():
    return split20(0, (1 << 20) - 1, 20, 20)


class _Zero(Slot):
    numeric = (0, 0, 1)

    def parse(self, p):
        t = p.t[p.i]
        if t.k != INT or t.d != 0:
            return False
        p.i += 1
        return True

    def choices(self, rng):
        return (None, [rng.choice(["0", "0x0", "00", "0"])])

    def all_choices(self, rng):
        return [(None, ["0"]), (None, ["0x0"])]


zero = _Zero()


def float_text(rng):
    """A floating-point literal (or integer / special) spelling."""
    r = rng.random()
    if r < 0.08:
        return [rng.choice(["+", "-", ""]), rng.choice(["INF", "QNAN"])]
    if r < 0.2:
        v = rng.choice([0, 1, -1, 2, 10, 255, 1024, 65504, 65536, -7, 1 << 24, -(1 << 24),
                        1 << 62, -(1 << 63), rng.randrange(-(1 << 20), 1 << 20)])
        return [spell_int(rng, v)]
    s = rng.choice(["", "", "", "-", "+"])
    r = rng.random()
    if r < 0.25:
        b = rng.choice(["0.0", "0.", "1.0", "0.5", "2.0", "1.5", "0.25", "3.14159265", "100.0",
                        "0.1", "65504.0", "65519.99", "65520.0", "65536.0", "0.00006103515625",
                        "0.000000059604644775390625", "0.00000002980232238769531", "340282346638528859811704183484516925440.0",
                        "340282366920938463463374607431768211456.0", "00001.5"])
    elif r < 0.5:
        b = "%d.%0*d" % (rng.randrange(10 ** rng.randint(1, 6)), rng.randint(1, 9),
                         rng.randrange(10 ** rng.randint(1, 8)))
    elif r < 0.75:
        # exactly representable: k * 2^e
        from fractions import Fraction
        k = rng.randrange(1, 1 << rng.randint(1, 24))
        e = rng.randint(-20, 20)
        b = _dec(Fraction(k) * Fraction(2) ** e)
    else:
        # halfway points and their neighbours around a half / single precision value
        from fractions import Fraction
        mb = rng.choice([10, 23, 10, 8])
        m = (1 << mb) + rng.randrange(1 << mb)
        e = rng.randint(-18, 17)
        v = (Fraction(2 * m + 1, 2) + rng.choice([0, 0, Fraction(1, 1 << 12),
                                                  -Fraction(1, 1 << 12), Fraction(1, 1 << 20),
                                                  Fraction(1, 1 << 30), -Fraction(1, 1 << 30)])) \
            * Fraction(2) ** (e - mb)
        b = _dec(v)
    return [s + b] if s != "" else [b]


def _dec(fr):
    """Exact decimal expansion of a dyadic fraction."""
    p, q = fr.numerator, fr.denominator
    k = q.bit_length() - 1
    ip, r = divmod(p, q)
    if k == 0:
        return "%d.0" % ip
    return "%d.%0*d" % (ip, k, r * 5 ** k)


def float_tokens(rng):
    t = [s for s in float_text(rng) if s]
    return t


class fp_base(Slot):
    is_float = True

    def operand(self, p):
        """-> ('f', body) | ('i', v) | ('s', neg, name) and advances, or None"""
        t = p.t[p.i]
        if t.k == FLT:
            p.i += 1
            return ("f", t.d)
        if t.k == INT:
            p.i += 1
            return ("i", t.d)
        n = False
        if t.k == OP and t.d in "+-":
            n = t.d == "-"
            p.i += 1
            t = p.t[p.i]
        if t.k == ID and t.d in ("QNAN", "INF"):
            p.i += 1
            return ("s", n, t.d)
        return None

    def parse(self, p):
        o = self.operand(p)
        if o is None:
            return False
        b = self.encode(o)
        if b is None:
            return False
        p.add(b)
        return True

    def choices(self, rng):
        t = float_tokens(rng)
        return (self.key(t), t)

    def key(self, toks):
        from .lex import lex
        st = P(lex(" ".join(toks) + " ;"), 0)
        o = self.operand(st)
        return self.encode(o) if o else None

    def all_choices(self, rng):
        out = [self.choices(rng) for _ in range(24)]
        for t in (["INF"], ["-", "INF"], ["+", "INF"], ["QNAN"], ["-", "QNAN"], ["-0.0"], ["0.0"],
                  ["1.0"], ["-1.0"], ["0"], ["1"], ["-1"]):
            out.append((self.key(t), t))
        return out


class f32imm(fp_base):
    def __init__(self, bits):
        self.bits = bits

    def encode(self, o):
        if o[0] == "f":
            n, b = f32_bits(o[1])
        elif o[0] == "i":
            n = o[1] < 0
            b, exact = int_f32(o[1])
            if not exact:
                return None
        else:
            n = o[1]
            b = 0x7F800000 if o[2] == "INF" else 0x7FC00000
        if self.bits == 32:
            return (b | (n << 31)) << 20
        return (b >> 12) << 20 | (n << 56)


def fimm():
    return f32imm(20)


def fimm32():
    return f32imm(32)


class dimm20(fp_base):
    def encode(self, o):
        if o[0] == "f":
            n, b = f64_bits(o[1])
        elif o[0] == "i":
            n, b = o[1] < 0, int_f64(o[1])
        else:
            n = o[1]
            b = 0x7FF << 52 if o[2] == "INF" else 0x7FF8 << 48
        return (b >> 44) << 20 | (n << 56)


class f16imm(fp_base):
    def __init__(self, bits, offset, neg_bit):
        self.bits, self.offset, self.neg_bit = bits, offset, neg_bit

    def encode(self, o):
        if o[0] == "f":
            n, b = f16_via_f32(o[1])
        elif o[0] == "i":
            n = o[1] < 0
            b = f16_bits_of(f32_value(int_f32(o[1])[0]))
        else:
            n = o[1]
            b = 0x7C00 if o[2] == "INF" else 0x7FFF
        if self.bits == 9:
            return (b >> 6) << self.offset | n << self.neg_bit
        return (b | n << 15) << self.offset


def fimm9_low(neg_bit):
    return f16imm(9, 20, neg_bit)


def fimm9_high(neg_bit):
    return f16imm(9, 30, neg_bit)


def fimm16_low():
    return f16imm(16, 20, None)


def fimm16_high():
    return f16imm(16, 36, None)


def _op(p, ch):
    t = p.t[p.i]
    if t.k == OP and t.d == ch:
        p.i += 1
        return True
    return False


def _int(p, lo, hi, align=1):
    t = p.t[p.i]
    if t.k != INT or not lo <= t.d <= hi or t.d % align:
        return None
    p.i += 1
    return t.d


class cbuf(Slot):
    numeric_parts = (("index", 0, 31, 1), ("offset", -32768, 32767, 4))

    def parse(self, p):
        if not is_id(p.t[p.i], "c"):
            return False
        p.i += 1
        if not _op(p, "["):
            return False
        i = _int(p, 0, 31)
        if i is None or not _op(p, "]") or not _op(p, "["):
            return False
        o = _int(p, -32768, 32767, 4)
        if o is None or not _op(p, "]"):
            return False
        p.add(i << 34 | ((o & 0xFFFF) >> 2) << 20)
        return True

    def text(self, rng, i, o):
        return ["c", "[", spell_int(rng, i), "]", "[", spell_int(rng, o), "]"]

    def choices(self, rng):
        i = rng.randrange(32)
        if rng.random() < 0.4:
            o = rng.choice(edge_values(-32768, 32767, 4))
        else:
            o = rng.randrange(-8192, 8192) * 4
        return ((i, o), self.text(rng, i, o))

    def all_choices(self, rng):
        out = [((i, 4 * i), self.text(rng, i, 4 * i)) for i in range(32)]
        out += [((5, o), self.text(rng, 5, o)) for o in edge_values(-32768, 32767, 4)]
        return out


class memory_address(Slot):
    def __init__(self, has_imm=True, addr=20, size=24, shr=0):
        self.has_imm, self.addr, self.size, self.shr = has_imm, addr, size, shr

    def range_for(self, reg):
        if reg == 255:
            return 0, (1 << self.size) - 1
        return -(1 << self.size - 1), (1 << self.size - 1) - 1

    def parse(self, p):
        if not _op(p, "["):
            return False
        reg = 255
        t = p.t[p.i]
        if t.k == REG:
            reg = t.d
            p.i += 1
            if is_id(p.t[p.i], ".reuse"):
                p.r |= 1
                p.i += 1
        p.add(reg << 8)
        if self.has_imm and p.t[p.i].k == INT:
            lo, hi = self.range_for(reg)
            v = _int(p, lo, hi, 1 << self.shr)
            if v is None:
                return False
            p.add(((v >> self.shr) & ((1 << self.size) - 1)) << self.addr)
        return _op(p, "]")

    def imm_text(self, rng, reg, v):
        s = spell_int(rng, v)
        if reg is not None and s[0] not in "+-":
            s = "+" + s
        return s

    def build(self, rng, reg, reuse, v):
        """reg None: omitted"""
        t = ["["]
        if reg is not None:
            t.append("RZ" if reg == 255 else "R%d" % reg)
            if reuse:
                t.append(".reuse")
        if v is not None:
            t.append(self.imm_text(rng, reg, v))
        return t + ["]"]

    def choices(self, rng):
        reg = reg_text(rng)[0]
        wr = None if (reg == 255 and rng.random() < 0.4) else reg
        reuse = wr is not None and rng.random() < 0.1
        v = None
        if self.has_imm and rng.random() < 0.7:
            lo, hi = self.range_for(reg)
            if rng.random() < 0.4:
                v = rng.choice(edge_values(lo, hi, 1 << self.shr))
            else:
                v = rng.randrange(lo >> self.shr, (hi >> self.shr) + 1) << self.shr
        return ((reg, reuse, v or 0), self.build(rng, wr, reuse, v))

    def all_choices(self, rng):
        out = [((r, False, 0), self.build(rng, r, False, None)) for r in range(256)]
        out.append(((255, False, 0), ["[", "]"]))
        out.append(((3, True, 0), self.build(rng, 3, True, None)))
        if self.has_imm:
            for r in (None, 255, 0, 254):
                rr = 255 if r is None else r
                for v in edge_values(*self.range_for(rr), 1 << self.shr):
                    out.append(((rr, False, v), self.build(rng, r, False, v)))
        return out


class ldc_address(Slot):
    def __init__(self):
        self.mem = memory_address(True, 20, 16, 0)

    def parse(self, p):
        if not is_id(p.t[p.i], "c"):
            return False
        p.i += 1
        if not _op(p, "["):
            return False
        i = _int(p, 0, 31)
        if i is None or not _op(p, "]"):
            return False
        p.add(i << 36)
        return self.mem.parse(p)

    def choices(self, rng):
        i = rng.randrange(32)
        k, t = self.mem.choices(rng)
        return ((i, k), ["c", "[", spell_int(rng, i), "]"] + t)

    def all_choices(self, rng):
        out = [((i, (255, False, 0)), ["c", "[", spell_int(rng, i), "]", "[", "]"])
               for i in range(32)]
        out += [((7, k), ["c", "[", "7", "]"] + t) for k, t in self.mem.all_choices(rng)]
        return out


class attr(Slot):
    def __init__(self, kind):
        self.kind = kind

    def parse(self, p):
        if not is_id(p.t[p.i], "a"):
            return False
        p.i += 1
        if not _op(p, "["):
            return False
        if self.kind == "imm":
            v = _int(p, 0, 1023)
            if v is None:
                return False
            p.add(v << 20 | 0xFF << 8)
        else:
            if not gpr(8).parse(p):
                return False
            if self.kind == "patch":
                _op(p, "+")
                v = _int(p, -1024, 1023)
                if v is None:
                    return False
                p.add((v & 0x7FF) << 20)
        return _op(p, "]")

    def build(self, rng, regt, v):
        t = ["a", "["] + regt
        if v is not None:
            s = spell_int(rng, v)
            if regt and rng.random() < 0.3:
                t.append("+")
            elif regt and s[0] not in "+-":
                s = "+" + s
            t.append(s)
        return t + ["]"]

    def choices(self, rng):
        if self.kind == "imm":
            v = rng.choice(edge_values(0, 1023)) if rng.random() < 0.4 else rng.randrange(1024)
            return (v, self.build(rng, [], v))
        k, t = gpr(8).choices(rng)
        if self.kind == "phys":
            return (k, self.build(rng, t, None))
        v = rng.choice(edge_values(-1024, 1023)) if rng.random() < 0.4 else rng.randint(-1024, 1023)
        return ((k, v), self.build(rng, t, v))

    def all_choices(self, rng):
        if self.kind == "imm":
            return [(v, self.build(rng, [], v)) for v in range(1024)]
        if self.kind == "phys":
            return [(k, self.build(rng, t, None)) for k, t in gpr(8).all_choices(rng)]
        out = [((k, 4), self.build(rng, t, 4)) for k, t in gpr(8).all_choices(rng)]
        return out + [(((9, False), v), self.build(rng, ["R9"], v))
                      for v in edge_values(-1024, 1023)]


ald_imm_attr = attr("imm")
ald_patch_attr = attr("patch")
ald_phys_attr = attr("phys")


class _FlowTests(Slot):
    optional = True
    names = {"." + n: i for i, n in enumerate(_CC_TESTS)}

    def parse(self, p):
        v = 15
        if is_id(p.t[p.i], "CC"):
            p.i += 1
            t = p.t[p.i]
            if t.k != ID or t.d not in self.names:
                return False
            v = self.names[t.d]
            p.i += 1
        p.add(v)
        return True

    def choices(self, rng):
        if rng.random() < 0.3:
            return (15, [])
        n = rng.choice(list(self.names))
        return (self.names[n], ["CC", n])

    def all_choices(self, rng):
        return [(15, [])] + [(v, ["CC", n]) for n, v in self.names.items()]


flow_tests = _FlowTests()


class _XmadSigns(Slot):
    optional = True

    def parse(self, p):
        t = p.t[p.i]
        if t.k != ID or t.d not in (".S16", ".U16"):
            return True
        u_ = p.t[p.i + 1]
        if u_.k != ID or u_.d not in (".S16", ".U16"):
            return False
        p.add((t.d == ".S16") << 48 | (u_.d == ".S16") << 49)
        p.i += 2
        return True

    def choices(self, rng):
        if rng.random() < 0.4:
            return ((0, 0), [])
        return rng.choice(self.all_choices(rng))

    def all_choices(self, rng):
        return [((0, 0), [])] + [((a, b), [".S16" if a else ".U16", ".S16" if b else ".U16"])
                                 for a in (0, 1) for b in (0, 1)]


xmad_signs = _XmadSigns()


class _F2FRounding(Slot):
    optional = True
    same = {".ROUND": 8, ".FLOOR": 9, ".CEIL": 10, ".TRUNC": 11, ".PASS": 3}
    diff = {".RN": 0, ".RM": 1, ".RP": 2, ".RZ": 3}

    def parse(self, p):
        names = self.same if (p.v >> 8 & 3) == (p.v >> 10 & 3) else self.diff
        t = p.t[p.i]
        v = names.get(t.d) if t.k == ID else None
        if v is not None:
            p.i += 1
        p.add((v or 0) << 39)
        return True

    def choices(self, rng):
        return rng.choice(self.all_choices(rng)) if rng.random() < 0.5 else ("none", [])

    def all_choices(self, rng):
        return [("none", [])] + [("none" if n == ".RN" else n, [n])
                                 for n in list(self.same) + list(self.diff)]


f2f_rounding = _F2FRounding()


class intfmt(Slot):
    """.Uxx / .Sxx: index at addr, signedness at sign_addr."""

    def __init__(self, addr, sign_addr, uns, sig):
        self.addr, self.sign_addr = addr, sign_addr
        self.names = {"." + n: (i, 0) for i, n in enumerate(uns)}
        self.names.update({"." + n: (i, 1) for i, n in enumerate(sig)})

    def parse(self, p):
        t = p.t[p.i]
        if t.k != ID or t.d not in self.names:
            return False
        i, s = self.names[t.d]
        p.add(i << self.addr | s << self.sign_addr)
        p.i += 1
        return True

    def choices(self, rng):
        n = rng.choice(list(self.names))
        return (self.names[n], [n])

    def all_choices(self, rng):
        return [(v, [n]) for n, v in self.names.items()]


def f2i_int_format():
    return intfmt(8, 12, ("INVALID0", "U16", "U32", "U64"), ("INVALID1", "S16", "S32", "S64"))


def i2f_int_format():
    return intfmt(10, 13, ("U8", "U16", "U32", "U64"), ("S8", "S16", "S32", "S64"))


def i2i_format(addr, sign):
    return intfmt(addr, sign, ("U8", "U16", "U32"), ("S8", "S16", "S32"))


class _ConvSelector(Slot):
    """Byte or half selector of a conversion source, depending on the source format at bit 10."""
    optional = True
    bytes_ = {".B0": 0, ".B1": 1, ".B2": 2, ".B3": 3}
    shorts = {".H0": 0, ".INVALIDSIZE1": 1, ".H1": 2, ".INVALIDSIZE3": 3}

    def parse(self, p):
        names = self.shorts if (p.v >> 10 & 3) == 1 else self.bytes_
        t = p.t[p.i]
        v = names.get(t.d) if t.k == ID else None
        if v is not None:
            p.i += 1
        p.add((v or 0) << 41)
        return True

    def choices(self, rng):
        return rng.choice(self.all_choices(rng)) if rng.random() < 0.5 else (0, [])

    def all_choices(self, rng):
        # byte and half selectors are never valid on the same source format, so equal values of
        # the two families are never compared
        return [(0, [])] + [(v, [n]) for n, v in self.bytes_.items()] + \
               [(v, [n]) for n, v in self.shorts.items()]


i2f_selector = i2i_selector = _ConvSelector()


class _S2R(Slot):
    names = None

    def __init__(self):
        if _S2R.names is None:
            n = {"SR%d" % i: i for i in (12, 13, 14, 43, 63, 65, 68, 69, 70, 71)}
            n.update({"SR%d" % i: i for i in range(84, 96)})
            n.update({"SR%d" % i: i for i in range(100, 256)})
            n.update({
                "SR_LANEID": 0, "SR_CLOCK": 1, "SR_VIRTCFG": 2, "SR_VIRTID": 3,
                "SR_ORDERING_TICKET": 15, "SR_PRIM_TYPE": 16, "SR_INVOCATION_ID": 17,
                "SR_Y_DIRECTION": 18, "SR_THREAD_KILL": 19, "SM_SHADER_TYPE": 20,
                "SR_DIRECTCBEWRITEADDRESSLOW": 21, "SR_DIRECTCBEWRITEADDRESSHIGH": 22,
                "SR_DIRECTCBEWRITEENABLED": 23, "SR_MACHINE_ID_0": 24, "SR_MACHINE_ID_1": 25,
                "SR_MACHINE_ID_2": 26, "SR_MACHINE_ID_3": 27, "SR_AFFINITY": 28,
                "SR_INVOCATION_INFO": 29, "SR_WSCALEFACTOR_XY": 30, "SR_WSCALEFACTOR_Z": 31,
                "SR_TID": 32, "SR_TID .X": 33, "SR_TID .Y": 34, "SR_TID .Z": 35,
                "SR_CTA_PARAM": 36, "SR_CTAID .X": 37, "SR_CTAID .Y": 38, "SR_CTAID .Z": 39,
                "SR_NTID": 40, "SR_CirQueueIncrMinusOne": 41, "SR_NLATC": 42,
                "SR_SM_SPA_VERSION": 44, "SR_MULTIPASSSHADERINFO": 45, "SR_LWINHI": 46,
                "SR_SWINHI": 47, "SR_SWINLO": 48, "SR_SWINSZ": 49, "SR_SMEMSZ": 50,
                "SR_SMEMBANKS": 51, "SR_LWINLO": 52, "SR_LWINSZ": 53, "SR_LMEMLOSZ": 54,
                "SR_LMEMHIOFF": 55, "SR_EQMASK": 56, "SR_LTMASK": 57, "SR_LEMASK": 58,
                "SR_GTMASK": 59, "SR_GEMASK": 60, "SR_REGALLOC": 61, "SR_BARRIERALLOC": 62,
                "SR_GLOBALERRORSTATUS": 64, "SR_WARPERRORSTATUS": 66,
                "SR_WARPERRORSTATUSCLEAR": 67, "SR_CLOCKLO": 80, "SR_CLOCKHI": 81,
                "SR_GLOBALTIMERLO": 82, "SR_GLOBALTIMERHI": 83, "SR_HWTASKID": 96,
                "SR_CIRCULARQUEUEENTRYINDEX": 97, "SR_CIRCULARQUEUEENTRYADDRESSLOW": 98,
                "SR_CIRCULARQUEUEENTRYADDRESSHIGH": 99,
            })
            n.update({"SR_PM%d" % i: 4 + i for i in range(8)})
            n.update({"SR_PM_HI%d" % i: 72 + i for i in range(8)})
            _S2R.names = n

    def parse(self, p):
        t = p.t[p.i]
        if t.k != ID or "." in t.d:
            return False
        u_ = p.t[p.i + 1]
        if t.d in ("SR_TID", "SR_CTAID") and u_.k == ID and u_.d in (".X", ".Y", ".Z"):
            p.i += 2
            p.add(self.names[t.d + " " + u_.d] << 20)
            return True
        v = self.names.get(t.d)
        if v is None:
            return False
        p.i += 1
        p.add(v << 20)
        return True

    def choices(self, rng):
        n = rng.choice(list(self.names))
        return (self.names[n], n.split())

    def all_choices(self, rng):
        return [(v, n.split()) for n, v in self.names.items()]


s2r = _S2R()


class _LdgSize(Slot):
    optional = True
    names = {"U8": 0, "S8": 1, "U16": 2, "S16": 3, "32": 4, "64": 5, "128": 6}

    def parse(self, p):
        t = p.t[p.i]
        if t.k == ID and t.d == ".U":
            if not is_id(p.t[p.i + 1], ".128"):
                return False
            p.i += 2
            p.add(7 << 48)
            return True
        v = 4
        if t.k == ID and t.d[0] == "." and t.d[1:] in self.names:
            v = self.names[t.d[1:]]
            p.i += 1
        p.add(v << 48)
        return True

    def choices(self, rng):
        return rng.choice(self.all_choices(rng))

    def all_choices(self, rng):
        return [(4, []), (7, [".U", ".128"])] + [(v, ["." + n]) for n, v in self.names.items()]


ldg_size = _LdgSize()


class atomic_size(Slot):
    optional = True
    names = {(".U32",): 0, (".S32",): 1, (".U64",): 2, (".F32", ".FTZ", ".RN"): 3,
             (".F16x2", ".RN"): 4, (".S64",): 5}

    def __init__(self, addr):
        self.addr = addr

    def parse(self, p):
        t = p.t[p.i]
        v = 0
        if t.k == ID:
            for seq, val in self.names.items():
                if t.d == seq[0]:
                    for j, s in enumerate(seq):
                        if not is_id(p.t[p.i + j], s):
                            return False
                    p.i += len(seq)
                    v = val
                    break
        p.add(v << self.addr)
        return True

    def choices(self, rng):
        return rng.choice(self.all_choices(rng))

    def all_choices(self, rng):
        return [(0, [])] + [(v, list(s)) for s, v in self.names.items()]


class video_src_format(Slot):
    optional = True
    names = {".S8": (0, 1), ".S16": (2, 1), ".S32": (3, 1), ".U8": (0, 0), ".U16": (2, 0),
             ".U32": (3, 0)}

    def __init__(self, addr, sign_addr):
        self.addr, self.sign_addr = addr, sign_addr

    def parse(self, p):
        t = p.t[p.i]
        v = self.names.get(t.d) if t.k == ID else None
        if v is not None:
            p.i += 1
        else:
            v = (3, 1)
        p.add(v[0] << self.addr | v[1] << self.sign_addr)
        return True

    def choices(self, rng):
        return rng.choice(self.all_choices(rng))

    def all_choices(self, rng):
        return [((3, 1), [])] + [(v, [n]) for n, v in self.names.items()]


class video_imm_format(Slot):
    optional = True
    names = {".U16": 0, ".S16": 1}

    def __init__(self, addr, sign_addr):
        self.sign_addr = sign_addr

    def parse(self, p):
        t = p.t[p.i]
        v = self.names.get(t.d) if t.k == ID else None
        if v is not None:
            p.i += 1
        else:
            v = 1
        p.add(v << self.sign_addr)
        return True

    def choices(self, rng):
        return rng.choice(self.all_choices(rng))

    def all_choices(self, rng):
        return [(1, []), (1, [".S16"]), (0, [".U16"])]


class video_selector(Slot):
    """Selector sharing bits with the source format: bytes for 8-bit sources, halves for 16-bit
    ones; a 32-bit source has none but B0."""
    optional = True
    bytes_ = {".B0": 0, ".B1": 1, ".B2": 2, ".B3": 3}
    shorts = {".H0": 0, ".H1": 1}

    def __init__(self, addr, type_addr):
        self.addr, self.type_addr = addr, type_addr

    def parse(self, p):
        names = self.shorts if (p.v >> self.type_addr & 7) == 2 else self.bytes_
        t = p.t[p.i]
        v = names.get(t.d) if t.k == ID else None
        if v is not None:
            if p.v >> self.addr & v:
                return False
            p.i += 1
            p.v |= v << self.addr
        return True

    def choices(self, rng):
        return rng.choice(self.all_choices(rng))

    def all_choices(self, rng):
        return [(0, [])] + [(v, [n]) for n, v in self.bytes_.items()] + \
               [(v, [n]) for n, v in self.shorts.items()]


class texs_mode(Slot):
    optional = True

    def __init__(self, addr):
        pass

    def parse(self, p):
        lod, dc_ = None, False
        t = p.t[p.i]
        if t.k == ID and t.d in (".LZ", ".LL"):
            lod = t.d
            p.i += 1
        if is_id(p.t[p.i], ".DC"):
            dc_ = True
            p.i += 1
        p.fields.append((lod, dc_))
        return True

    def choices(self, rng):
        return rng.choice(self.all_choices(rng))

    def all_choices(self, rng):
        return [((lo, d), ([lo] if lo else []) + ([".DC"] if d else []))
                for lo in (None, ".LZ", ".LL") for d in (False, True)]


_TEXS = {("1D", ".LZ", False): 0, ("2D", None, False): 1, ("2D", ".LZ", False): 2,
         ("2D", ".LL", False): 3, ("2D", None, True): 4, ("2D", ".LL", True): 5,
         ("2D", ".LZ", True): 6, ("ARRAY_2D", None, False): 7, ("ARRAY_2D", ".LZ", False): 8,
         ("ARRAY_2D", ".LZ", True): 9, ("3D", None, False): 10, ("3D", ".LZ", False): 11,
         ("CUBE", None, False): 12, ("CUBE", ".LL", False): 13}


class texs_type(Slot):
    def __init__(self, addr):
        self.addr = addr

    def parse(self, p):
        t = p.t[p.i]
        lod, dc_ = p.fields[-1]
        v = _TEXS.get((t.d, lod, dc_)) if t.k == ID else None
        if v is None:
            return False
        p.add(v << self.addr)
        p.i += 1
        return True

    def choices(self, rng):
        n = rng.choice(["1D", "2D", "2D", "ARRAY_2D", "3D", "CUBE"])
        return (n, [n])

    def all_choices(self, rng):
        return [(n, [n]) for n in ("1D", "2D", "ARRAY_2D", "3D", "CUBE")]


_TLDS = {("1D", 0, 0, 0): 0, ("1D", 1, 0, 0): 1, ("2D", 0, 0, 0): 2, ("2D", 0, 1, 0): 4,
         ("2D", 1, 0, 0): 5, ("2D", 0, 0, 1): 6, ("3D", 0, 0, 0): 7, ("ARRAY_2D", 0, 0, 0): 8,
         ("2D", 1, 1, 0): 12}


class tlds_type(Slot):
    """(type, LL, AOFFI, MS) -> mode; the three flags were parked at addr..addr+2."""

    def __init__(self, addr):
        self.addr = addr

    def parse(self, p):
        t = p.t[p.i]
        k = p.v >> self.addr & 7
        p.v &= ~(7 << self.addr)
        v = _TLDS.get((t.d, k & 1, k >> 1 & 1, k >> 2)) if t.k == ID else None
        if v is None:
            return False
        p.add(v << self.addr)
        p.i += 1
        return True

    def choices(self, rng):
        n = rng.choice(["1D", "2D", "2D", "2D", "ARRAY_2D", "3D"])
        return (n, [n])

    def all_choices(self, rng):
        return [(n, [n]) for n in ("1D", "2D", "ARRAY_2D", "3D")]


class _TexsSwizzle(Slot):
    one = {n: i for i, n in enumerate("R G B A RG RA GA BA".split())}
    two = {n: i for i, n in enumerate("RGB RGA RBA GBA RGBA".split())}

    def parse(self, p):
        names = self.one if (p.v >> 28 & 0xFF) == 0xFF else self.two
        t = p.t[p.i]
        v = names.get(t.d) if t.k == ID else None
        if v is None:
            return False
        p.add(v << 50)
        p.i += 1
        return True

    def choices(self, rng):
        n = rng.choice(list(self.one) + list(self.two))
        return (n, [n])

    def all_choices(self, rng):
        return [(n, [n]) for n in list(self.one) + list(self.two)]


texs_swizzle = _TexsSwizzle()


class _Label(Slot):
    """Branch target: a label or an absolute address, stored as a 24-bit signed displacement from
    the next slot (23 bits at 20, sign at 43)."""
    is_label = True

    def parse(self, p):
        t = p.t[p.i]
        if t.k == ID:
            a = p.labels.get(t.d)
            if a is None:
                return False
        elif t.k == INT:
            a = t.d
        else:
            return False
        v = a - p.pc - 8
        if not -(1 << 23) <= v < (1 << 23):
            return False
        p.add((v & 0x7FFFFF) << 20 | (v < 0) << 43)
        p.i += 1
        return True

    def choices(self, rng):
        # absolute address valid for any small program position
        v = rng.choice([0, 8, 0x10, 0x100, 0x7FFFF0, -0x700000, rng.randrange(-0x7FF000, 0x7FF000)])
        return (v, [spell_int(rng, v)])

    def all_choices(self, rng):
        return [(v, [spell_int(rng, v)]) for v in edge_values(-0x7FFFF0, 0x80000F)]


label_ = _Label()
