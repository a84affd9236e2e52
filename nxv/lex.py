"""Lexical specification of the assembler's input language (independent of the C++ scanner)."""
import re
import sys
from fractions import Fraction

sys.set_int_max_str_digits(0)

ID, REG, PRED, INT, FLT, OP, EOF, BAD, UNSPEC = range(9)

SEP = " \t\r\n.+-~|[]@,;"
OPS = "+-~|[]@,;"
_ws = re.compile(r"[ \t\r\n]*")
_ident_tail = re.compile(r"[^ \t\r\n.+\-~|\[\]@,;\0]*")
_pred = re.compile(r"!?[Pp]([Tt0-9])?")
_num = re.compile(r"[0-9+\-A-Fa-fXx]*")
_hexch = re.compile(r"[A-Fa-fXx]")
_frac = re.compile(r"\.[0-9]*")
_flt = re.compile(r"[+-]?[0-9]+\.[0-9]*")
_int = re.compile(r"([+-]?)(?:0[xX]([0-9a-fA-F]+)|(0[0-7]*)|([1-9][0-9]*))")
_bin = re.compile(r"[+-]?0[bB][01]+")
_digits = re.compile(r"[0-9]*")


class Tok:
    __slots__ = ("k", "d", "s", "e")

    def __init__(self, k, d, s, e):
        self.k, self.d, self.s, self.e = k, d, s, e

    def __repr__(self):
        return "Tok(%d,%r)" % (self.k, self.d)


def lex(text):
    """Tokens of text (a str of latin-1 characters) ending in an EOF, BAD or UNSPEC token.

    Labels (identifiers ending in a colon) are layout and produce no token."""
    out = []
    n = len(text)
    pos = 0
    ws, tail = _ws.match, _ident_tail.match
    while True:
        pos = ws(text, pos).end()
        if pos >= n:
            out.append(Tok(EOF, None, n, n))
            return out
        c = text[pos]
        nxt = text[pos + 1] if pos + 1 < n else ""
        digit_next = "0" <= nxt <= "9"
        if c in OPS and not (c in "+-" and digit_next):
            out.append(Tok(OP, c, pos, pos + 1))
            pos += 1
            continue
        if c == "!" and nxt not in ("P", "p"):
            out.append(Tok(BAD, "stray !", pos, pos + 1))
            return out
        if c in "!Pp":
            m = _pred.match(text, pos)
            e = m.end()
            if m.group(1) and (e >= n or text[e] in SEP):
                neg = c == "!"
                g = m.group(1)
                if g in "Tt":
                    out.append(Tok(PRED, (7, neg), pos, e))
                elif g <= "6":
                    out.append(Tok(PRED, (int(g), neg), pos, e))
                else:
                    out.append(Tok(BAD, "predicate index", pos, e))
                    return out
                pos = e
                continue
            e = tail(text, e).end()
        elif ("0" <= c <= "9" or c in "+-") and nxt != "D":
            e = _num.match(text, pos).end()
            body = text[pos:e]
            if e < n and text[e] == ".":
                if _hexch.search(body):
                    out.append(Tok(BAD, "hex float", pos, e))
                    return out
                e = _frac.match(text, e).end()
                body = text[pos:e]
                ok = _flt.fullmatch(body)
                if (e < n and text[e] not in SEP) or not ok:
                    out.append(Tok(BAD, "float literal", pos, e))
                    return out
                out.append(Tok(FLT, body, pos, e))
                pos = e
                continue
            if e < n and text[e] not in SEP:
                out.append(Tok(BAD, "no separator after number", pos, e))
                return out
            m = _int.fullmatch(body)
            if not m:
                if _bin.fullmatch(body):
                    # 0b literals depend on the C library: not part of the language
                    out.append(Tok(UNSPEC, body, pos, e))
                else:
                    out.append(Tok(BAD, "int literal", pos, e))
                return out
            if m.group(2):
                v = int(m.group(2), 16)
            elif m.group(3):
                v = int(m.group(3), 8)
            else:
                v = int(m.group(4)) if len(m.group(4)) < 25 else 1 << 70
            if m.group(1) == "-":
                v = -v
            if not -(1 << 63) <= v < (1 << 63):
                out.append(Tok(BAD, "int range", pos, e))
                return out
            out.append(Tok(INT, v, pos, e))
            pos = e
            continue
        elif c == "R":
            if nxt == "Z":
                e = pos + 2
                if e < n and text[e] not in SEP:
                    out.append(Tok(BAD, "no separator after RZ", pos, e))
                    return out
                out.append(Tok(REG, 255, pos, e))
                pos = e
                continue
            e = _digits.match(text, pos + 1).end()
            if e > pos + 1 and (e >= n or text[e] in SEP):
                dg = text[pos + 1:e].lstrip("0")
                if len(dg) > 3 or int(dg or "0") > 254:
                    out.append(Tok(BAD, "register index", pos, e))
                    return out
                out.append(Tok(REG, int(dg or "0"), pos, e))
                pos = e
                continue
            e = tail(text, e).end()
        else:
            e = tail(text, pos + 1).end()
        if text[e - 1] == ":":
            pos = e
            continue
        out.append(Tok(ID, text[pos:e], pos, e))
        pos = e


def round_to(frac, mant_bits, emin, emax):
    """Round a non-negative Fraction to nearest-even in a binary format with mant_bits explicit
    fraction bits, minimum normal exponent emin and maximum exponent emax.
    Returns (biased exponent, fraction); overflow gives the infinity pattern."""
    if frac == 0:
        return 0, 0
    p, q = frac.numerator, frac.denominator
    e = p.bit_length() - q.bit_length()
    if (p << max(0, -e)) < (q << max(0, e)):
        e -= 1
    # now 2^e <= frac < 2^(e+1)
    e = max(e, emin)
    sh = mant_bits - e
    num, den = (p << sh, q) if sh >= 0 else (p, q << -sh)
    m, r = divmod(num, den)
    if 2 * r > den or (2 * r == den and (m & 1)):
        m += 1
    if m >> (mant_bits + 1):
        m >>= 1
        e += 1
    if e > emax:
        return emax - emin + 2, 0
    if m >> mant_bits:
        return e - emin + 1, m & ((1 << mant_bits) - 1)
    return 0, m


def _lit(body):
    neg = body[0] == "-"
    b = body.lstrip("+-")
    ip, _, fp = b.partition(".")
    return neg, Fraction(int((ip + fp) or "0"), 10 ** len(fp))


def f64_bits(body):
    neg, v = _lit(body)
    e, m = round_to(v, 52, -1022, 1023)
    return neg, (e << 52) | m


def f32_bits(body):
    neg, v = _lit(body)
    e, m = round_to(v, 23, -126, 127)
    return neg, (e << 23) | m


def f32_value(bits):
    """Value of non-negative f32 bits as Fraction, or None for inf/nan."""
    e, m = bits >> 23, bits & 0x7FFFFF
    if e == 255:
        return None
    if e == 0:
        return Fraction(m, 1 << 149)
    e -= 150
    m |= 0x800000
    return Fraction(m << e) if e >= 0 else Fraction(m, 1 << -e)


def f16_bits_of(v):
    e, m = round_to(v, 10, -14, 15)
    return (e << 10) | m


def f16_via_f32(body):
    neg, b = f32_bits(body)
    v = f32_value(b)
    return neg, (0x7C00 if v is None else f16_bits_of(v))


def int_f32(v):
    """f32 magnitude bits of an integer, and whether it is exact."""
    a = abs(v)
    e, m = round_to(Fraction(a), 23, -126, 127)
    b = (e << 23) | m
    return b, f32_value(b) == a


def int_f64(v):
    e, m = round_to(Fraction(abs(v)), 52, -1022, 1023)
    return (e << 52) | m
