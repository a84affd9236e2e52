"""Reference assembler: the executable specification used as oracle by the monitors.

assemble(text) -> Result with .ok, .words, .why, .stmts (per instruction: word, control field, form).
"""
import re
import struct

from .lex import lex, ID, REG, PRED, INT, OP, EOF, BAD, UNSPEC
from .slots import P, is_id
from . import isa

NOP_PAD = 0x50B0000000070F00
EMPTY_CTL = 0x7E0
_label_re = re.compile(r"^([A-Za-z][A-Za-z0-9_]*):", re.M)
TYPES = {"vertex": 0, "tess_control": 1, "hull": 1, "tess_eval": 2, "domain": 2, "geometry": 3,
         "fragment": 4, "pixel": 4, "compute": 5}
MAX_INT = 0x7FFFFFFF
MAX_LOCAL = 0x3FFFFB0


class Result:
    __slots__ = ("ok", "words", "why", "stmts", "unspec", "dksh", "code", "bad_stmt")

    def __init__(self):
        self.ok = False
        self.words = None
        self.why = None
        self.stmts = []
        self.unspec = False
        self.dksh = None
        self.code = None
        self.bad_stmt = None


class Stmt:
    __slots__ = ("word", "ctl", "form", "first", "last", "guard", "reuse")


def slot_address(n):
    """Byte address of the n-th instruction."""
    return 8 * (n + 1) + 8 * (n // 3)


def find_labels(text):
    """label -> address; a label counts at the start of a line, the first definition wins."""
    out = {}
    done, n = 0, 0
    for m in _label_re.finditer(text):
        n += text.count(";", done, m.start())
        done = m.start()
        out.setdefault(m.group(1), slot_address(n))
    return out


class Reject(Exception):
    pass


def parse_ctl(toks, i):
    """Scheduling annotations -> (17-bit control value, next index)."""
    stall = wb = rb = None
    dep = 0
    yld = False
    while toks[i].k == OP and toks[i].d == "@":
        i += 1
        t = toks[i]
        if t.k != ID:
            raise Reject("annotation")
        if t.d in ("Y", "YIELD"):
            if yld:
                raise Reject("yield twice")
            yld = True
            i += 1
            continue
        if t.d not in ("WAIT", "WB", "RB", "DEP"):
            raise Reject("annotation")
        v = toks[i + 1] if toks[i].k != EOF else None
        if v is None or v.k != INT or not 0 <= v.d <= (15 if t.d == "WAIT" else 5):
            raise Reject("annotation value")
        if t.d == "WAIT":
            if stall is not None:
                raise Reject("WAIT twice")
            stall = v.d
        elif t.d == "WB":
            if wb is not None:
                raise Reject("WB twice")
            wb = v.d
        elif t.d == "RB":
            if rb is not None:
                raise Reject("RB twice")
            rb = v.d
        else:
            if dep >> v.d & 1:
                raise Reject("DEP twice")
            dep |= 1 << v.d
        i += 2
    ctl = (stall or 0) | yld << 4 | (7 if wb is None else wb) << 5 | (7 if rb is None else rb) << 8 \
        | dep << 11
    return ctl, i


def parse_stmt(toks, i, index, labels):
    """One instruction starting at toks[i] -> (Stmt, next index)."""
    st = Stmt()
    st.first = i
    guard = 7
    t = toks[i]
    if t.k == OP and t.d == "@":
        t = toks[i + 1] if t.k != EOF else t
        if t.k != PRED:
            raise Reject("guard")
        guard = t.d[0] | (8 if t.d[1] else 0)
        i += 2
        t = toks[i]
    if t.k != ID:
        raise Reject("expected mnemonic")
    forms = isa.BY_MNEMONIC.get(t.d)
    if not forms:
        raise Reject("unknown mnemonic")
    why = "no form of %s matches" % t.d
    for f in forms:
        if f.flags & isa.NO_PRED and guard != 7:
            why = "%s cannot be predicated" % t.d
            continue
        p = P(toks, i + 1, slot_address(index), labels)
        p.v = f.bits | guard << 16
        for s in f.slots:
            if not s.parse(p):
                break
        else:
            try:
                ctl, j = parse_ctl(toks, p.i)
            except Reject as e:
                why = str(e)
                continue
            if toks[j].k == OP and toks[j].d == ";":
                st.word, st.ctl, st.form = p.v, ctl | p.r << 17, f
                st.last, st.guard, st.reuse = j, guard, p.r
                return st, j + 1
            why = "expected ;"
    raise Reject(why)


def _line(text, pos):
    return text.count("\n", 0, pos)


def assemble(text):
    """text: str of latin-1 characters."""
    r = Result()
    if "\0" in text:
        r.why = "embedded NUL"
        return r
    toks = lex(text)
    last = toks[-1].k
    if last == BAD:
        r.why = "bad token: " + toks[-1].d
        return r
    if last == UNSPEC:
        r.unspec = True
        return r
    # slots look at most two tokens ahead
    toks = toks + [toks[-1]] * 3
    labels = find_labels(text)
    opt = {"type": None, "dksh": False, "gprs": 8, "wg": [1, 1, 1], "shared": 0, "local": 0}
    i = 0
    try:
        while toks[i].k != EOF:
            while toks[i].k == ID and toks[i].d[0] == ".":
                i = _option(text, toks, i, opt)
            st, i = parse_stmt(toks, i, len(r.stmts), labels)
            r.stmts.append(st)
    except Reject as e:
        r.why = str(e)
        return r
    r.code = layout([(s.word, s.ctl) for s in r.stmts])
    if opt["type"] is not None and opt["type"] != 5:
        r.why = "graphics headers are not supported"
        return r
    r.words = r.code
    if opt["dksh"]:
        e = labels.get("main")
        if e is None:
            r.why = "no entry point"
            return r
        if e % 32 != 8:
            r.why = "entry point not aligned"
            return r
        r.words = dksh(opt, e - 8, r.code)
        r.dksh = opt
    r.ok = True
    return r


def _option(text, toks, i, opt):
    name = toks[i].d
    line = _line(text, toks[i].s)

    def value(lo, hi):
        nonlocal i
        i += 1
        t = toks[i]
        if t.k != INT or _line(text, t.s) != line or not lo <= t.d <= hi:
            raise Reject("option value")
        return t.d
    if name in (".dksh", ".type"):
        if opt["type"] is not None:
            raise Reject("type twice")
        i += 1
        t = toks[i]
        if t.k != ID or t.d not in TYPES or _line(text, t.s) != line:
            raise Reject("program type")
        opt["type"] = TYPES[t.d]
        if name == ".dksh":
            opt["dksh"] = True
    elif name == ".num_gprs":
        opt["gprs"] = value(0, MAX_INT)
    elif name == ".workgroup_size":
        opt["wg"] = [value(0, MAX_INT) for _ in range(3)]
    elif name == ".shared_memory":
        opt["shared"] = value(0, MAX_INT)
    elif name == ".local_memory":
        opt["local"] = value(0, MAX_LOCAL)
    else:
        raise Reject("unknown option")
    i += 1
    if _line(text, toks[i].s) == line:
        raise Reject("new line after option")
    return i


def layout(items):
    """[(word, control)] -> words in bundles of four."""
    out = []
    for b in range(0, len(items), 3):
        part = items[b:b + 3]
        ctl = 0
        for k in range(3):
            ctl |= (part[k][1] if k < len(part) else EMPTY_CTL) << (21 * k)
        out.append(ctl)
        out += [w for w, _ in part] + [NOP_PAD] * (3 - len(part))
    return out


def _up(v, a):
    return (v + a - 1) // a * a


def dksh(opt, entry, code):
    size = len(code) * 8
    local = _up(opt["local"], 16)
    head = struct.pack("<6I", 0x48534B44, 24, 256, _up(size, 256), 24, 1)
    prog = struct.pack("<6I", opt["type"], entry, opt["gprs"], 0, 0, local * 32 + 0x800)
    comp = struct.pack("<8I", *opt["wg"], _up(opt["shared"], 256), local, 0, 0x800, 0)
    ctl = (head + prog + comp).ljust(256, b"\0")
    words = list(struct.unpack("<32Q", ctl)) + list(code)
    return words + [0] * (-len(code) % 32)
