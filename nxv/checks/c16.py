"""C16: diagnostics name the file, line and column of the offending statement."""
import os
import re
import shutil
import subprocess
import tempfile

from .. import gen, isa, refasm
from ..gen import join, loose_join, scatter
from ..core import b
from ..driver import run_one
from ..lex import EOF, ID, lex

LEVEL = "exploration"
NEEDS = [("plain", "driver"), ("plain", "cli")]
RULE = ("programs of well-formed statements with a malformed statement, and possibly others behind it (mutated instruction of every form, bad "
        "token, legal parts that do not go together, unknown mnemonic, guard or annotation fault, undefined label, unterminated end, faulty "
        "directive) at every position and in random layouts (tabs, CR, blank lines, labels, several statements per "
        "line), also with further malformed statements behind it, under various file names; the monitor computes the line and column of every token of the faulty "
        "statement from the text and requires the diagnostic's name and position to be among them; "
        "distinct by text; non-trivial = all")
ASSUMPTIONS = ["the statement a fault belongs to is delimited by the specification (nxv/refasm.py): it runs to "
               "its semicolon, or for a directive to the first token after its line"]
MINIMUM = {"quick": {"diagnostics located": 60000, "distinct forms": 265, "faulty directives": 3000,
                     "unterminated": 1000, "illegal combinations": 8000, "first of several faults": 5000, "diagnostics of the tool": 300, "distinct (line, column)": 3000}}

_head = re.compile(rb"^((?:\x1b\[[0-9;]*m)*)(.*?)(?:\x1b\[[0-9;]*m)*:(?:\x1b\[[0-9;]*m)*(\d+):(\d+):", re.S)
_ansi = re.compile(rb"\x1b\[[0-9;]*m")


def tasks(tier):
    q = tier == "quick"
    return [("huge", i) for i in range(1 if q else 3)] + [("far", i) for i in range(8 if q else 32)] + [("form", f.index, r) for r in range(1 if q else 10) for f in isa.FORMS] + \
        [("prog", i) for i in range(80 if q else 1200)] + [("dir", i) for i in range(24 if q else 240)]


def positions(text, offsets):
    """{offset: (line, column)}, 1-based, a tab counting four columns."""
    out = {}
    line = col = 1
    prev = 0
    for o in sorted(set(offsets)):
        for c in text[prev:o]:
            if c == "\n":
                line, col = line + 1, 1
            elif c == "\t":
                col += 4
            else:
                col += 1
        out[o] = (line, col)
        prev = o
    return out


def judge(name, allowed):
    def j(o):
        o = o[0]
        if not o.rejected:
            return "a program with a malformed statement must be rejected with a diagnostic: " + o.brief()
        d = _ansi.sub(b"", o.diag)
        if not d.startswith(name + b":"):
            return "the diagnostic does not start with the file name %r: %s" % (name, o.brief())
        m = re.match(rb"(\d+):(\d+):", d[len(name) + 1:])
        if not m:
            return "the diagnostic carries no line and column: " + o.brief()
        if (int(m.group(1)), int(m.group(2))) not in allowed:
            return "the diagnostic points at %s:%s, the tokens of the malformed statement are at %s: %s" % (
                m.group(1).decode(), m.group(2).decode(), sorted(allowed)[:40], o.brief())
    return j


NAMES = [b"file", b"shader.asm", b"/tmp/some dir/x.s", b"a:b", b"x", b"n" * 300, b"%s%n%d", b"1:2", b"\xc3\xa9.asm"]


def put(ctx, text, first, end, kind, cut=False):
    """The malformed statement has its first token at or after offset `first`; it ends before offset `end`
    (offset of the first token that is certainly not part of it)."""
    toks = lex(text)
    offs = [t.s for t in toks if first <= t.s < end]
    if cut:
        # a statement that stops early may be reported where its next token should have been
        offs += [t.s for t in toks if t.s >= end][:1]
    if not offs or "\0" in text:
        ctx.count("skipped")
        return
    pos = positions(text, offs)
    allowed = set(pos.values())
    name = ctx.rng.choice(NAMES)
    ctx.count("diagnostics located")
    ctx.count(kind)
    for p in list(allowed)[:3]:
        ctx.saw("(line, column)", p)
    ctx.submit([text], judge(name, allowed), names=[name])
    if ctx.rng.random() < (0.015 if ctx.quick else 0.004):
        tool(ctx, text, allowed)


PATHS = ["in.asm", "./in.asm", "d/in.asm", "a:b.s", "x y", "d/../d/q", "%s%n.asm", "x" * 200, "ABS", "1:2", "d//r.asm", ".hidden", "in"]


class Run:
    """What the tool did, in the terms of the judge."""

    def __init__(self, code, diag):
        self.diag = diag
        self.rejected = code == 1 and bool(diag)
        self.code = code

    def brief(self):
        return "exit %s: %s" % (self.code, _ansi.sub(b"", self.diag)[:200].decode("latin-1"))


def tool(ctx, text, allowed):
    """The same through the command-line tool, whose file name is the input path as given."""
    d = tempfile.mkdtemp(prefix="nxv-c16-")
    try:
        os.mkdir(os.path.join(d, "d"))
        p = ctx.rng.choice(PATHS)
        if p == "ABS":
            p = os.path.join(d, "d", "abs.asm")
        with open(os.path.join(d, p), "wb") as f:
            f.write(b(text))
        try:
            r = subprocess.run([ctx.paths[("plain", "cli")], p, "-o", "out"] if ctx.rng.random() < 0.5 else
                               [ctx.paths[("plain", "cli")], "-o", "out", p], cwd=d, stdin=subprocess.DEVNULL,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=60)
        except subprocess.TimeoutExpired:
            ctx.count("inconclusive: tool timeout")
            return
        o = Run(r.returncode, r.stdout)
        ctx.evals += 1
        ctx.count("diagnostics of the tool")
        why = judge(b(p), allowed)([o])
        if why:
            ctx.violation("command-line tool, input %s: %s" % (p, why), [text], [o.brief()])
    finally:
        shutil.rmtree(d, ignore_errors=True)


def stmt_text(rng, toks):
    r = rng.random()
    if r < 0.3:
        return join(toks)
    if r < 0.5:
        return loose_join(toks)
    return scatter(rng, toks, rng.choice([0.1, 0.4, 0.9]))


def gap(rng):
    r = rng.random()
    if r < 0.4:
        return "\n"
    if r < 0.55:
        return rng.choice([" ", "\t", "  ", "\t\t "])
    if r < 0.75:
        return rng.choice(["\n\n", "\r\n", "\n\t", "\n    ", "\n \t ", "\r\n\r\n"])
    return "\n" + rng.choice(["lab%d", "x_%d", "L%d"]) % rng.randrange(1000) + ":" + rng.choice(["\n", " ", "\t", "\n\n"])


def build(ctx, pool, bad, after=True):
    """Random program around the text of one malformed statement -> text, offset of the bad statement, offset
    of the next statement."""
    rng = ctx.rng
    out = [rng.choice(["", "", "\n", "\t", "  ", "\n\n\t"])]
    if rng.random() < 0.1:
        # a container, and branches to labels among the statements
        out = [rng.choice([".dksh compute\n", "\t.type compute\n", ".num_gprs 9\n.shared_memory 0x10\n", ".dksh compute\n.local_memory 16\n\n", ""]),
               "main:\n"]
        pool = pool + [["BRA", "main", ";"], ["@", "P1", "BRA", "main", ";"], ["SSY", "main", ";"], ["CAL", "main", "@", "Y", ";"]] * 3
    for _ in range(rng.choice([0, 1, 2, 3, 4, rng.randint(0, 20)])):
        out.append(stmt_text(rng, rng.choice(pool)))
        out.append(gap(rng))
    pre = "".join(out)
    post = gap(rng)
    tail = []
    if after:
        for _ in range(rng.choice([0, 1, 2, 5])):
            tail.append(stmt_text(rng, rng.choice(pool)))
            tail.append(gap(rng))
    return pre, post + "".join(tail)


def faulty(rng, toks):
    """A malformed version of an instruction that still is one statement: at most one ';', its last token."""
    for _ in range(20):
        t = gen.mutate_tokens(rng, toks)
        body = [x for x in t if x != ";"]
        if not body or any(":" in x for x in body):
            continue
        t = body + [";"]
        if body[0][0] == "." and len(body[0]) > 1:
            continue
        text = loose_join(t)
        r = refasm.assemble(text)
        if not r.ok and not r.unspec:
            return t
    return None


def combination(rng, form):
    r = rng.random()
    if r < 0.6:
        i = gen.gen_inst(rng, form, 0.2, 0.2)
        t = i.tokens()
    else:
        i = gen.valid_inst(rng, form, 0, 0)
        if i is None:
            return None
        t = i.tokens()
        if r < 0.8:
            a = gen.gen_ann(rng, 1.0)
            if not a:
                return None
            parts, k = [], 0
            while k < len(a):
                n = 2 if a[k + 1] in ("Y", "YIELD") else 3
                parts.append(a[k:k + n])
                k += n
            parts.insert(rng.randint(0, len(parts)), rng.choice(parts))
            t = t[:-1] + [x for q in parts for x in q] + [";"]
        elif r < 0.9:
            t = ["@", rng.choice(["", "!"]) + rng.choice(gen.GUARDS)] + t
        else:
            # a reuse flag after any register
            ks = [k for k, x in enumerate(t) if gen.REGTOK.fullmatch(x)]
            if not ks:
                return None
            t.insert(rng.choice(ks) + 1, ".reuse")
    q = refasm.assemble(loose_join(t))
    return None if q.ok or q.unspec or t.count(";") != 1 else t


def run(ctx, task):
    rng = ctx.rng
    if task[0] == "huge":
        return huge(ctx, task)
    if task[0] == "far":
        far(ctx)
        return
    if task[0] == "form":
        form = isa.FORMS[task[1]]
        ctx.saw("forms", form.index)
        pool = [x.tokens() for x in gen.gen_program_items(rng, 12)]
        for _ in range(250 if ctx.quick else 400):
            i = gen.valid_inst(rng, form, 0.3, 0.3)
            if i is None:
                continue
            t = faulty(rng, i.tokens())
            if t is None:
                continue
            instruction(ctx, pool, t)
        # every part legal by itself, but not together; guards and annotations the form does not take
        for _ in range(150 if ctx.quick else 400):
            t = combination(rng, form)
            if t is not None:
                ctx.count("illegal combinations")
                instruction(ctx, pool, t)
        return
    pool = [x.tokens() for x in gen.gen_program_items(rng, 60)]
    if task[0] == "dir":
        for _ in range(250):
            directive(ctx, pool)
        return
    for _ in range(300):
        r = rng.random()
        base = list(rng.choice(pool))
        if r < 0.2:
            t = [rng.choice(["FOO", "nop", "MOVX", "_", "NO", "EXITT", "Rx", "?", "x", "\"str\"", "#c", "\x80\xff"])] + \
                rng.choice([[], ["R0"], ["R0", ",", "R1"], base[1:-1]]) + [";"]
            if base[0] == "@":
                t = t[:1] + [";"]
        elif r < 0.35:
            t = base[:-1] + ["@", rng.choice(["WAIT", "FOO", "WB", "RB", "DEP", "P0", "0", "@", "WAIT -1", "WAIT 16",
                                              "RB 6", "WB 1.0", "DEP 6", "DEP R0", "y"])] + [";"]
        elif r < 0.5:
            t = ["BRA", rng.choice(["nowhere", "Lx", "undefined_label", "NOP", "0x800008", "-0x7fffff8"]), ";"]
        elif r < 0.7:
            k = rng.randrange(len(base))
            t = base[:k] + [rng.choice(["R255", "P7", "!P8", "!", "!x", "0x", "1.0x", "08", "99999999999999999999", "RZx",
                                        "R256", "1x", "0x1.5", "R99999999999", "1.5.5x", "5g", "9223372036854775808"])] \
                + base[k:]
        elif r < 0.85:
            # unterminated at the end of the program
            t = base[:rng.randint(1, len(base) - 1)] if len(base) > 1 else base
            if t[-1] == ";":
                t = t[:-1] or ["NOP"]
            pre, _ = build(ctx, pool, t)
            body = stmt_text(rng, t)
            text = pre + body + rng.choice(["", "\n", " ", "\t\n ", "\nend:\n", "\n\n\t"])
            rr = refasm.assemble(text)
            if rr.ok or rr.unspec or not refasm.assemble(pre).ok:
                continue
            put(ctx, text, len(pre), len(text) + 1, "unterminated")
            continue
        else:
            t = rng.choice([[";"], [","], ["R0", ";"], ["0", ";"], ["PT", ";"], ["@", ";"], ["[", "]", ";"], ["|", ";"],
                            ["@", "P0", ";"], ["@", "R0"] + base, ["@", "P0", "@", "P1"] + base, ["~"] + base, ["1"] + base])
            if t[-1] != ";":
                t = t + [";"]
        if t is None or t.count(";") != 1:
            continue
        instruction(ctx, pool, t)


def huge(ctx, task):
    """A column number that does not fit in 32 bits."""
    unit, dc, n = [("\t", 4, 540000000), (" \t", 5, 450000000), ("\t\r", 5, 860000000)][task[1]]
    name = b"file"
    for bad, offs in (("FOO;", (0, 3)), ("NOP NOP;", (0, 4, 7))):
        allowed = {(1, 1 + n * dc + x) for x in offs}
        o = run_one(ctx.paths[("plain", "driver")], (unit * n + bad).encode(), name, 300)
        if not o.rejected:      # how it ends is decided by C01
            ctx.count("inconclusive: huge text without a diagnostic")
            return
        ctx.count("huge columns")
        ctx.evals += 1
        msg = judge(name, allowed)([o])
        if msg:
            ctx.violation("%d times %r, then %r: %s" % (n, unit, bad, msg), [bad.encode()], [o.brief()])


def far(ctx):
    """Faults on high line and column numbers."""
    rng = ctx.rng
    for unit, dl, dc in (("\n", 1, 0), (" ", 0, 1), ("\t", 0, 4), ("\r", 0, 1), ("NOP;", 0, 4), ("NOP;\n", 1, 0), ("x:\n", 1, 0),
                         ("\r\n", 1, 0), (" \n", 1, 0), (".num_gprs 4\n", 1, 0), ("  \tNOP;\t", 0, 14)):
        for k in (rng.randint(120, 130), 255, 256, 257, rng.randint(1000, 5000), 32767, 32768, 65535, 65536,
                  rng.randint(70000, 140000)):
            if dl:
                line, col = 1 + k, 1
            else:
                line, col = 1, 1 + k * dc
            lead = rng.choice(["", " ", "\t"])
            col += {"": 0, " ": 1, "\t": 4}[lead]
            bad, offs = rng.choice([("FOO;", (0, 3)), ("NOP NOP;", (0, 4, 7)), ("MOV R0, R256;", (0, 4, 6, 8, 12)), ("BRA nowhere;", (0, 4, 11)),
                                    ("MOV R0,, R1;", (0, 4, 6, 7, 9, 11)), ("EXIT @WAIT 16;", (0, 5, 6, 11, 13))])
            allowed = {(line, col + x) for x in offs}
            ctx.count("diagnostics located")
            ctx.count("far positions")
            for p in allowed:
                ctx.saw("(line, column)", p)
            name = rng.choice(NAMES)
            ctx.submit([unit * k + lead + bad + rng.choice(["", "\nNOP;"])], judge(name, allowed), names=[name])
        ctx.flush()


def more(ctx, text, first, end, pool, cut):
    """Further malformed statements behind the first one: still the first one is named."""
    rng = ctx.rng
    if rng.random() > 0.25:
        return
    for _ in range(rng.choice([1, 1, 2, 3])):
        text += "\n" + rng.choice(["FOO;", "MOV R0;", "BRA nowhere;", ".foo\nNOP;", "MOV R0, R1, R2, R3, R4;", "NOP", "EXIT @FOO;", "NOP NOP;", ".num_gprs -1\nNOP;",
                                   "@P0 BAR;", ";", "R0;", "FADD R0, R1;", join(rng.choice(pool)[:-1]) + " R0;"])
        if rng.random() < 0.5:
            text += gap(rng) + stmt_text(rng, rng.choice(pool))
    put(ctx, text, first, end, "first of several faults", cut)


def instruction(ctx, pool, t):
    rng = ctx.rng
    pre, post = build(ctx, pool, t)
    body = stmt_text(rng, t)
    text = pre + body + post
    r = refasm.assemble(text)
    if r.ok or r.unspec or not refasm.assemble(pre).ok:
        ctx.count("skipped")
        return
    rest = lex(pre + body)
    # the statement must be the only malformed one and delimited by its own semicolon
    if text.find(";", len(pre)) != len(pre) + len(body) - 1 or \
            not refasm.assemble(pre + post.lstrip(" \t") if pre else post).ok:
        ctx.count("skipped")
        return
    put(ctx, text, len(pre), len(pre) + len(body), "faulty instructions")
    more(ctx, text, len(pre), len(pre) + len(body), pool, False)


DIRS = [".foo", ".dksh", ".dksh graphics", ".dksh 5", ".type", ".type Compute", ".num_gprs", ".num_gprs R1",
        ".num_gprs -1", ".num_gprs 1.0", ".num_gprs 2147483648", ".num_gprs 4 5", ".num_gprs 4 NOP", ".workgroup_size",
        ".workgroup_size 1", ".workgroup_size 1 2", ".workgroup_size 1 2 -3", ".workgroup_size 1 x 3",
        ".workgroup_size 1 2 3 4", ".shared_memory", ".shared_memory x", ".shared_memory -1", ".local_memory -5",
        ".local_memory 67108785", ".local_memory ,", ".DKSH compute", ".", ".NUM_GPRS 3", ".type compute x",
        ".num_gprs 4294967296", ".num_gprs 99999999999999999999", ".local_memory 1 ,", ".typ compute"]


def directive(ctx, pool):
    rng = ctx.rng
    again = rng.random() < 0.15     # the program type given twice: the second one is at fault
    d = rng.choice([".dksh compute", ".type compute", ".dksh vertex", ".type fragment"] if again else DIRS)
    words = d.split(" ")
    sp = rng.choice([" ", " ", "\t", "  ", " \t"])
    pre, post = build(ctx, pool, None)
    if not pre.endswith("\n") and rng.random() < 0.5:
        pre += rng.choice(["\n", "\r\n", "\n\t"])
    if again:
        pre = rng.choice([".dksh compute\n", ".type compute\n", "\t.dksh\tcompute \n"]) + "main:\n" + pre
        ctx.count("repeated program types")
    if not post.startswith(("\n", "\r\n")):
        post = "\n" + post
    body = sp.join(words)
    text = pre + body + post
    r = refasm.assemble(text)
    if r.ok or r.unspec or not refasm.assemble(pre).ok or not refasm.assemble(pre + post).ok:
        ctx.count("skipped")
        return
    put(ctx, text, len(pre), len(pre) + len(body), "faulty directives", cut=True)
    more(ctx, text, len(pre), len(pre) + len(body), pool, True)
