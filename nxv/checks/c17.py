"""C17: a rejection is one deterministic, truthful diagnostic on standard error; success is silent."""
import os
import re
import shutil
import subprocess
import tempfile

from .. import gen, isa
from ..core import Stop, b
from ..driver import STDOUT, Driver, run_one
from ..gen import join, loose_join
from ..lex import SEP
from . import c10, c16
from .c05 import LABEL_FORMS, branch_text
from .c08 import DIRECTIVES, char_edit

LEVEL = "exploration"
CONFIGS = ["plain", "gcc_O3_ndebug", "clang_O2", "gcc_pattern"]
NEEDS = [(c, "driver") for c in CONFIGS] + [("plain", "cli")]
RULE = ("texts of every form, valid and broken by token and character edits, illegal combinations, faults in guards, "
        "annotations, labels, directives and containers, NUL bytes, garbage and very long tokens, alone and inside programs, under many "
        "file names; everything written to the two standard streams during the call is captured and checked: silence on success; "
        "exactly one terminated line with a message on standard error for a rejection, nothing on standard output; quoted "
        "text is the token at the stated position, a shown value is the one written there, and a stated range is tried at, "
        "below and above its bounds; the bytes are the same in four builds, after other calls "
        "and in a fresh process; the same for the command-line tool; distinct by text and name; non-trivial = all")
ASSUMPTIONS = []
MINIMUM = {"quick": {"diagnostics checked": 60000, "silent successes": 20000, "quotes compared": 15000, "distinct messages": 120,
                     "build comparisons": 200000, "runs of the tool": 400, "fresh processes": 300, "distinct forms": 265, "long programs": 60}}

_ansi = re.compile(rb"\x1b\[[0-9;]*m")
_pos = re.compile(rb"(\d+):(\d+): ?error: ?", re.S)
QUOTES = [re.compile(p, re.S) for p in (
    rb"unknown mnemonic (.*)", rb"label (.*) not defined", rb"invalid program type (.*)", rb"unknown option (.*)",
    rb"integer literal (.*) is too large", rb"failed to parse literal (.*)", rb"register index (.*) is out of range.*",
    rb"expected .* and got identifier (.*)", rb"invalid system register (.*)", rb"unexpected test (.*)")]
UNKNOWN, UNDEFINED, OPTION = QUOTES[0], QUOTES[1], QUOTES[3]
_got = re.compile(rb"expected (.+) and got (.*)", re.S)
KINDS = {b"register": b"R", b"predicate": b"Pp!", b"immediate": b"0123456789+-", b"floating-point immediate": b"0123456789+-", b"plus": b"+", b"minus": b"-",
         b"tilde": b"~", b"vertical bar": b"|", b"squared bracket left": b"[", b"squared bracket right": b"]", b"at": b"@", b"semicolon": b";", b"comma": b","}
BREAKS = set(b" \t\r\n,;[]@|~")
NAMES = [b"file", b"shader.asm", b"/tmp/some dir/x.s", b"a:b", b"", b"n" * 300, b"%s%n%d%5$s", b"1:2", b"\xc3\xa9.asm", b"error:", b"two\nlines", b"x" * 5000]


def tasks(tier):
    q = tier == "quick"
    return [("range", f.index, r) for r in range(1 if q else 6) for f in isa.FORMS] + [("ranged", i) for i in range(8 if q else 40)] + [("tool", i) for i in range(8 if q else 40)] + [("long", i) for i in range(4)] + [("size", i) for i in range(8 if q else 40)] + \
        [("form", f.index, r) for r in range(1 if q else 10) for f in isa.FORMS] + \
        [("dir", i) for i in range(16 if q else 200)] + [("prog", i) for i in range(24 if q else 300)] + [("junk", i) for i in range(16 if q else 200)]


def offset_of(text, line, col):
    """Offset of a 1-based position, a tab counting four columns; None if there is none."""
    start = 0
    for _ in range(line - 1):
        k = text.find(b"\n", start)
        if k < 0:
            return None
        start = k + 1
    c = 1
    while c < col:
        if start >= len(text) or text[start:start + 1] == b"\n":
            return None
        c += 4 if text[start] == 9 else 1
        start += 1
    return start if c == col else None


def check(text, name, ok, rejected, diag, ctx=None, tool=False):
    """-> None or what is wrong with the streams of one call."""
    err, mark, out = diag.partition(STDOUT)
    if mark and STDOUT not in text and STDOUT not in name:
        return "something was written to standard output: %r" % out[:200]
    if ok:
        if diag:
            return "the call succeeded, but wrote %r" % diag[:200]
        if ctx:
            ctx.count("silent successes")
        return None
    if not rejected:
        return None             # abnormal ends are decided elsewhere
    if ctx:
        ctx.count("diagnostics checked")
    if not err.endswith(b"\n"):
        if len(diag) >= 1 << 16:
            return None         # only the beginning is recorded
        return "the diagnostic is not a complete line: %r" % err[-200:]
    body = _ansi.sub(b"", err[:-1])
    plain = _ansi.sub(b"", name)
    if b"error:" not in body.replace(plain, b"", 1) and b"error:" not in body:
        return "no error message: %r" % err[:200]
    if body.startswith(plain + b":"):
        rest = body[len(plain) + 1:]
    else:
        rest = body.replace(plain, b"", 1) if b"\n" in plain else body
    if b"\n" in rest:
        return "more than one line was written: %r" % err[:300]
    m = _pos.match(rest)
    msg = rest[m.end():] if m else rest.partition(b"error:")[2].strip()
    if not msg.strip():
        return "the diagnostic has no message: %r" % err[:200]
    if b"(null)" in msg and b"(null)" not in text and b"(null)" not in name:
        return "the diagnostic shows a null pointer: %r" % err[:200]
    if ctx:
        ctx.saw("messages", re.sub(rb"[^A-Za-z .,]+", b"#", msg)[:40])
    g = m and _got.fullmatch(msg)
    if g and b"\x1b" not in text:
        off = offset_of(text, int(m.group(1)), int(m.group(2)))
        got = g.group(2).rstrip()
        at = text[off:off + 1] if off is not None else b""
        if got in KINDS:
            if ctx:
                ctx.count("tokens found compared")
            if not at or at not in KINDS[got]:
                return "the diagnostic says it got %r, but at %s:%s the text is %r" % (got, m.group(1).decode(), m.group(2).decode(), text[off:off + 60] if at else None)
            if g.group(1) == got:
                return "the diagnostic expected and got the same: %r" % msg[:200]
    if m and b"\x1b" not in text:
        for q in QUOTES:
            g = q.fullmatch(msg)
            if not g:
                continue
            off = offset_of(text, int(m.group(1)), int(m.group(2)))
            x = g.group(1)
            if not x and off is not None and (off >= len(text) or chr(text[off]) in "0123456789RPp!" + SEP):
                break           # only identifiers are quoted
            if off is None or not x or not text.startswith(x, off) or set(x[1:]) & BREAKS or \
                    not (off + len(x) >= len(text) or chr(text[off + len(x)]) in SEP):
                return "the diagnostic quotes %r, but at %s:%s the text is %r" % (
                    x[:80], m.group(1).decode(), m.group(2).decode(), text[off:off + 60] if off is not None else None)
            if ctx:
                ctx.count("quotes compared")
            if q is UNKNOWN and x.decode("latin-1") in isa.BY_MNEMONIC:
                return "the diagnostic calls %r an unknown mnemonic, but it is supported" % x
            if q is UNDEFINED and re.fullmatch(rb"[A-Za-z][A-Za-z0-9_]*", x) and (b"\n" + text).find(b"\n" + x + b":") >= 0:
                return "the diagnostic says that the label %r is not defined, but it is" % x
            if q is OPTION and x.decode("latin-1") in DIRECTIVES:
                return "the diagnostic calls %r an unknown option, but it is supported" % x
            break
    return None


def compare(ctx, texts):
    rng = ctx.rng
    cases = [(b(t), rng.choice(NAMES)) for t in texts]
    ref = ctx.driver(CONFIGS[0], True).run(cases)
    for (t, n), o in zip(cases, ref):
        if o.status == 4:
            continue
        ctx.evals += 1
        ctx.nontrivial.add(hash((t, n)))
        why = check(t, n, o.ok, o.rejected, o.diag, ctx)
        if why:
            a = run_one(ctx.paths[(CONFIGS[0], "driver")], t, n, 60)
            why = check(t, n, a.ok, a.rejected, a.diag)
            if not why:
                ctx.unconfirmed += 1
                continue
            ctx.violation(why, [t], [a.brief()])
            raise Stop()
    for c in CONFIGS[1:]:
        outs = ctx.driver(c, True).run(cases)
        for (t, n), x, y in zip(cases, ref, outs):
            if x.status == 4 or y.status == 4:
                continue
            ctx.count("build comparisons")
            if x.status != y.status or not x.rejected or x.diag == y.diag:
                continue
            differ(ctx, t, n, c)
    # history: the other way round, in the same process; and alone
    k = rng.randrange(len(cases))
    part = cases[k:k + 40][::-1]
    for (t, n), x, y in zip(part, ref[k:k + 40][::-1], ctx.driver(CONFIGS[0], True).run(part)):
        if x.rejected and y.rejected and x.diag != y.diag:
            differ(ctx, t, n, CONFIGS[0], [c for c, r in zip(cases, ref) if r.ok])
    for k in rng.sample(range(len(cases)), min(len(cases), 2)):
        t, n = cases[k]
        if b"\0" in n:
            continue
        a = run_one(ctx.paths[(CONFIGS[0], "driver")], t, n, 60)
        ctx.count("fresh processes")
        if ref[k].rejected and a.rejected and a.diag[:1 << 16] != ref[k].diag:
            differ(ctx, t, n, CONFIGS[0], [c for c, r in zip(cases[:k], ref) if r.ok])
    if rng.random() < 0.05:
        k = rng.randrange(len(cases))
        ctx.sample({"input": cases[k][0].decode("latin-1")[:160], "observed": ref[k].brief()[:200]})
    if ctx.stop.is_set():
        raise Stop()


def differ(ctx, t, n, cfg, history=()):
    """Two diagnostics of one text differed: show it with nothing intercepted."""
    e = ctx.paths[(CONFIGS[0], "driver")]
    runs = [run_one(e, t, n, 60) for _ in range(4)] + [run_one(ctx.paths[(cfg, "driver")], t, n, 60) for _ in range(4)]
    runs += [run_one(e, t, n, 60, env={"MALLOC_PERTURB_": str(p)}) for p in (0x55, 0xAA)]
    if len({r.diag for r in runs if r.rejected}) > 1:
        u = sorted({r.diag for r in runs if r.rejected})
        ctx.violation("the diagnostic for one text is not always the same (builds %s and %s): %r / %r" % (
            CONFIGS[0], cfg, u[0][:200], u[1][:200]), [t, t], [r.brief() for r in runs[:8:4]], cfg=cfg)
        raise Stop()
    # a difference that needs a history is reported if it shows after successful calls alone
    a = run_one(e, t, n, 60)
    if not a.rejected:
        ctx.unconfirmed += 1
        return
    tries = [[]] + [list(history), list(history)[::-1], list(history)[-20:]]
    tries += [ctx.rng.sample(list(history), min(len(history), 5)) for _ in range(20)] if history else []
    for h in tries:
        d = Driver(e, 20, True)
        o = d.run([(b("NOP;"), b"other")] + h + [(t, n)])[-1]
        d.close()
        if o.rejected and o.diag != a.diag[:1 << 16]:
            ctx.violation("the diagnostic depends on earlier successful calls: %r / %r" % (a.diag[:200], o.diag[:200]),
                          [x for x, _ in h[-3:]] + [t], [a.brief(), o.brief()])
            raise Stop()
    ctx.unconfirmed += 1


_range = re.compile(rb"(?:from|between) (-?\d+) (?:to|and) (-?\d+)")
_shown = re.compile(rb"^integer (?:immediate )?(-?\d+)\b")
_number = re.compile(rb"[+-]?(?:0[xX][0-9a-fA-F]+|[0-9]+)(?![0-9A-Za-z_.])")
_register = re.compile(rb"R[0-9]+(?![0-9A-Za-z_])")


def place(text, o):
    """(offset, length, register?, message, stated range) of a diagnostic that points at a number."""
    if not o.rejected:
        return None
    err = _ansi.sub(b"", o.diag.partition(STDOUT)[0].rstrip(b"\n"))
    if not err.startswith(b"file:"):
        return None
    m = _pos.match(err, 5)
    if not m:
        return None
    off = offset_of(text, int(m.group(1)), int(m.group(2)))
    g = _range.search(err, m.end())
    if off is None:
        return None
    t = _number.match(text, off) or _register.match(text, off)
    if not t:
        return None
    return off, t.end() - off, text[off:off + 1] == b"R", err[m.end():], (int(g.group(1)), int(g.group(2))) if g else None


def value(lit):
    sign = -1 if lit[:1] == b"-" else 1
    d = lit.lstrip(b"+-")
    return sign * (int(d, 16) if d[:2] in (b"0x", b"0X") else int(d, 8) if d[:1] == b"0" else int(d))


def stated(texts, outs):
    """texts, outs = the text, and the text with the lower bound, the upper bound, and one below and above them."""
    pl = place(texts[0], outs[0])
    if not pl or not pl[4]:
        return None
    off, n, _, msg, (lo, hi) = pl
    if lo > hi:
        return "the diagnostic states an empty range: %r" % msg
    for t, o, v in zip(texts[1:3], outs[1:3], (lo, hi)):
        q = place(t, o)
        if q and q[0] == off and q[4]:
            return "the diagnostic says that values from %d to %d are expected, but %d is out of range too: %r" % (lo, hi, v, q[3])
    for t, o in zip(texts[3:], outs[3:]):
        if o.ok:
            return "the diagnostic says that values from %d to %d are expected, but %r is accepted" % (lo, hi, _number.match(t, off) or _register.match(t, off))
    return None


def ranges(ctx, texts):
    """A range that a diagnostic states must be the one that is accepted there; a value it shows, the one written there."""
    texts = [b(t) for t in texts]
    outs = ctx.driver(CONFIGS[0], True).run(texts)
    for t, o in zip(texts, outs):
        pl = place(t, o)
        if not pl:
            continue
        off, n, reg, msg, rg = pl
        ctx.evals += 1
        ctx.nontrivial.add(hash(t))
        lit = t[off:off + n]
        v = _shown.match(msg)
        if v and not reg:
            ctx.count("shown values compared")
            if int(v.group(1)) != value(lit):
                a = run_one(ctx.paths[(CONFIGS[0], "driver")], t, b"file", 60)
                if a.diag.rstrip() == o.diag.rstrip():
                    ctx.violation("the diagnostic shows the integer %s, but the literal is %s" % (v.group(1).decode(), lit.decode()), [t], [a.brief()])
                    raise Stop()
        if not rg:
            continue
        ctx.count("stated ranges tried")
        ctx.saw("stated ranges", rg)
        signed = lit[:1] in b"+-"

        def sp(x):
            return b("R%d" % x if reg else ("%+d" if signed else "%d") % x)
        vs = [rg[0], rg[1]] + ([] if reg and rg[0] < 1 else [rg[0] - 1]) + [rg[1] + 1]
        ctx.submit([t] + [t[:off] + sp(x) + t[off + n:] for x in vs],
                   lambda o, ts=[t] + [t[:off] + sp(x) + t[off + n:] for x in vs]: stated(ts, o), key=(t, "range"))
    ctx.flush()


OUTSIDE = ["-1", "-2147483649", "4294967296", "1048576", "65536", "-9223372036854775808", "9223372036854775807", "33", "-524289", "-32769", "32768",
           "0x1000000", "-8388609", "256", "16", "0x7ffffffff"]


def run(ctx, task):
    rng = ctx.rng
    texts = []
    if task[0] == "range":
        form = isa.FORMS[task[1]]
        for _ in range(6 if ctx.quick else 20):
            i = gen.valid_inst(rng, form, 0.3, 0.5)
            if i is None:
                continue
            t = i.tokens()
            for k, x in enumerate(t):
                if gen.REGTOK.fullmatch(x) or (gen.is_number(x) and "." not in x):
                    vs = ["R255", "R%d" % rng.randint(255, 99999)] if x[0] == "R" else rng.sample(OUTSIDE, 6)
                    for v in vs:
                        if x[0] in "+-" and v[0] not in "+-":
                            v = "+" + v
                        texts.append(rng.choice(["", "NOP;\n\t", "x:\n"]) + join(t[:k] + [v] + t[k + 1:]))
            for a in ("WAIT", "WB", "RB", "DEP"):
                texts.append(join(t[:-1]) + " @%s %s;" % (a, rng.choice(OUTSIDE)))
        ranges(ctx, texts)
        return
    if task[0] == "ranged":
        for _ in range(60):
            d = rng.choice([".num_gprs %s", ".shared_memory %s", ".local_memory %s", ".workgroup_size %s 1 1", ".workgroup_size 1 %s 1", ".workgroup_size 1 1 %s"])
            v = rng.choice(OUTSIDE + ["2147483648", "0x3ffffb1", "67108785", "99999999999"])
            texts.append(rng.choice(["", "\n", ".type compute\n", ".dksh compute\nmain:\n"]) + d % v + rng.choice(["\nNOP;", "\n\nmain:\nNOP;", ""]))
        ranges(ctx, texts)
        return
    if task[0] == "tool":
        tool(ctx)
        return
    if task[0] == "form":
        form = isa.FORMS[task[1]]
        ctx.saw("forms", form.index)
        for _ in range(70 if ctx.quick else 150):
            i = gen.gen_inst(rng, form, 0.3, 0.3)
            t = i.tokens()
            texts.append(join(t))
            texts.append(loose_join(gen.mutate_tokens(rng, t)))
            texts.append(char_edit(rng, join(t)))
            texts.append("\n" * rng.randint(0, 3) + gen.scatter(rng, gen.mutate_tokens(rng, t), 0.3))
            c = c16.combination(rng, form)
            if c:
                texts.append(rng.choice(["", "NOP;\n\t", "x:\n"]) + join(c))
            nums = [k for k, x in enumerate(t) if gen.is_number(x) or gen.REGTOK.fullmatch(x)]
            if nums:
                k = rng.choice(nums)
                v = rng.choice(["R256", "R255", "R300", "R99999999999999999999", "99999999999999999999", "0x", "1x", "08", "1.5x", "0x1FFFFFFFFFFFFFFFF",
                                "-9223372036854775809", "P8", "SR_FOO", "foo", "4294967296", "-1", "1.0"])
                texts.append(join(t[:k] + [v] + t[k + 1:]))
    elif task[0] == "dir":
        pool = [i.text() for i in gen.gen_program_items(rng, 10)]
        for _ in range(200):
            ls = []
            for _ in range(rng.randint(1, 3)):
                ls.append(rng.choice(c16.DIRS + [".dksh compute", ".type compute", ".num_gprs 7", ".workgroup_size 1 2 3", ".dksh vertex", ".type geometry"]))
            if rng.random() < 0.7:
                ls.insert(rng.randint(0, len(ls)), rng.choice(["main:", "Main:", "main: NOP;", "NOP;\nmain:"]))
            ls += [rng.choice(pool) for _ in range(rng.randint(0, 4))]
            texts.append(rng.choice(["\n", "\n\n", "\r\n", "\n\t"]).join(ls))
    elif task[0] == "prog":
        pool = [i.tokens() for i in gen.gen_program_items(rng, 30)]
        for _ in range(120):
            ls = []
            n = rng.choice([1, 2, 3, 4, 9, 30])
            for k in range(n):
                if rng.random() < 0.3:
                    ls.append("L%d:" % rng.randrange(n))
                if rng.random() < 0.3:
                    ls.append(branch_text(rng, rng.choice(LABEL_FORMS), "L%d" % rng.randrange(n)))
                else:
                    ls.append(gen.scatter(rng, rng.choice(pool), 0.2))
            if rng.random() < 0.5:
                k = rng.randrange(len(ls))
                ls[k] = char_edit(rng, ls[k] or ";")
            texts.append(rng.choice(["\n", "\n\n", "\r\n", "\n\t"]).join(ls))
    elif task[0] == "size":
        # long programs, accepted or with one fault somewhere
        pool = [i.text() for i in gen.gen_program_items(rng, 40)] + ["L0:\nBRA L0;", "\nL1:\nNOP;", "BRA L0;"]
        for n in [rng.choice([100, 256, 1000, 1024, 2048, 4096, 5000, 8192]) + rng.randint(0, 3) for _ in range(10)] + \
                ([20000 + rng.randint(0, 9), 66000] if task[1] < 4 else []):
            ls = [rng.choice(pool) for _ in range(n)]
            if rng.random() < 0.3:
                ls = ["\n.dksh compute\nmain:"] + ls
            ls.append("\nL0:\nL1:")
            if rng.random() < 0.5:
                k = rng.choice([0, 1, len(ls) - 2, len(ls) - 1, rng.randrange(len(ls))])
                ls.insert(k, rng.choice(["FOO;", "MOV R0, foo;", "BRA nowhere;", "MOV R0 R1;", "MOV R300, R1;", "FADD R0, R1, R2, R3;", "NOP @WAIT 16;", "%n%n%n;"]))
            ctx.count("long programs")
            texts.append("\n".join(ls))
    elif task[0] == "long":
        for unit in ("A", "R", "P", "0", "9", "x", "\xff", "1.", ".", "a.b", "%s", "%n", "{}", "\\"):
            for n in (255, 256, 1023, 1024, 1025, 4095, 4096, 8192, 20000):
                for ctx_ in ("%s;", "BRA %s;", "MOV R0, %s;", "NOP %s;", ".%s\nNOP;", ".dksh %s\nNOP;", "S2R R0, %s;", "@%s NOP;", "NOP @%s;"):
                    texts.append(ctx_.replace("%s", (unit * n)[:n], 1))
    else:
        voc = gen.vocab()
        for _ in range(200):
            k = rng.randrange(4)
            if k == 0:
                texts.append(bytes(rng.randrange(256) for _ in range(rng.randrange(1, 60))))
            elif k == 1:
                texts.append(" ".join(rng.choice(voc) for _ in range(rng.randrange(1, 30))))
            elif k == 2:
                t = gen.gen_inst(rng, None, 0.3, 0.3).text()
                texts.append(t[:rng.randrange(len(t))])
            else:
                t = gen.gen_inst(rng, None, 0.3, 0.3).text()
                k = rng.randrange(len(t))
                texts.append(t[:k] + rng.choice(["\0", "\x01", "\x1b[1m", "\x7f", "\x80", "%s", "%d", "\"", "\v", "\f", "\n", "\b"]) + t[k:])
    compare(ctx, [t for t in texts if t])


ARGS = [[], ["-o"], ["IN"], ["IN", "-o"], ["-o", "OUT"], ["IN", "IN", "-o", "OUT"], ["IN", "-o", "OUT", "-o", "OUT"], ["NOFILE", "-o", "OUT"], ["DIR", "-o", "OUT"],
        ["IN", "-o", "DIR"], ["IN", "-o", "NODIR/x"], ["IN", "-o", "/dev/full"], ["", "-o", "OUT"], ["IN", "-o", ""], ["--help"], ["-h"], ["-o", "OUT", "IN", "x"]]


def tool(ctx):
    rng = ctx.rng
    exe = ctx.paths[("plain", "cli")]
    d = tempfile.mkdtemp(prefix="nxv-c17-")
    try:
        os.mkdir(os.path.join(d, "DIR"))
        for _ in range(70):
            i = gen.gen_inst(rng, None, 0.3, 0.3)
            text = b(rng.choice(["", "a:\n", "NOP;\n"]) + rng.choice([i.text(), loose_join(gen.mutate_tokens(rng, i.tokens()))]))
            if rng.random() < 0.3:
                text = b(gen.valid_inst(rng, rng.choice(gen.PLAIN_FORMS), 0.3, 0.3).text())
            if rng.random() < 0.05:
                text = rng.choice([b"", b"\n", b" ", b"main:\n", b".dksh compute\nmain:\nNOP;", b"a:\nb:", b".type compute\nNOP;", b"\0", b"\xff"])
            name = rng.choice(["IN", "a b.asm", "%s.s", "x:1:1", "./IN"])
            with open(os.path.join(d, name), "wb") as f:
                f.write(text)
            with open(os.path.join(d, "IN"), "wb") as f:
                f.write(text)
            args = [name, "-o", rng.choice(["OUT", "OUT", "DIR/o"])] if rng.random() < 0.6 else rng.choice(ARGS)
            try:
                r = subprocess.run([exe] + args, cwd=d, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60,
                                   env={"LC_ALL": "C", "PATH": "/usr/bin:/bin"})
            except subprocess.TimeoutExpired:
                ctx.count("inconclusive: tool timeout")
                continue
            ctx.evals += 1
            ctx.count("runs of the tool")
            diag = r.stderr + (STDOUT + r.stdout if r.stdout else b"")
            why = check(text, b(args[0]) if args else b"", r.returncode == 0, r.returncode == 1, diag, ctx, True)
            if not why and r.returncode == 1 and not r.stderr:
                why = "the tool failed without a diagnostic"
            if why:
                ctx.violation("nxas %s: %s" % (" ".join(args), why), [text], ["exit %s, stdout %r, stderr %r" % (r.returncode, r.stdout[:200], r.stderr[:200])])
                raise Stop()
    finally:
        shutil.rmtree(d, ignore_errors=True)
