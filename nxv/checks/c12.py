"""C12: layout, labels and literal notation do not change the generated code."""
import re

from .. import gen, isa, refasm
from ..gen import LABEL_FORMS, is_number, join, scatter
from ..slots import spell_int
from .c05 import NAMES, branch_text

LEVEL = "exploration"
NEEDS = [("plain", "driver")]
RULE = ("a program (instructions of all forms, directives, labels and branches) in conventional layout and 6 "
        "variants of it: tokens spread with spaces, tabs, CR, LF, blank lines in every gap, or squeezed "
        "together; statements joined or split over lines; labels added, renamed, stacked; every integer "
        "re-spelt in another base, with leading zeros or case; white space runs, label names and label counts up to 70,000; defaults spelt out; the words must "
        "be identical; distinct by text of the variant")
ASSUMPTIONS = ["which gaps may be empty is decided by the lexical specification (nxv/lex.py)"]
MINIMUM = {"quick": {"variants compared": 50000, "distinct forms": 260}}


def tasks(tier):
    t = [("form", f.index) for f in isa.FORMS]
    return t + [("prog", i) for i in range(900 if tier == "quick" else 9000)] + \
        [("default", r) for r in range(4 if tier == "quick" else 40)] + \
        [("huge", i) for i in range(16 if tier == "quick" else 100)]


def judge(o):
    a, v = o
    if not a.ok:
        return None
    if not v.ok:
        return "the same tokens in another layout or notation are not accepted: " + v.brief()
    if a.words != v.words:
        return "layout or notation changed the words: %s became %s" % (a.brief(), v.brief())


def respell(rng, t):
    """Another spelling of an integer token with the same value (and the same token boundary)."""
    m = re.fullmatch(r"([+-]?)(0[xX][0-9a-fA-F]+|[0-9]+)", t)
    if not m:
        return t
    v = int(m.group(2), 16) if m.group(2)[:2].lower() == "0x" else \
        int(m.group(2), 8) if m.group(2)[0] == "0" and len(m.group(2)) > 1 else int(m.group(2))
    k = rng.randrange(9)
    s = ["0x%x" % v, "0X%X" % v, "%d" % v, "0%o" % v if v else "0", "0x%08x" % v, "0x%X" % v,
         "000%o" % v, "0x%s%x" % ("0" * rng.randint(1, 60), v), "0%s%o" % ("0" * rng.randint(1, 60), v)][k]
    return m.group(1) + s


def put(ctx, base, variant, form=None):
    if base == variant:
        return
    r0, r1 = refasm.assemble(base), refasm.assemble(variant)
    if not r0.ok:
        ctx.count("skipped")
        return
    if not r1.ok or r1.words != r0.words:
        ctx.count("generator disagreements")
        ctx.sample({"disagreement": [base, variant]})
        return
    for s in r0.stmts:
        ctx.saw("forms", s.form.index)
    ctx.count("variants compared")
    ctx.submit([base, variant], judge, key=variant)


def squeeze(tokens):
    out = []
    prev = None
    for t in tokens:
        if prev is not None and gen.need_space(prev, t):
            out.append(" ")
        out.append(t)
        prev = t
    return "".join(out)


GAPS = [" ", "\t", "\n", "\r\n", "\r", "  ", "\n\n\n", " \t\r\n \t"]


def uniform(tokens, g):
    """The same gap between all tokens."""
    return g.join(tokens)


def one_gap(rng, tokens):
    """Conventional except for one gap."""
    i = rng.randrange(1, len(tokens)) if len(tokens) > 1 else 0
    return join(tokens[:i]) + rng.choice(GAPS) + join(tokens[i:])


def run(ctx, task):
    rng = ctx.rng
    if task[0] == "form":
        form = isa.FORMS[task[1]]
        for _ in range(20 if ctx.quick else 120):
            i = gen.valid_inst(rng, form, 0.3, 0.4)
            if i is None:
                continue
            t = i.tokens()
            base = join(t)
            for g in GAPS:
                put(ctx, base, uniform(t, g))
            put(ctx, base, squeeze(t))
            for k in range(1, len(t)):
                put(ctx, base, join(t[:k]) + rng.choice(GAPS) + join(t[k:]))
            for _ in range(4):
                put(ctx, base, scatter(rng, t, rng.choice([0.2, 0.6, 1.0])))
                put(ctx, base, join([respell(rng, x) for x in t]))
            put(ctx, base, scatter(rng, t, 0.5, True, ["lab", "x1", "NOP", "R_"]))
            for pre in GAPS + ["a:\n", "a: ", "\n\nfoo:\n\n", "a:\nb:\nc: ", "  a:\n", "\ta: "]:
                put(ctx, base, pre + base)
                put(ctx, base, base + pre)
            put(ctx, base, base + rng.choice(GAPS) * rng.randint(1, 50))
        return
    if task[0] == "default":
        defaults(ctx)
        return
    if task[0] == "huge":
        huge(ctx)
        return
    for _ in range(30):
        program(ctx)


def huge(ctx):
    """Runs of white space, labels and label names far beyond the sizes of any buffer or counter."""
    rng = ctx.rng
    for _ in range(6):
        n = rng.randint(1, 8)
        stm = []
        for _ in range(n):
            i = gen.valid_inst(rng, rng.choice(gen.PLAIN_FORMS), 0.25, 0.3)
            stm.append(i.tokens() if i else ["NOP", ";"])
        tgt = rng.randint(0, n)
        stm.insert(rng.randint(0, n), tokens_of(branch_text(rng, rng.choice(LABEL_FORMS), "tgt")))
        dk = rng.random() < 0.4
        head = ".dksh compute\n.num_gprs 9\nmain:\n" if dk else ""
        base = head + "".join(("tgt:\n" if k == tgt else "") + join(t) + "\n" for k, t in enumerate(stm))
        if not refasm.assemble(base).ok:
            ctx.count("skipped")
            continue
        for _ in range(5):
            kind = rng.randrange(5)
            size = rng.choice([255, 256, 300, 4095, 4096, 5000, 32768, 65535, 65536, 70000])
            at = rng.randrange(len(stm))
            nm = "tgt"
            extra = ""
            if kind == 3:       # a long name
                nm = "t" + "".join(rng.choice("agtR_019") for _ in range(size))
            if kind == 4:       # many labels
                extra = "".join("l%d:%s" % (k, rng.choice(["\n", " ", "\t"])) for k in range(size // 16)) + "\n"
            text = [head]
            for k, t in enumerate(stm):
                if k == at:
                    if kind == 0:
                        text.append(rng.choice(["\n", "\r\n", " \n", "\t\n"]) * size)
                    text.append(extra)
                if k == tgt:
                    text.append(nm + ":" + rng.choice(["\n", " "]))
                t = [nm if x == "tgt" else x for x in t]
                if k == at and kind in (1, 2):
                    g = rng.randrange(1, len(t)) if len(t) > 1 else 0
                    text.append(join(t[:g]) + rng.choice([" ", "\t", "\r", "\n"]) * size + join(t[g:]) + "\n")
                else:
                    text.append(join(t) + "\n")
            variant = "".join(text)
            ctx.count("variants compared")
            ctx.count("huge layouts")
            ctx.submit([base, variant], judge, key=variant)
        ctx.flush()


def program(ctx):
    rng = ctx.rng
    n = rng.choice([1, 2, 3, 4, 5, 7, 10, rng.randint(1, 30)])
    names = rng.sample([x for x in NAMES if x not in ("CC", "main", "c", "a")], 3)
    items = []          # ("i", tokens) or ("l", name) or ("d", text)
    dk = rng.random() < 0.3
    if dk:
        items.append(("d", [".dksh", "compute"]))
        if rng.random() < 0.5:
            items.append(("d", [".num_gprs", spell_int(rng, rng.randrange(200))]))
        if rng.random() < 0.5:
            items.append(("d", [".workgroup_size", "1", "0x2", spell_int(rng, 64)]))
        items.append(("l", "main"))
    lab_at = {}
    for nm in names:
        lab_at.setdefault(rng.randint(0, n), []).append(nm)
    for k in range(n + 1):
        for nm in lab_at.get(k, ()):
            items.append(("l", nm))
        if k == n:
            break
        if rng.random() < 0.25:
            text = branch_text(rng, rng.choice(LABEL_FORMS), "$T")
            items.append(("i", ["\x01" + rng.choice(names) if x == "$T" else x for x in tokens_of(text)]))
        else:
            i = gen.valid_inst(rng, rng.choice(gen.PLAIN_FORMS), 0.25, 0.4)
            items.append(("i", i.tokens() if i else ["NOP", ";"]))
    base = "".join(join([y.lstrip("\x01") for y in x]) + "\n" if k != "l" else x + ":\n" for k, x in items)
    for _ in range(6):
        put(ctx, base, variant(ctx, items, names))


def tokens_of(text):
    from ..lex import lex
    return [text[t.s:t.e] for t in lex(text)[:-1]]


def variant(ctx, items, names):
    rng = ctx.rng
    mode = rng.choice(["spread", "squeeze", "lines", "oneline", "uniform"])
    gap = rng.choice(GAPS)
    dens = rng.choice([0.1, 0.5, 0.9])
    ren = {}
    if rng.random() < 0.4:
        fresh = rng.sample(["aa", "Label_1", "X", "zZ9_", "L", "verylonglabelname" * 8, "MOV", "b"], 3)
        if rng.random() < 0.6:
            fresh = rng.sample(gen.REGLIKE, 3) if rng.random() < 0.5 else gen.name_family(rng, 3)
        ren = dict(zip(names, fresh))
    resp = rng.random() < 0.5
    used = set(names) | set(ren.values()) | {"main"}
    out = []
    fresh_line = True

    def newline():
        nonlocal fresh_line
        if not fresh_line:
            out.append(rng.choice(["\n", "\r\n", "\n\n", " \n", "\t\r\n"]))
            fresh_line = True
    k = 0
    for kind, x in items:
        if rng.random() < 0.08 and kind != "d":
            # an extra label, used by nobody
            k += 1
            nm = rng.choice(["extra%d", "q%d", "R_%d", "Pz%d", "R%dx", "P%dx", "PT%d", "R0%d_"]) % k
            if nm not in used:
                if rng.random() < 0.8:
                    newline()
                else:
                    out.append(" ")
                out.append(nm + ":" + rng.choice([" ", "\n", "\n\n", "\t"]))
                fresh_line = out[-1].endswith("\n")
        if kind == "l":
            newline()
            out.append(ren.get(x, x) + ":" + rng.choice([" ", "\n", "\n\n", "\t", "\r\n"]))
            fresh_line = out[-1].endswith("\n")
            continue
        if kind == "d":
            if out and not fresh_line:
                newline()
            vals = [respell(rng, v) if resp else v for v in x]
            out.append(rng.choice(["", " ", "\t"]) + rng.choice([" ", "\t", "  "]).join(vals) +
                       rng.choice(["\n", "\r\n", " \n", "\n\n\n"]))
            fresh_line = True
            continue
        t = [ren.get(v[1:], v[1:]) if v[0] == "\x01" else v for v in x]
        if resp:
            t = [respell(rng, v) for v in t]
        if mode == "spread":
            out.append(scatter(rng, t, dens))
        elif mode == "squeeze":
            out.append(squeeze(t))
        elif mode == "uniform":
            out.append(uniform(t, gap))
        else:
            out.append(join(t))
        fresh_line = False
        if mode == "lines" or rng.random() < 0.3:
            out.append(rng.choice(["\n", "\r\n", "\n\n", "\n  \n", "\n"]))
            fresh_line = True
        elif mode != "squeeze":
            out.append(rng.choice([" ", "", "\t", "\r"]))
    out.append(rng.choice(["", "\n", " ", "\t\t", "\r\n"]))
    return "".join(out)


def defaults(ctx):
    """Spelling out the default of an omitted modifier."""
    rng = ctx.rng
    for form in isa.FORMS:
        for _ in range(3):
            base = gen.valid_inst(rng, form, 0.2)
            if base is None:
                continue
            for i, s in enumerate(form.slots):
                if not s.optional:
                    continue
                ch = s.all_choices(rng)
                empty = [c for c in ch if not c[1]]
                if not empty:
                    continue
                same = [c for c in ch if c[1] and c[0] == empty[0][0]]
                a = base.with_slot(i, empty[0]).text()
                ra = refasm.assemble(a)
                if not ra.ok:
                    continue
                for c in same:
                    v = base.with_slot(i, c).text()
                    rv = refasm.assemble(v)
                    if rv.ok and rv.words == ra.words:
                        ctx.count("defaults spelt out")
                        put(ctx, a, v)
