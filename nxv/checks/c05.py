"""C05: branches reach the label or address they name, for every program layout."""
import re

from .. import gen, isa, refasm
from ..gen import LABEL_FORMS
from ..refasm import slot_address
from ..slots import spell_int

LEVEL = "exploration"
NEEDS = [("plain", "driver")]
RULE = ("programs with labels at random or systematic positions relative to the four-word bundles and "
        "branch-like instructions of every form naming them (forward, backward, self, end of program), "
        "with blank lines, CRLF, directives, other labels and statements broken across lines between; the monitor decodes every "
        "displacement from the output and adds it to the address of the following slot computed from "
        "the instruction's position; plus absolute addresses at the edges of the 24-bit range, "
        "undefined / near-miss names and programs of about 786,000 instructions at the exact label "
        "distance limit; distinct by text")
ASSUMPTIONS = ["a label is a name and a colon at the start of a line and names the next instruction; of "
               "several definitions of a name the first counts"]
MINIMUM = {"quick": {"branches decoded": 20000, "forward": 1000, "backward": 1000, "self": 100,
                     "must be rejected": 500}}

PAD = ["NOP;", "EXIT;", "MOV R1, R2;", "FADD R3, R4, 1.5;", "IADD R5, R6, c[0x1][0x10];", "SYNC;",
       "LDG.E R8, [R10];", "NOP; @WAIT 3", "RET;"]
NAMES = ["loop", "L0", "L1", "L10", "L", "x", "main", "end", "exit", "a1", "b_2", "LONG_label_name_123",
         "BRA", "NOP", "CC", "Rx", "Px", "P0x", "R1x", "PTx", "Z_", "l0", "lO", "c", "a", "QNAN", "T",
         "SSY", "L1_", "L1a", "BRAx", "compute", "dksh"]


def tasks(tier):
    n = 900 if tier == "quick" else 6000
    t = [("big", k) for k in range(4 if tier == "quick" else 8)]
    t += [("rand", i) for i in range(n)]
    t += [("mid", i) for i in range(24 if tier == "quick" else 120)]
    t += [("grid", f.index) for f in LABEL_FORMS]
    t += [("abs", f.index) for f in LABEL_FORMS]
    t += [("undef", i) for i in range(4 if tier == "quick" else 16)]
    return t


def target_of(word, index):
    d = (word >> 20 & 0x7FFFFF) - (1 << 23 if word >> 43 & 1 else 0)
    return slot_address(index) + 8 + d


def word_at(words, i):
    return words[slot_address(i) // 8]


def judge_targets(n, branches, raw_prefix=0):
    """branches: [(instruction index, expected address)]"""
    def j(o):
        o = o[0]
        if not o.ok:
            return "program with defined targets in range was not assembled: " + o.brief()
        w = o.words[raw_prefix:]
        if len(w) < 4 * ((n + 2) // 3):
            return "output too short: %d words for %d instructions" % (len(w), n)
        for i, a in branches:
            got = target_of(word_at(w, i), i)
            if got != a:
                return "instruction #%d at %#x branches to %#x, not to %#x" % (
                    i, slot_address(i), got, a)
    return j


def must_reject(why):
    def j(o):
        if o[0].ok:
            return why + ", but it was accepted: " + o[0].brief()
        if not o[0].rejected:
            return why + ", but the call ended abnormally: " + o[0].brief()
    return j


def branch_text(rng, form, target, guard=True, scattered=False):
    """An instruction of a label form with the given target text."""
    for _ in range(50):
        i = gen.gen_inst(rng, form, 0.2 if guard else 0, 0.15)
        k = next(n for n, s in enumerate(form.slots) if getattr(s, "is_label", False))
        i = i.with_slot(k, (None, ["8"]))
        if refasm.assemble(i.text()).ok:
            i = i.with_slot(k, (None, [target]))
            return gen.scatter(rng, i.tokens(), 0.6) if scattered else i.text()
    raise AssertionError("no instruction of form %r" % form)


def program(ctx, n, labels, branch_at, dksh=False, eol=None):
    """labels: {position: [names]}, branch_at: {index: name} -> text, [(index, name)]"""
    rng = ctx.rng
    eol = eol or rng.choice(["\n", "\n", "\r\n", "\n\n", "\n  \n\t\n", " \n"])
    out = []
    if dksh:
        out.append(rng.choice([".dksh compute\n", ".type compute\n"]))
        if out[0][1] == "d":
            out.append("main:\n")
    fresh = True
    wild = rng.random() < 0.25      # statements broken across lines, anything at the start of a line
    decoy = rng.random() < 0.15
    if wild:
        ctx.count("programs with statements across lines")
    for i in range(n + 1):
        for name in labels.get(i, ()):
            if not fresh:
                out.append("\n")
            out.append(name + ":" + rng.choice([" ", "\n", "\n\n", "\t", eol] + ([""] if i == n and name == labels[i][-1] else [])))
            # the text after the colon need not start a new line
            fresh = out[-1].endswith("\n")
        if i == n:
            break
        if decoy and rng.random() < 0.1:
            # a name and a colon that do not start a line: nothing is defined here
            out.append(rng.choice([" ", "\t", "\r", "  ", "\n ", "\n\t", "\n\r", " \r"]) +
                       rng.choice(rng.choice([v for v in labels.values() if v])) + ":" + rng.choice([" ", "\n", "\t", "\r"]))
            ctx.count("names with a colon inside a line")
            fresh = out[-1].endswith("\n")
        if rng.random() < 0.03 and dksh:
            if not fresh:
                out.append("\n")
            out.append(rng.choice([".num_gprs 16\n", ".shared_memory 64\n"]))
            fresh = True
        if rng.random() < 0.3 and not fresh:
            out.append(" ")
        if rng.random() < 0.15:
            out.append(rng.choice(["  ", "\t", " \t"]))
        if i in branch_at:
            out.append(branch_text(rng, rng.choice(LABEL_FORMS), branch_at[i], scattered=wild))
        elif rng.random() < (0.7 if wild else 0.3):
            inst = gen.valid_inst(rng, rng.choice(gen.PLAIN_FORMS), 0.2, 0.3)
            out.append("NOP;" if not inst else inst.text() if not wild else
                       gen.scatter(rng, inst.tokens(), rng.choice([0.1, 0.5])))
        else:
            out.append(rng.choice(PAD[:7]))
        if rng.random() < 0.75:
            out.append(eol)
            fresh = eol.endswith("\n")
        else:
            out.append(rng.choice(["", " ", "\t"]))
            fresh = False
    return "".join(out)


def put(ctx, text, n, labels, branch_at):
    pos = {}
    for p in sorted(labels):
        for name in labels[p]:
            pos.setdefault(name, p)
    exp = []
    for i, name in sorted(branch_at.items()):
        a = slot_address(pos[name])
        exp.append((i, a))
        k = "self" if pos[name] == i else "forward" if pos[name] > i else "backward"
        ctx.count(k)
        ctx.saw("(source slot, target slot, direction)", (i % 3, pos[name] % 3, k))
    ctx.count("branches decoded", len(exp))
    r = refasm.assemble(text)
    if not r.ok or [(i, target_of(r.stmts[i].word, i)) for i, _ in exp] != exp:
        ctx.count("generator disagreements")
        return
    skip = 32 if r.dksh else 0
    ctx.submit([text], judge_targets(n, exp, skip))


def run(ctx, task):
    rng = ctx.rng
    kind = task[0]
    if kind == "rand":
        for _ in range(60):
            n = rng.choice([1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 13, rng.randint(1, 60),
                            rng.randint(1, 30)])
            if rng.random() < 0.02:
                n = rng.randint(200, 1500)
            names = rng.sample(NAMES, rng.randint(1, min(10, len(NAMES))))
            if rng.random() < 0.15:
                names = ["".join(rng.choice("abcLXyz_019") for _ in range(rng.randint(1, 40)))
                         for _ in range(12)]
                names = ["q" + s for s in names]
            elif rng.random() < 0.3:
                names = gen.name_family(rng, 8)
                ctx.count("programs with look-alike names")
            labels = {}
            for nm in names:
                labels.setdefault(rng.randint(0, n), []).append(nm)
            if rng.random() < 0.2:      # a second definition of a name
                labels.setdefault(n, []).append(rng.choice(names))
            usable = [x for x in names if x not in ("CC",)]
            if not usable:
                continue
            dens = rng.choice([0.1, 0.5, 1.0]) if n < 100 else 0.05
            branch_at = {i: rng.choice(usable) for i in range(n) if rng.random() < dens}
            dksh = rng.random() < 0.15 and "main" not in names
            put(ctx, program(ctx, n, labels, branch_at, dksh), n, labels, branch_at)
    elif kind == "grid":
        # every source and target position of a small program, for this form
        form = isa.FORMS[task[1]]
        m = 10 if ctx.quick else 16
        for s in range(m):
            for t in range(m + 1):
                n = m
                lines = []
                for i in range(n):
                    if i == t:
                        lines.append("tgt:")
                    lines.append(branch_text(rng, form, "tgt") if i == s else rng.choice(PAD[:4]))
                if t == n:
                    lines.append("tgt:")
                put(ctx, "\n".join(lines) + rng.choice(["", "\n"]), n, {t: ["tgt"]}, {s: "tgt"})
    elif kind == "mid":
        # distances across every power of two up to 2^19 bytes
        for _ in range(4):
            n = rng.choice([300, 1000, 3000, 6200, 12400, 25000])
            n += rng.randint(-60, 60)
            br = {i: rng.choice(["A", "B", "C"]) for i in rng.sample(range(n), 12)}
            labels = {}
            for nm in "ABC":
                labels.setdefault(rng.choice([0, 1, 2, 3, n, n - 1, n - 2, rng.randint(0, n)]),
                                  []).append(nm)
            out = []
            for i in range(n + 1):
                for nm in labels.get(i, ()):
                    out.append("\n%s:\n" % nm)
                if i < n:
                    out.append("BRA %s;" % br[i] if i in br else "NOP;")
            put(ctx, "".join(out), n, labels, br)
    elif kind == "abs":
        form = isa.FORMS[task[1]]
        for n in list(range(0, 8)) + [rng.randint(8, 40), 100, 3000]:
            pc = slot_address(n)
            lo, hi = pc + 8 - (1 << 23), pc + 8 + (1 << 23) - 1
            pre = "".join(rng.choice(PAD[:5]) for _ in range(n))
            good = {lo, lo + 1, hi, hi - 1, 0, 8, pc, pc + 8, pc - 8, lo + 8, hi - 7, 1, 7, -1, -8, 1 << 22,
                    -(1 << 22), pc + 8 + (1 << 22), pc + 7 + (1 << 22), pc + 9}
            good |= {rng.randint(lo, hi) for _ in range(10)}
            for k in range(23):
                for d in (-1, 0, 1):
                    good.update((pc + 8 + (1 << k) + d, pc + 8 - (1 << k) + d))
            for a in sorted(good):
                if lo <= a <= hi:
                    ctx.count("absolute targets")
                    ctx.submit([pre + branch_text(rng, form, spell_int(rng, a))],
                               judge_targets(n + 1, [(n, a)]))
            bad = [hi + 1, hi + 2, hi + 8, hi + 9, lo - 1, lo - 2, lo - 8, lo - 9, 1 << 24, -(1 << 24), 1 << 31,
                   (1 << 31) - 1, 1 << 32, (1 << 32) + 8, -(1 << 31), (1 << 32) + pc, -(1 << 32), (1 << 24) + 8,
                   (1 << 63) - 1, -(1 << 63), -(1 << 63) + 7, (1 << 63) - 8, 1 << 40, hi + (1 << 24)]
            for a in bad:
                ctx.count("must be rejected")
                ctx.submit([pre + branch_text(rng, form, spell_int(rng, a))],
                           must_reject("target %#x is out of the displacement's range" % a))
    elif kind == "undef":
        for form in LABEL_FORMS:
            for _ in range(12):
                name = rng.choice(["loop", "L1", "end_0", "Xy"])
                near = rng.choice([name + "_", name + "0", name[:-1] or "q", name.lower() + "z",
                                   name.swapcase(), name + name, "undefined", "_" + name, name[1:]])
                if rng.random() < 0.4:
                    name, near = gen.name_family(rng, 2)
                if near == name or near[0].isdigit():
                    continue
                defs = rng.choice(["%s:\nNOP;\n" % name, "NOP;\n%s: NOP;\n" % name,
                                   "NOP;\n  %s:\nNOP;\n" % near, "NOP;\n\t%s: NOP;" % near,
                                   "NOP; %s: NOP;\n" % near, "NOP;\r%s: NOP;\n" % near,
                                   "\r%s: NOP;\n" % near, "NOP;\n\r%s:\nNOP;\n" % near])
                br = branch_text(rng, form, near)
                pos = rng.choice(["pre", "post"])
                text = br + "\n" + defs if pos == "pre" else defs + br
                if refasm.assemble(text).ok:
                    continue
                ctx.count("must be rejected")
                ctx.submit([text], must_reject("target %r is not defined" % near))
            for _ in range(25):
                # words that start a line, or occur elsewhere, but are no labels
                i = gen.valid_inst(rng, rng.choice(gen.PLAIN_FORMS), 0.3, 0.3)
                if i is None:
                    continue
                toks = i.tokens()
                words = [t.lstrip(".") for t in toks if re.fullmatch(r"\.?[A-Za-z_][A-Za-z_0-9]*", t)]
                words = [w for w in words if w and not re.fullmatch(r"R[0-9Z]*|P[0-9T]", w)] + ["main", "compute", "num_gprs", "dksh", "CC"]
                near = rng.choice(words)
                defs = rng.choice(["", "x:\n", ".type compute\n", ".num_gprs 8\n"]) + \
                    rng.choice([i.text(), gen.scatter(rng, toks, 0.5), "\n".join(toks)]) + rng.choice(["\n", " ", "\nNOP;\n"])
                br = branch_text(rng, form, near)
                text = br + "\n" + defs if rng.random() < 0.4 else defs + br
                if refasm.assemble(text).ok or not refasm.assemble(defs).ok:
                    continue
                ctx.count("must be rejected")
                ctx.count("targets that are words of the program")
                ctx.submit([text], must_reject("target %r is not defined" % near))
    else:
        big(ctx, task[1])


def big(ctx, k):
    """Label distances at the exact limit of the field: 2^20 slots."""
    rng = ctx.rng
    body = rng.choice(["NOP;", "NOP;\n", "EXIT;"])
    # forward: branch at index s, label before index t
    if k % 4 in (0, 1):
        s = rng.randrange(3)
        want = slot_address(s) + 8 + (1 << 23)
        t = next(t for t in range(786000, 786800) if slot_address(t) >= want)
        if k % 4 == 0:
            t -= 1
        text = "NOP;" * s + "BRA far;\n" + body * (t - s - 1) + "\nfar:\nEXIT;"
        n = t + 1
        fits = slot_address(t) - slot_address(s) - 8 < 1 << 23
    else:
        t = rng.randrange(3)
        s = next(s for s in range(786000, 786800) if slot_address(s) + 8 - slot_address(t) > 1 << 23)
        if k % 4 == 2:
            s -= 1
        text = "NOP;" * t + "\nfar:\n" + body * (s - t) + "BRA far;"
        n = s + 1
        fits = slot_address(s) + 8 - slot_address(t) <= 1 << 23
    ctx.count("programs at the distance limit")
    if fits:
        ctx.submit([text], judge_targets(n, [(s, slot_address(t))]), key=("big", k))
    else:
        ctx.submit([text], must_reject("label at distance over 2^23"), key=("big", k))
    ctx.flush()
