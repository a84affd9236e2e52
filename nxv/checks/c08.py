"""C08: only well-formed statements are accepted, one bad statement fails the program, and every
statement of a supported form is accepted."""
from .. import gen, isa, refasm
from ..gen import join, loose_join

LEVEL = "exploration"
NEEDS = [("plain", "driver")]
RULE = ("for a baseline of every form: each token deleted, duplicated, exchanged with its neighbour, "
        "replaced by and preceded by tokens of the whole vocabulary; random token-level and "
        "character-level edits; the same edits inside multi-statement programs at every position; "
        "accept/reject compared with the grammar of the specification; distinct by text; "
        "non-trivial = all edited texts")
ASSUMPTIONS = ["grammar of nxv/isa.py, nxv/slots.py, nxv/lex.py; texts whose meaning depends on the C "
               "library (0b literals) are excluded"]
MINIMUM = {"quick": {"well-formed": 20000, "malformed": 200000, "malformed inside a program": 10000,
                     "distinct forms edited": 265, "distinct byte values placed": 255}}

CHARS = " \t\n\r;,.@[]|~-+!:_0123456789abcdefxABCDEFGHIJKLMNOPQRSTUVWXYZ\"#%&'()*/<=>?\\^`{}$\x01\x7f\x80\xff"


def tasks(tier):
    reps = 1 if tier == "quick" else 6
    t = [("nbr", f.index, r) for r in range(reps) for f in isa.FORMS]
    t += [("rand", i) for i in range(120 if tier == "quick" else 1200)]
    t += [("prog", i) for i in range(120 if tier == "quick" else 1200)]
    t += [("mnem", i) for i in range(4)]
    t += [("byte", i) for i in range(8 if tier == "quick" else 40)]
    t += [("dir", i) for i in range(8 if tier == "quick" else 60)]
    return t


def judge(ok, why):
    def j(o):
        o = o[0]
        if ok:
            if not o.ok:
                return "well-formed, but not accepted: " + o.brief()
        elif o.ok:
            return "malformed (%s), but accepted: %s" % (why, o.brief())
        elif not o.rejected:
            return "malformed (%s), but not diagnosed: %s" % (why, o.brief())
    return j


def put(ctx, text, in_prog=False):
    r = refasm.assemble(text)
    if r.unspec:
        return
    ctx.count("well-formed" if r.ok else "malformed")
    if in_prog and not r.ok:
        ctx.count("malformed inside a program")
    if not r.ok:
        ctx.saw("reasons", r.why)
    ctx.submit([text], judge(r.ok, r.why))


def char_edit(rng, text):
    k = rng.randrange(6)
    i = rng.randrange(len(text))
    if k == 0:
        return text[:i] + text[i + 1:]
    if k == 1:
        return text[:i] + rng.choice(CHARS) + text[i:]
    if k == 2:
        return text[:i] + rng.choice(CHARS) + text[i + 1:]
    if k == 3:
        return text[:i]
    if k == 4:
        return text[i:]
    j = min(len(text), i + rng.randint(1, 8))
    return text[:j] + text[i:j] + text[j:]


ALWAYS = [".reuse", ".CC", ".X", ".SAT", "-", "+", "~", "|", ",", ";", "@", "[", "]", "RZ", "PT", "!PT", "CC", "0", "R", ".", "1.0"]


def variants(t):
    """Near misses of a token: case, prefixes, extensions, decorations."""
    out = {t.lower(), t.upper(), t.capitalize(), t[:-1], t[1:], t + "X", t + "0", t + "_", t + t, "." + t, t + ".", "-" + t,
           "!" + t, "~" + t, t + ":"}
    if t[0] == ".":
        out |= {t[:2], t[:3], t[:-2], t[1:], ".." + t[1:], ".N" + t[1:], t + t[1:], t.swapcase()}
    return sorted(x for x in out - {t, ""})


DIRECTIVES = {".dksh": "compute", ".type": "compute", ".num_gprs": "16", ".workgroup_size": "1 2 3", ".shared_memory": "256",
              ".local_memory": "32"}
TYPES = ["compute", "vertex", "tess_control", "hull", "tess_eval", "domain", "geometry", "fragment", "pixel"]


def directives(ctx):
    """Directive names, type names and value lists, each with near misses, around and inside a program."""
    rng = ctx.rng
    voc = gen.vocab()

    def line(d):
        # before, between and after instructions, after a label, twice
        i = gen.valid_inst(rng, rng.choice(gen.PLAIN_FORMS), 0.2, 0.2)
        s = i.text() if i else "NOP;"
        k = rng.randrange(7)
        put(ctx, ["%s\nmain:\n%s", "main:\n%s\n%s", "main: %s\n%s", "main:\nNOP;\n%s\n%s", "main:\nNOP; %s\n%s",
                  ".num_gprs 8\nmain:\n  %s\r\n%s", "main:\n%s\n.shared_memory 16\n%s"][k] % (d, s), True)
        put(ctx, "main:\n" + s + "\n" + d + "\nNOP;", True)
    for name, val in DIRECTIVES.items():
        for _ in range(2):
            line(name + " " + val)
        near = set(variants(name))
        near |= {name + c for c in "sX_019:.-"} | {name[:i] for i in range(1, len(name))} | {name[:i] + name[i + 1:] for i in range(len(name))}
        near |= {name[:i] + name[i].upper() + name[i + 1:] for i in range(len(name))}
        near |= {name.replace("_", "-"), name.replace("_", ""), name + "_size", name.replace("memory", "mem"), name + name}
        for o in DIRECTIVES:
            near |= {name + o, name + o[1:], o[:len(o) // 2] + name[len(name) // 2:]}
        for v in sorted(near):
            line(v + " " + val)
        for v in rng.sample(voc, 40) + ALWAYS:
            line(v + " " + val)
            line(name + " " + v)
            line(name + " " + val + " " + v)
            line(name + v + " " + val)
    for name in (".dksh", ".type"):
        for t in TYPES:
            line(name + " " + t)
            for v in sorted(set(variants(t)) | {t + c for c in "sX_019.-"} | {t[:i] for i in range(1, len(t))} |
                            {t[:i] + t[i].upper() + t[i + 1:] for i in range(len(t))}):
                line(name + " " + v)


def strange_bytes(ctx, part):
    """Every byte value, alone and before a colon, in front of, behind and instead of tokens of all kinds."""
    rng = ctx.rng
    for b in range(1 + part % 8, 256, 8):
        c = chr(b)
        for x in (c, c + ":", c + "x:", "x" + c + ":", c + c, c + rng.choice(CHARS), rng.choice(CHARS) + c,
                  chr(rng.randint(1, 255)) + c + ":", c + " :"):
            base = gen.valid_inst(rng, rng.choice(isa.FORMS), 0.3, 0.4)
            if base is None:
                continue
            toks = base.tokens()
            t = join(toks)
            put(ctx, x)
            put(ctx, x + t)
            put(ctx, x + "\n" + t)
            put(ctx, t + x)
            put(ctx, t + "\n" + x + " " + t, True)
            put(ctx, t + " " + x + "\nNOP;", True)
            put(ctx, ".num_gprs 8" + x + "\n" + t)
            put(ctx, ".num_gprs 8\n" + x + t)
            put(ctx, "." + x + "\n" + t)
            for i in range(len(toks)):
                put(ctx, loose_join(toks[:i] + [toks[i] + x] + toks[i + 1:]))
                put(ctx, loose_join(toks[:i] + [x + toks[i]] + toks[i + 1:]))
                if rng.random() < 0.5:
                    put(ctx, loose_join(toks[:i] + [x] + toks[i + 1:]))
                    put(ctx, loose_join(toks[:i] + [x] + toks[i:]))
        ctx.saw("byte values placed", b)


def run(ctx, task):
    rng = ctx.rng
    kind = task[0]
    voc = gen.vocab()
    if kind == "byte":
        strange_bytes(ctx, task[1])
        return
    if kind == "dir":
        directives(ctx)
        return
    if kind == "nbr":
        form = isa.FORMS[task[1]]
        ctx.saw("forms edited", form.index)
        # a short one (few optional modifiers) and a full one
        cands = [x for x in (gen.valid_inst(rng, form, 0.3, 0.3) for _ in range(12)) if x]
        cands.sort(key=lambda i: len(i.tokens()))
        own = set()
        for s in form.slots:
            for _, t in s.all_choices(rng)[:60]:
                own.update(t)
        own.discard("$MIRROR")
        for base in (cands[:1] + cands[-1:]) if ctx.quick else cands[:2] + cands[-2:]:
            toks = base.tokens()
            n = len(toks)
            put(ctx, join(toks))
            for i in range(n):
                put(ctx, loose_join(toks[:i] + toks[i + 1:]))
                put(ctx, loose_join(toks[:i + 1] + toks[i:]))
                if i + 1 < n:
                    put(ctx, loose_join(toks[:i] + [toks[i + 1], toks[i]] + toks[i + 2:]))
                put(ctx, loose_join(toks[:i]))
                sel = list(own) if len(own) < 60 else rng.sample(sorted(own), 60)
                sel += rng.sample(voc, 60 if ctx.quick else 300)
                sel += ALWAYS + variants(toks[i])
                for v in sel:
                    put(ctx, loose_join(toks[:i] + [v] + toks[i + 1:]))
                    put(ctx, loose_join(toks[:i] + [v] + toks[i:]))
            for s in (";", ",", ".CC", "R0", "0", "@ P0", "NOP", "PT", ", R0", ", PT", "@ WAIT 1", ".reuse"):
                put(ctx, join(toks) + s)
                put(ctx, s + " " + join(toks))
    elif kind == "rand":
        for _ in range(2500):
            i = gen.gen_inst(rng, None, 0.3, 0.2)
            t = i.tokens()
            r = rng.random()
            if r < 0.15:
                text = join(t)
            elif r < 0.6:
                for _ in range(rng.choice([1, 1, 1, 2, 3])):
                    t = gen.mutate_tokens(rng, t) or [";"]
                text = loose_join(t) if rng.random() < 0.8 else join(t)
            else:
                text = join(t)
                for _ in range(rng.choice([1, 1, 2, 3])):
                    text = char_edit(rng, text) or ";"
            put(ctx, text)
    elif kind == "mnem":
        # mnemonics: prefixes, extensions, case, near misses, combinations with modifiers glued on
        for m, fs in isa.BY_MNEMONIC.items():
            base = gen.valid_inst(rng, rng.choice(fs), 0)
            if base is None:
                continue
            rest = join(base.tokens()[1:])
            for v in {m.lower(), m.capitalize(), m + "X", m + "2", m + "_", m[:-1], "." + m, m + ".", m + "." + m,
                      m + "32I", m + "32", "_" + m, m + m, m[1:], m + ":", m + "..",
                      m[:1], m.swapcase()} - {""}:
                for g in ("", "@P0 ", "NOP;\n"):
                    put(ctx, g + v + " " + rest)
            for other in rng.sample(sorted(isa.BY_MNEMONIC), 12):
                put(ctx, other + " " + rest)
            put(ctx, m + ";")
            put(ctx, m)
            put(ctx, m + " " + rest[:-1])
            put(ctx, m + " " + rest[:-1] + "\n" + m + " " + rest)
    else:
        pool = gen.gen_program_items(rng, 80)
        for _ in range(350):
            n = rng.choice([1, 2, 3, 4, 5, 6, 9, rng.randint(1, 24)])
            stm = [rng.choice(pool).tokens() for _ in range(n)]
            if rng.random() < 0.9:
                k = rng.choice([0, n - 1, rng.randrange(n)])
                r = rng.random()
                if r < 0.5:
                    stm[k] = gen.mutate_tokens(rng, stm[k])
                elif r < 0.62:
                    stm.insert(k, [rng.choice(voc)])
                elif r < 0.7:
                    stm[k] = [rng.choice([".foo", ".num_gpr", ".DKSH compute", ".dksh", ".dksh graphics", ".type",
                                          ".typ compute", ".num_gprs", ".num_gprs R1", ".workgroup_size 1 2",
                                          ".local_memory -1", ".shared_memory 1.0", ".type compute NOP ;",
                                          ".num_gprs 4 5", ".dksh compute ;"]) + "\n"]
                elif r < 0.78:
                    stm[k] = stm[k][:-1]
                elif r < 0.86:
                    stm[k] = stm[k] + [rng.choice([";", ",", ":", ".", "R0", "0", "x", "@", "PT"])]
                else:
                    stm = [t for t in stm]
                    text = "\n".join(join(t) for t in stm)
                    put(ctx, char_edit(rng, text) or ";", True)
                    continue
            put(ctx, rng.choice(["\n", " ", "\n\n"]).join(loose_join(t) for t in stm if t), True)
