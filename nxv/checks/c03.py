"""C03: accepted instructions that differ in one slot (or in operand order/kind) never share a word."""
import re

from .. import gen, isa, refasm
from ..gen import Inst
from ..lex import lex

LEVEL = "exploration"
NEEDS = [("plain", "driver")]
RULE = ("groups of instructions around a random valid baseline that differ in one slot (all values of "
        "the slot), in two slots, in the guard, in operand order, or in one token (also outside the "
        "specified ranges and forms: whatever is accepted must not alias another instruction), and pools of all operand-kind "
        "forms of a mnemonic; within a group the emitted (word, control) pairs are compared pairwise "
        "by a hash join; non-trivial = a group in which at least two instructions with different "
        "meaning were accepted; distinct by the group's set of texts")
ASSUMPTIONS = ["nxv/isa.py decides which spellings mean the same instruction (explicit defaults, float "
               "literals that round alike)"]
MINIMUM = {"quick": {"accepted": 100000, "distinct forms": 265, "pairs with different meaning": 10 ** 6}}


def tasks(tier):
    reps = 1 if tier == "quick" else 10
    t = [("form", f.index, r) for r in range(reps) for f in isa.FORMS]
    t += [("pool", m, r) for r in range(reps) for m in sorted(isa.BY_MNEMONIC)]
    return t


def group_judge(keys):
    def j(o):
        seen = {}
        for k, x in enumerate(o):
            if not x.ok:
                continue
            w = tuple(x.words)
            if w in seen and keys[seen[w]] != keys[k]:
                return "inputs #%d and #%d mean different instructions but share the encoding %016x" % (
                    seen[w], k, x.words[1] if len(x.words) > 1 else 0)
            seen.setdefault(w, k)
    return j


def submit(ctx, insts):
    """A colliding group is narrowed down to the colliding pair before confirmation."""
    texts, keys = [], []
    seen = set()
    for i in insts:
        t = i if isinstance(i, str) else i.text()
        if t in seen:
            continue
        seen.add(t)
        r = refasm.assemble(t)
        if r.unspec:
            continue
        if not r.ok or len(r.stmts) != 1:
            # not an instruction of the specification; should the assembler accept it all the same, it
            # must not get the word of an instruction written differently
            if not r.ok:
                ctx.count("neighbours outside the specification")
                texts.append(t)
                keys.append(tuple((q.k, q.d) for q in lex(t)))
            continue
        st = r.stmts[0]
        ctx.saw("forms", st.form.index)
        texts.append(t)
        keys.append((st.word, st.ctl))
    n = len(set(keys))
    if n < 2:
        return
    ctx.count("pairs with different meaning", n * (n - 1) // 2)
    g = group_judge(keys)

    def j(o):
        m = g(o)
        if m:
            a, b_ = [int(x.strip("#")) for x in m.split() if x.startswith("#")]
            pk = group_judge([keys[a], keys[b_]])
            ctx.alarm([texts[a], texts[b_]], pk, m, [o[a], o[b_]], "plain", None, True)
        return None
    ctx.submit(texts, j)


def neighbours(rng, inst, voc):
    """Texts one token away from an instruction, most of them not instructions at all."""
    toks = inst.tokens()
    out = []
    for i, t in enumerate(toks):
        if t in ("@", ",", ";", "[", "]"):
            continue
        cand = set()
        if re.fullmatch(r"R(\d+|Z)", t):
            v = 255 if t == "RZ" else int(t[1:])
            cand |= {"R%d" % (v ^ (1 << k)) for k in range(8)} | {"R%d" % (v | 1 << k) for k in range(8)}
            cand |= {"R%d" % (v & rng.randrange(256)), "R%d" % rng.randrange(255), "RZ", "R%d" % (v + 256)}
        elif re.fullmatch(r"!?P[0-6T]", t):
            cand |= {n + g for g in gen.GUARDS for n in ("", "!")}
        elif gen.is_number(t) and "." not in t:
            v = int(t, 0) if not re.fullmatch(r"[+-]?0\d+", t) else int(t, 8)
            for k in range(1, 64):
                cand |= {str(v + (1 << k)), str(v - (1 << k))}
            cand = {("+" if t[0] == "+" and c[0] != "-" else "") + c for c in cand}
            cand |= {str(-v), str(~v), str(v + 1), str(v - 1), str(v * 4), str(v // 4)}
        else:
            cand |= set(rng.sample(voc, 12))
        cand.discard(t)
        out += [gen.join(toks[:i] + [c] + toks[i + 1:]) for c in sorted(cand)]
        if t[0] == ".":
            out.append(gen.join(toks[:i] + toks[i + 1:]))
            out.append(gen.join(toks[:i] + [t, t] + toks[i + 1:]))
    # guards, also where none is allowed
    bare = toks[2:] if toks[0] == "@" else toks
    out += [gen.join(["@", n + g] + bare) for g in gen.GUARDS for n in ("", "!")] + [gen.join(bare)]
    return out


def permute_operands(rng, inst):
    """Exchange the register numbers of two register slots."""
    regs = [i for i, s in enumerate(inst.form.slots)
            if type(s).__name__ == "gpr"]
    out = []
    for x in range(len(regs)):
        for y in range(x + 1, len(regs)):
            a, b_ = inst.ch[regs[x]], inst.ch[regs[y]]
            if a[0][1] or b_[0][1]:
                continue
            out.append(inst.with_slot(regs[x], b_).with_slot(regs[y], a))
    return out


def run(ctx, task):
    rng = ctx.rng
    if task[0] == "pool":
        forms = isa.BY_MNEMONIC[task[1]]
        insts = []
        for _ in range(1500 if ctx.quick else 4000):
            f = rng.choice(forms)
            i = gen.gen_inst(rng, f)
            insts.append(i)
            if rng.random() < 0.3:
                insts += permute_operands(rng, i)
        submit(ctx, insts)
        return
    form = isa.FORMS[task[1]]
    voc = gen.vocab()
    for _ in range(20 if ctx.quick else 60):
        base = gen.valid_inst(rng, form, 0.3, 0.1)
        if base is not None:
            submit(ctx, [base] + neighbours(rng, base, voc))
    for _ in range(6 if ctx.quick else 10):
        base = gen.valid_inst(rng, form)
        if base is None:
            continue
        submit(ctx, [base] + neighbours(rng, base, voc))
        lists = []
        for i, s in enumerate(form.slots):
            ch = s.all_choices(rng)
            if len(ch) > 1:
                lists.append((i, ch))
            if len(ch) > 280:
                ch = rng.sample(ch, 280)
            submit(ctx, [base] + [base.with_slot(i, c) for c in ch])
        if not form.flags & isa.NO_PRED:
            submit(ctx, [Inst(form, n + g, base.ch, base.ann) for g in gen.GUARDS for n in ("", "!")])
        submit(ctx, [base] + permute_operands(rng, base))
        for x in range(len(lists)):
            for y in range(x + 1, len(lists)):
                (i, a), (j, c) = lists[x], lists[y]
                a = a if len(a) <= 5 else rng.sample(a, 5)
                c = c if len(c) <= 5 else rng.sample(c, 5)
                submit(ctx, [base.with_slot(i, p).with_slot(j, q) for p in a for q in c])
