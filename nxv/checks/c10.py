"""C10: DKSH output is a self-consistent container reporting the directives given."""
import struct

from .. import gen, refasm
from ..refasm import TYPES, MAX_INT, MAX_LOCAL
from ..slots import spell_int

LEVEL = "exploration"
NEEDS = [("plain", "driver")]
RULE = ("programs of 0 to 200 (every residue of the 256-byte code block) and of up to 98,307 instructions with directives in "
        "random order, position, notation and with boundary values; the monitor decodes the container "
        "field by field and compares the code section with the raw assembly of the same statements; "
        "missing, malformed, out-of-range, repeated or unknown directives and bad entry points must be "
        "rejected; distinct by text; non-trivial = has a container or type directive")
ASSUMPTIONS = ["deko3d container layout: header DKSH, 24-byte program headers after the 24-byte file header, "
               "scratch = 32 * local + 0x800"]
MINIMUM = {"quick": {"containers decoded": 20000, "must be rejected": 20000,
                     "distinct code sizes": 60, "raw outputs": 1000}}


def tasks(tier):
    t = [("good", i) for i in range(160 if tier == "quick" else 1500)]
    t += [("bad", i) for i in range(64 if tier == "quick" else 600)]
    t += [("size", i) for i in range(8)]
    # code sizes around 64 KiB and beyond, entry points anywhere in them
    big = [6141, 6143, 6144, 6145, 12288, 12301, 30000, 49152, 49155, 70001, 98304, 98307]
    t = [("large", n) for n in (big if tier == "quick" else big * 4 + [196608, 196611, 400000, 786432, 800001])] + t
    return t


def up(v, a):
    return -(-v // a) * a


def decode(o, raw, opt, entry):
    """Independent reader of the container."""
    code = struct.pack("<%dQ" % len(raw.words), *raw.words)
    blob = struct.pack("<%dQ" % len(o.words), *o.words)
    size = up(len(code), 256)
    if len(blob) != 256 + size:
        return "container has %d bytes, control section and code need %d" % (len(blob), 256 + size)
    magic, hsz, csz, codesz, poff, nprog = struct.unpack_from("<6I", blob, 0)
    want = [("magic", magic, 0x48534B44), ("header size", hsz, 24), ("control size", csz, 256),
            ("code size", codesz, size), ("programs offset", poff, 24), ("program count", nprog, 1)]
    typ, ent, gprs, coff, csize, scratch = struct.unpack_from("<6I", blob, 24)
    local = up(opt["local"], 16)
    want += [("type", typ, 5), ("entry point", ent, entry), ("register count", gprs, opt["gprs"]),
             ("constbuf offset", coff, 0), ("constbuf size", csize, 0),
             ("scratch", scratch, local * 32 + 0x800)]
    d0, d1, d2, sh, lp, ln, crs, bar = struct.unpack_from("<8I", blob, 48)
    want += [("workgroup x", d0, opt["wg"][0]), ("workgroup y", d1, opt["wg"][1]),
             ("workgroup z", d2, opt["wg"][2]), ("shared memory", sh, up(opt["shared"], 256)),
             ("local positive", lp, local), ("local negative", ln, 0), ("crs size", crs, 0x800),
             ("barriers", bar, 0)]
    for n, g, e in want:
        if g != e:
            return "%s is %#x, directives and code give %#x" % (n, g, e)
    if any(blob[80:256]):
        return "rest of the control section is not zero"
    if blob[256:256 + len(code)] != code:
        return "code section differs from the raw assembly of the same instructions"
    if any(blob[256 + len(code):]):
        return "code padding is not zero"


def judge(opt, entry):
    def j(o):
        raw, d = o
        if not raw.ok:
            return None
        if not d.ok:
            return "well-formed container was not assembled: " + d.brief()
        return decode(d, raw, opt, entry)
    return j


def raw_judge(o):
    raw, d = o
    if not raw.ok:
        return None
    if not d.ok:
        return "well-formed program was not assembled: " + d.brief()
    if d.words != raw.words:
        return "without the container directive the output must be the raw code: " + d.brief()


def reject_judge(why):
    def j(o):
        o = o[-1]
        if o.ok:
            return why + ", but it was accepted: " + o.brief()
        if not o.rejected:
            return why + ", but the call ended abnormally: " + o.brief()
    return j


def value(rng, hi):
    r = rng.random()
    if r < 0.5:
        return rng.randrange(0, 1024)
    if r < 0.8:
        k = rng.randrange(0, 31)
        return max(0, min(hi, (1 << k) + rng.choice([-1, 0, 1, 15, 16, 17, 255, 256, -16])))
    return rng.choice([0, 1, 15, 16, 17, 255, 256, 257, hi, hi - 1, hi - 15, hi - 16, hi - 255, hi - 256,
                       rng.randint(0, hi)])


def spell(rng, v):
    s = spell_int(rng, v)
    return s


def directive(rng, name, vals):
    ws = lambda: rng.choice([" ", "  ", "\t", " \t "])
    return name + "".join(ws() + v for v in vals) + rng.choice(["\n", " \n", "\r\n", "\n\n", "\t\n"])


def make(ctx, ninst=None):
    """-> (pieces, opt, kind): pieces = list of strings, directive pieces tagged."""
    rng = ctx.rng
    opt = {"gprs": 8, "wg": [1, 1, 1], "shared": 0, "local": 0}
    ds = []
    if rng.random() < 0.7:
        opt["gprs"] = value(rng, MAX_INT)
        ds.append((".num_gprs", [spell(rng, opt["gprs"])]))
    if rng.random() < 0.6:
        opt["wg"] = [value(rng, MAX_INT) for _ in range(3)]
        ds.append((".workgroup_size", [spell(rng, v) for v in opt["wg"]]))
    if rng.random() < 0.6:
        opt["shared"] = value(rng, MAX_INT)
        ds.append((".shared_memory", [spell(rng, opt["shared"])]))
    if rng.random() < 0.6:
        opt["local"] = value(rng, MAX_LOCAL)
        ds.append((".local_memory", [spell(rng, opt["local"])]))
    rng.shuffle(ds)
    return ds, opt


def build(rng, ds, insts, main_at, spread):
    """Distribute directives; labels as main: at the bundle main_at."""
    out = []
    n = len(insts)
    where = {}
    for d in ds:
        where.setdefault(rng.randint(0, n) if spread else 0, []).append(d)
    fresh = True
    for i in range(n + 1):
        for nm, vals in where.get(i, ()):
            if i == n:
                # directives must be followed by an instruction (end of input is not one): keep
                # them before the last instruction instead
                continue
            if not fresh:
                out.append("\n")
            out.append(rng.choice(["", "  ", "\t"]) + directive(rng, nm, vals))
            fresh = True
        if main_at == i:
            if not fresh:
                out.append("\n")
            out.append("main:" + rng.choice(["\n", " ", "\n\n"]))
            fresh = False
        if i < n:
            out.append(insts[i])
            out.append("\n")
            fresh = True
    return "".join(out)


def run(ctx, task):
    rng = ctx.rng
    kind = task[0]
    # the same instruction in two layouts: on a line of its own, and broken across lines anywhere
    pool = [(i.text(), gen.scatter(rng, i.tokens(), rng.choice([0.1, 0.5]))) for i in gen.gen_program_items(rng, 40)]
    if kind == "size":
        sizes = range(task[1], 201 if ctx.quick else 600, 8)
        for n in sizes:
            emit_good(ctx, pool, n)
        return
    if kind == "large":
        for _ in range(2):
            large(ctx, task[1])
        return
    if kind == "good":
        for _ in range(300):
            emit_good(ctx, pool, rng.choice([0, 1, 2, 3, 4, 6, 7, 8, 23, 24, 25, 48, rng.randint(0, 80)]))
        return
    for _ in range(900):
        emit_bad(ctx, pool)


def emit_good(ctx, pool, n):
    rng = ctx.rng
    insts = [rng.choice(pool) for _ in range(n)]
    wild = 1 if rng.random() < 0.25 else 0
    ds, opt = make(ctx)
    main_at = 3 * rng.randint(0, max(0, (n - 1) // 3)) if n else 0
    if rng.random() < 0.15 and n % 3 == 0:
        main_at = n
    spread = rng.random() < 0.3 and n > 0
    raw = "\n".join(i[0] for i in insts)
    container = rng.random() < 0.85
    typed = rng.random()
    if container:
        ds.insert(rng.randint(0, len(ds)), (".dksh", ["compute"]))
    elif typed < 0.5:
        ds.insert(rng.randint(0, len(ds)), (".type", ["compute"]))
    if n == 0:
        # a directive needs an instruction after it; the empty program is only reachable raw
        insts = [rng.choice(pool)]
        raw = insts[0][0]
        main_at = 0
    if rng.random() < 0.25:
        # a numeric directive given again: the last one counts
        nm = rng.choice([".num_gprs", ".shared_memory"])
        v = value(rng, MAX_INT)
        ds.append((nm, [spell(rng, v)]))
        opt["gprs" if nm == ".num_gprs" else "shared"] = v
        spread = False
    insts = [i[wild] for i in insts]
    ctx.count("programs with statements across lines", wild)
    text = build(rng, ds, insts, main_at, False)
    if spread:
        # same directives placed between instructions (order among them kept by position)
        text2 = build(rng, ds, insts, main_at, True)
        r = refasm.assemble(text2)
        r1 = refasm.assemble(text)
        if r.ok and r1.ok and r.words == r1.words:
            text = text2
    r = refasm.assemble(text)
    if not r.ok:
        ctx.count("generator disagreements")
        return
    ctx.saw("code sizes", len(r.code) * 8)
    if container:
        entry = 32 * (main_at // 3)
        ctx.count("containers decoded")
        ctx.submit([raw, text], judge(opt, entry), key=text)
    else:
        ctx.count("raw outputs")
        ctx.submit([raw, text], raw_judge, key=text)


def large(ctx, n):
    rng = ctx.rng
    insts = [rng.choice(["NOP;", "EXIT;", "MOV R1, R2;", "SYNC;"]) for _ in range(n)]
    ds, opt = make(ctx)
    ds.insert(rng.randint(0, len(ds)), (".dksh", ["compute"]))
    at = 3 * rng.choice([0, 1, (n - 1) // 3, rng.randint(0, (n - 1) // 3), min(2047, (n - 1) // 3), min(2048, (n - 1) // 3)])
    text = build(rng, ds, insts, at, False)
    ctx.saw("code sizes", up(n, 3) // 3 * 32)
    ctx.count("containers decoded")
    ctx.submit(["\n".join(insts), text], judge(opt, 32 * (at // 3)), key=("large", n, at, repr(ds)))
    # a misaligned entry point far into the program
    bad = min(n, at + rng.choice([1, 2]))
    if bad % 3:
        ctx.count("must be rejected")
        ctx.submit([build(rng, ds, insts, bad, False)], reject_judge("the entry point is not at a bundle start"),
                   key=("largebad", n, at))
    ctx.flush()


def emit_bad(ctx, pool):
    rng = ctx.rng
    n = rng.randint(1, 9)
    insts = [rng.choice(pool)[0] for _ in range(n)]
    ds, opt = make(ctx)
    ds.insert(0, (".dksh", ["compute"]))
    main_at = 3 * rng.randint(0, (n - 1) // 3)
    k = rng.randrange(12)
    why = ""
    numeric = [".num_gprs", ".shared_memory", ".local_memory", ".workgroup_size"]
    if k == 0:
        main_at = None
        why = "the entry point is missing"
    elif k == 1:
        main_at = rng.randint(0, n)
        if main_at % 3 == 0:
            return
        why = "the entry point is not at a bundle start"
    elif k == 2:
        nm = rng.choice(numeric)
        hi = MAX_LOCAL if nm == ".local_memory" else MAX_INT
        bad = rng.choice([-1, -2, hi + 1, hi + 2, hi + 16, 1 << 31, 1 << 32, (1 << 32) + 8, (1 << 32) - 1,
                          (1 << 63) - 1, -(1 << 31), -(1 << 63), 1 << 63, 1 << 64, (1 << 64) + 16,
                          -(1 << 32) + 16, rng.randint(hi + 1, 1 << 62), 1 << 40])
        vals = ["1", "1", "1"] if nm == ".workgroup_size" else ["0"]
        vals[rng.randrange(len(vals))] = spell(rng, bad)
        ds.insert(rng.randint(0, len(ds)), (nm, vals))
        why = "%s %s is out of range" % (nm, " ".join(vals))
    elif k == 3:
        nm = rng.choice(numeric)
        vals = rng.choice([[], ["1", "2"], ["1", "1", "1", "1"], ["1", "1"]] if nm == ".workgroup_size"
                          else [[], ["1", "2"], ["1", "1", "1"]])
        ds.insert(rng.randint(0, len(ds)), (nm, vals))
        why = "%s has the wrong number of values" % nm
        if len(vals) == 3 and nm == ".workgroup_size":
            return
    elif k == 4:
        nm = rng.choice(numeric)
        v = rng.choice(["R1", "P0", "1.0", "x", "0x", "08", "1e3", "-", "compute", "0xg", "RZ", ";", ",", "@"])
        vals = ["1", "1", "1"] if nm == ".workgroup_size" else ["0"]
        vals[rng.randrange(len(vals))] = v
        ds.insert(rng.randint(0, len(ds)), (nm, vals))
        why = "%s has a malformed value" % nm
    elif k == 5:
        ds.insert(rng.randint(1, len(ds)), (rng.choice([".dksh", ".type"]), [rng.choice(sorted(TYPES))]))
        why = "the program type is given twice"
    elif k == 6:
        ds[0] = (rng.choice([".dksh", ".type"]),
                 [rng.choice([t for t in TYPES if t != "compute"])])
        why = "graphics containers are not supported"
    elif k == 7:
        ds[0] = (rng.choice([".dksh", ".type"]), rng.choice([[], ["Compute"], ["kernel"], ["COMPUTE"], ["comput"],
                                                            ["computee"], ["5"], ["compute", "compute"],
                                                            ["vertex", "compute"], ["R0"], ["main"]]))
        why = "malformed program type"
    elif k == 8:
        ds.insert(rng.randint(0, len(ds)), (rng.choice([".numgprs", ".num_gpr", ".NUM_GPRS", ".workgroup", ".shared",
                                                        ".local_memory_", ".entry", ".Dksh", ".dks", ".types",
                                                        ".num_gprs_"]), ["1"]))
        why = "unknown directive"
    elif k == 9:
        # the value on the next line
        text = build(rng, ds, insts, main_at, False)
        nm = rng.choice(numeric[:3])
        text = nm + "\n" + "8\n" + text
        ctx.count("must be rejected")
        if not refasm.assemble(text).ok:
            ctx.submit([text], reject_judge("the directive's value is missing on its line"))
        return
    elif k == 10:
        # no new line after the directive
        text = build(rng, ds[:1], insts, main_at, False)
        text = ".num_gprs 8 " + text.replace("main:", " main:") if rng.random() < 0.5 else \
            ".dksh compute " + insts[0] + "\nmain:\n" + "\n".join(insts)
        if not refasm.assemble(text).ok:
            ctx.count("must be rejected")
            ctx.submit([text], reject_judge("a directive must end its line"))
        return
    else:
        # entry point spelt differently
        text = build(rng, ds, insts, main_at, False)
        text = text.replace("main:", rng.choice(["Main:", "MAIN:", "main_:", " main:", "mai:", "amain:", "_main:"]))
        if not refasm.assemble(text).ok:
            ctx.count("must be rejected")
            ctx.submit([text], reject_judge("the entry point is missing"))
        return
    text = build(rng, ds, insts, main_at, False)
    r = refasm.assemble(text)
    if r.ok or r.unspec:
        ctx.count("generator disagreements")
        return
    ctx.count("must be rejected")
    ctx.submit([text], reject_judge(why))
