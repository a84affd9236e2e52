"""C11: assembly is a pure, re-entrant function of the source text."""
import os
import shutil
import struct
import subprocess
import tempfile

from .. import gen
from ..core import b, show
from ..driver import Driver, env_for, run_one
from .c05 import PAD, branch_text

LEVEL = "exploration"
NEEDS = [("plain", "driver"), ("plain", "mt"), ("tsan", "mt")]
RULE = ("reference words of a text come from a forked child whose only call it is; then the same texts run "
        "(a) in random histories of up to 3,900 and of 140,000 calls in one process (texts that are "
        "rejected alone come last in theirs, and must be rejected with the same message), (b) on 2 to 16 threads at once under "
        "ThreadSanitizer and in an optimised build, starting together so that first calls collide, (c) with "
        "poisoned heap memory, other file names and a comma-radix locale; every result is compared with "
        "the reference; distinct by (text, setting); non-trivial = a call with another call before or "
        "beside it")
ASSUMPTIONS = ["ThreadSanitizer sees all synchronisation the library uses"]
MINIMUM = {"quick": {"calls in histories": 50000, "rejections after a history": 2000, "concurrent calls under tsan": 20000,
                     "concurrent calls": 100000, "thread starts under tsan": 100, "texts with all forms": 20}}


def tasks(tier):
    q = tier == "quick"
    return [("mt", i) for i in range(48 if q else 400)] + [("hist", i) for i in range(240 if q else 2400)] + \
        [("env", i) for i in range(8 if q else 40)] + [("many", i) for i in range(4 if q else 16)] + \
        [("forms", i) for i in range(8 if q else 64)]


def texts_for(ctx, n):
    rng = ctx.rng
    out = []
    for _ in range(n):
        r = rng.random()
        items = [i.text() for i in gen.gen_program_items(rng, rng.choice([1, 1, 2, 3, 5, 12]))]
        if r < 0.3:
            text = items[0]
        elif r < 0.6:
            text = "\n".join(items)
        elif r < 0.8:
            ls = ["top:"] + items + ["mid:", rng.choice(PAD[:5]), "BRA %s;" % rng.choice(["top", "mid", "end"]), "end:"]
            text = "\n".join(ls)
        else:
            ds = [".num_gprs %d\n" % rng.randrange(256), ".local_memory %d\n" % rng.randrange(4096),
                  ".shared_memory %d\n" % rng.randrange(4096), ".workgroup_size %d 1 2\n" % rng.randrange(64)]
            ds = rng.sample(ds, rng.randint(0, 4))
            if rng.random() < 0.8:
                ds.insert(rng.randint(0, len(ds)), rng.choice([".dksh compute\n", ".dksh compute\n", ".type compute\n"]))
            text = "".join(ds) + rng.choice(["main:\n", "main:\n", "", "NOP; NOP; NOP;\nmain:\n"]) + "\n".join(items)
        if rng.random() < 0.12:
            # texts that fail alone must fail, with the same message, after any history
            text = rng.choice(["BRA top;", "BRA mid;\nNOP;", "SSY end;", ".dksh compute\nNOP;", ".dksh compute\n" + items[0],
                               "BRA main;", items[0][:-1], "MOV R0, 0x80000;", "FOO;", ".num_gprs -1\nNOP;", "\n\n  " + items[0] + items[0][:-2],
                               "top:\n NOP R1;", ".type vertex\nNOP;", "mid:\nBRA end;", "NOP @DEP 6;", "@P7 NOP;"])
        out.append(b(text))
    out += [b"", b"NOP;", b"\n"]
    return out


FILES = [b"file", b"other.asm", b"x", b"", b"x.dksh", b"compute", b"main", b"a" * 300, b"/dev/null", b"-", b"file.bin"]


def references(ctx, texts, env=None):
    """Each text in a child process of its own."""
    d = Driver(ctx.paths[("plain", "driver")], 20, False, env)
    try:
        return [d.run([t])[0] for t in texts]
    finally:
        d.close()


def all_forms(ctx, n):
    """Texts that each hold one instruction of every form."""
    rng = ctx.rng
    out = []
    for k in range(n):
        seq = [i.text() for i in (gen.valid_inst(rng, f, 0.3, 0.3) for f in gen.PLAIN_FORMS) if i]
        seq += [branch_text(rng, f, "here") for f in gen.LABEL_FORMS]
        rng.shuffle(seq)
        seq.insert(rng.randrange(len(seq)), "\nhere:")
        head = rng.choice(["", "", ".type compute\n", ".dksh compute\nmain:\n", ".dksh compute\n.num_gprs %d\n.local_memory %d\nmain:\n" %
                           (rng.randrange(256), rng.randrange(9999))])
        out.append(b(head + "\n".join(seq)))
    return out


def run(ctx, task):
    rng = ctx.rng
    if task[0] == "forms":
        texts = all_forms(ctx, 6)
        ref = references(ctx, texts)
        keep = [i for i, r in enumerate(ref) if r.ok]
        texts, ref = [texts[i] for i in keep], [ref[i] for i in keep]
        if texts:
            ctx.count("texts with all forms", len(texts))
            mt(ctx, texts, ref, [("tsan", 2, 12), ("tsan", 6, 10), ("plain", 8, 60)])
        return
    texts = texts_for(ctx, 60 if task[0] != "mt" else 40)
    ref = references(ctx, texts)
    if task[0] == "many":
        many(ctx, texts, ref)
        return
    keep = [i for i, r in enumerate(ref) if r.ok or (r.rejected and task[0] == "hist")]
    texts, ref = [texts[i] for i in keep], [ref[i] for i in keep]
    if task[0] == "hist":
        d = ctx.driver("plain", False)
        for _ in range(6 if ctx.quick else 12):
            n = rng.choice([2, 3, 10, 100, 600] + ([3900] if rng.random() < 0.1 else []))
            sub = rng.sample(range(len(texts)), rng.randint(2, min(len(texts), 30)))
            seq = [rng.choice(sub) for _ in range(n)]
            names = [rng.choice(FILES) if ref[q].ok else b"file" for q in seq]
            ctx.count("rejections after a history", sum(1 for a, q in zip(seq, seq[1:]) if ref[a].ok and not ref[q].ok))
            history(ctx, d, texts, ref, seq, names)
    elif task[0] == "mt":
        mt(ctx, texts, ref)
    else:
        environment(ctx, texts, ref, task[1])


def history(ctx, d, texts, ref, seq, names):
    outs = d.run([(texts[i], nm) for i, nm in zip(seq, names)])
    ctx.count("calls in histories", len(seq))
    ctx.count("histories")
    ctx.evals += len(seq)
    for k, (i, o) in enumerate(zip(seq, outs)):
        ctx.nontrivial.add(hash((texts[i], texts[seq[k - 1]] if k else None)))
        if o.same(ref[i]) and o.diag == ref[i].diag:
            continue
        # deterministic?  repeat, and shorten the history
        best = None
        for start in [k - 1, k - 2, k - 3, k - 8, k - 32, 0]:
            if start < 0:
                continue
            s2 = seq[start:k + 1]
            o2 = Driver(ctx.paths[("plain", "driver")], 20, False)
            try:
                r2 = o2.run([(texts[q], nm) for q, nm in zip(s2, names[start:k + 1])])[-1]
            finally:
                o2.close()
            if not r2.same(ref[i]) or r2.diag != ref[i].diag:
                best = (s2, r2)
                break
        if best is None:
            ctx.unconfirmed += 1
            continue
        # and the reference itself must be what a fresh process gives
        fresh = run_one(ctx.paths[("plain", "driver")], texts[i])
        if not fresh.same(ref[i]) or fresh.diag != ref[i].diag:
            ctx.unconfirmed += 1
            continue
        ctx.violation("after the calls before it the last text gives %s, alone it gives %s" % (
            best[1].brief(), ref[i].brief()), [texts[q] for q in best[0]], [best[1].brief()])
        return


class Hung:
    returncode = -1
    stdout = b""
    stderr = b"the calls did not finish in time, twice"


def mt_run(ctx, cfg, f, n, calls, seed):
    for _ in range(2):
        try:
            return subprocess.run([ctx.paths[(cfg, "mt")], f, str(n), str(calls), str(seed)], stdout=subprocess.PIPE,
                                  stderr=subprocess.PIPE, env=env_for(), timeout=150 if ctx.quick else 900)
        except subprocess.TimeoutExpired:
            continue
    return Hung


def mt(ctx, texts, ref, plan=None):
    rng = ctx.rng
    d = tempfile.mkdtemp(prefix="nxv-mt-")
    try:
        f = os.path.join(d, "cases")
        with open(f, "wb") as fh:
            for t, r in zip(texts, ref):
                fh.write(struct.pack("<II", len(t), len(r.words)) + t + struct.pack("<%dQ" % len(r.words), *r.words))
        plan = plan or [("tsan", n, 60) for n in (2, 4, 8)] + [("plain", 8, 1500), ("plain", 16, 400)]
        for cfg, n, calls in plan:
            seed = rng.randrange(1, 1 << 30)
            r = None
            for _ in range(4):
                r = mt_run(ctx, cfg, f, n, calls, seed)
                if bytes("FATAL: ThreadSanitizer", "ascii") in r.stderr:
                    ctx.count("tsan could not start")
                    continue
                break
            else:
                continue
            ctx.saw("(build, threads)", (cfg, n))
            ctx.count("concurrent calls under tsan" if cfg == "tsan" else "concurrent calls", n * calls)
            if cfg == "tsan":
                ctx.count("thread starts under tsan", n)
            ctx.evals += n * calls
            for t in texts:
                ctx.nontrivial.add(hash((t, cfg, n)))
            ctx.sample({"input": ["%d texts, %d threads x %d calls, %s build" % (len(texts), n, calls, cfg), show(texts[0], 160)],
                        "observed": ["exit %d, all results equal to the references" % r.returncode if r.returncode == 0
                                     else "exit %d" % r.returncode]})
            if r.returncode == 0:
                continue
            msg = r.stderr.decode("latin-1").strip() or r.stdout.decode("latin-1").strip()
            what = "data race" if "data race" in msg else "wrong result or failure"
            ctx.violation("%s with %d threads (%s build, exit %d): %s" % (what, n, cfg, r.returncode, msg[:1500]),
                          texts[:4], [msg[:3000]], cfg=cfg)
            return
    finally:
        shutil.rmtree(d, ignore_errors=True)


def many(ctx, texts, ref):
    """A history of more than 65,536 calls in one process (single-threaded use of the mt harness)."""
    rng = ctx.rng
    keep = [i for i, r in enumerate(ref) if r.ok and len(texts[i]) < 120][:12]
    d = tempfile.mkdtemp(prefix="nxv-many-")
    try:
        f = os.path.join(d, "cases")
        with open(f, "wb") as fh:
            for i in keep:
                fh.write(struct.pack("<II", len(texts[i]), len(ref[i].words)) + texts[i] +
                         struct.pack("<%dQ" % len(ref[i].words), *ref[i].words))
        calls = 140000 if ctx.quick else 2000000
        r = mt_run(ctx, "plain", f, 1, calls, rng.randrange(1, 1 << 30))
        ctx.count("calls in histories", calls)
        ctx.evals += calls
        for i in keep:
            ctx.nontrivial.add(hash((texts[i], "many")))
        if r.returncode != 0:
            msg = (r.stderr + r.stdout).decode("latin-1").strip()
            ctx.violation("in a history of %d calls in one process (exit %d): %s" % (calls, r.returncode, msg[:1500]),
                          [texts[i] for i in keep], [msg[:3000]], cfg="plain")
    finally:
        shutil.rmtree(d, ignore_errors=True)


def environment(ctx, texts, ref, k):
    """Heap contents, file name and locale must not matter."""
    envs = [("heap filled with 0x55", {"MALLOC_PERTURB_": "170"}), ("heap filled with 0xff", {"MALLOC_PERTURB_": "255"})]
    d = tempfile.mkdtemp(prefix="nxv-loc-")
    try:
        r = subprocess.run(["localedef", "-c", "-i", "de_DE", "-f", "UTF-8", os.path.join(d, "de_DE.UTF-8")],
                           stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        if os.path.isdir(os.path.join(d, "de_DE.UTF-8")) and r.returncode in (0, 1):
            e = {"LOCPATH": d, "LC_ALL": "de_DE.UTF-8", "NXV_LOCALE": "de_DE.UTF-8"}
            if run_one(ctx.paths[("plain", "driver")], b"NOP;", env=e).code != 89:
                envs.append(("locale with a comma as radix", e))
                ctx.count("locale runs")
        for what, e in envs:
            drv = Driver(ctx.paths[("plain", "driver")], 20, False, e)
            try:
                outs = drv.run(list(texts))
            finally:
                drv.close()
            ctx.count("calls in other environments", len(texts))
            ctx.evals += len(texts)
            for t, a, o in zip(texts, ref, outs):
                ctx.nontrivial.add(hash((t, what)))
                if not o.same(a):
                    again = run_one(ctx.paths[("plain", "driver")], t, env=e)
                    if again.same(run_one(ctx.paths[("plain", "driver")], t)):
                        ctx.unconfirmed += 1
                        continue
                    ctx.violation("%s: %s, otherwise %s" % (what, again.brief(), a.brief()), [t], [again.brief()])
                    return
    finally:
        shutil.rmtree(d, ignore_errors=True)
