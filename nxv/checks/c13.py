"""C13: the command-line tool is all-or-nothing and reports failure in its status."""
import os
import resource
import shutil
import signal
import stat
import struct
import subprocess
import tempfile
import threading

from .. import gen
from ..build import HARNESS
from ..core import b
from .c08 import char_edit

LEVEL = "fault_enumeration"
NEEDS = [("plain", "driver"), ("plain", "cli")]
RULE = ("runs of the real tool in scratch directories: valid and rejected sources of sizes around every "
        "buffer boundary, all argument orders and mistakes, missing / directory / FIFO / device / unreadable "
        "inputs, existing, missing, read-only, full and vanishing outputs, a write limit at every byte "
        "offset, failing, short and interrupted reads and writes; the monitor compares status, "
        "diagnostic, directory contents and output bytes with what nxas::assemble returns for the text; "
        "distinct by scenario and text; non-trivial = all")
ASSUMPTIONS = ["the library call is the reference for the bytes (its correctness is decided by C02-C10)"]
MINIMUM = {"quick": {"successes": 1000, "failures": 1500, "distinct fault scenarios": 25}}


def tasks(tier):
    q = tier == "quick"
    return [(k, i) for i in range(10 if q else 60) for k in
            ("ok", "src", "odd", "args", "input", "output", "limit", "shim", "user")]


class Bed:
    """A scratch directory with the tool in it."""

    def __init__(self, ctx):
        self.ctx = ctx
        self.d = tempfile.mkdtemp(prefix="nxv-cli-")
        os.chmod(self.d, 0o755)
        self.exe = os.path.join(self.d, "nxas")
        shutil.copy(ctx.paths[("plain", "cli")], self.exe)
        os.chmod(self.exe, 0o755)
        self.w = os.path.join(self.d, "w")
        self.n = 0

    def fresh(self):
        """An empty working directory."""
        self.n += 1
        w = os.path.join(self.d, "w%d" % self.n)
        os.mkdir(w)
        self.w = w
        return w

    def done(self):
        shutil.rmtree(self.w, ignore_errors=True)

    def close(self):
        shutil.rmtree(self.d, ignore_errors=True)

    def run(self, args, env=None, limit=None, user=None, timeout=60, cwd=None):
        e = {"PATH": "/usr/bin:/bin", "LC_ALL": "C"}
        e.update(env or {})

        def pre():
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            if limit is not None:
                signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
                resource.setrlimit(resource.RLIMIT_FSIZE, (limit, limit))
            if user is not None:
                os.setgid(user)
                os.setuid(user)
        try:
            r = subprocess.run([self.exe] + args, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                               stderr=subprocess.PIPE, env=e, preexec_fn=pre, timeout=timeout, cwd=cwd or self.w)
            return r.returncode, r.stdout + r.stderr
        except subprocess.TimeoutExpired:
            return "timeout", b""


def snapshot(d):
    out = {}
    for root, dirs, files in os.walk(d):
        for f in files + dirs:
            p = os.path.join(root, f)
            st = os.lstat(p)
            c = None
            if stat.S_ISREG(st.st_mode):
                with open(p, "rb") as fh:
                    c = fh.read()
            out[os.path.relpath(p, d)] = (stat.S_IFMT(st.st_mode), c, st.st_mtime_ns if c is not None else 0,
                                          st.st_ino)
    return out


def lib(ctx, text):
    o = ctx.driver().run([b(text)])[0]
    return o


def expect_bytes(o):
    return struct.pack("<%dQ" % len(o.words), *o.words)


def program(ctx, n=None):
    rng = ctx.rng
    n = rng.choice([1, 1, 2, 3, 5, 9, 40, 300]) if n is None else n
    return "\n".join(i.text() for i in gen.gen_program_items(rng, n)) + rng.choice(["", "\n"])


def bad_program(ctx):
    rng = ctx.rng
    for _ in range(100):
        k = rng.randrange(4)
        p = program(ctx, rng.choice([1, 3, 40, 200]))
        if k == 0:
            t = p + "FOO R1;"
        elif k == 1:
            t = "FOO;\n" + p
        elif k == 2:
            t = char_edit(rng, p)
        else:
            t = p[:rng.randrange(len(p))]
        o = lib(ctx, t)
        if not o.ok:
            return t
    return "FOO;"


def sample(ctx, scenario, rc, diag, text):
    if ctx.rng.random() < 0.02:
        ctx.sample({"input": ["%s: %s" % (scenario, text[:120])],
                    "observed": ["exit %s %r" % (rc, diag[:120].decode("latin-1"))]})


def report(ctx, what, scenario, text, rc, diag, extra=""):
    ctx.violation("%s (%s): exit %s, message %r %s" % (what, scenario, rc, diag[:300].decode("latin-1"), extra),
                  [text], ["exit %s %r" % (rc, diag[:300].decode("latin-1"))], scenario=scenario)


def must_succeed(ctx, bed, scenario, text, rc, diag, out, exp):
    ctx.evals += 1
    ctx.count("successes")
    sample(ctx, scenario, rc, diag, text)
    ctx.saw("fault scenarios", scenario)
    ctx.nontrivial.add(hash((scenario, text)))
    got = None
    if os.path.exists(out):
        with open(out, "rb") as f:
            got = f.read()
    if rc != 0:
        report(ctx, "the input assembles and the output is writable, but the tool failed", scenario, text, rc, diag)
    elif got != exp:
        report(ctx, "exit status 0, but the output file does not hold the assembled bytes", scenario, text, rc, diag,
               "%s bytes instead of %d" % (None if got is None else len(got), len(exp)))


def must_fail(ctx, bed, scenario, text, rc, diag, before=None):
    ctx.evals += 1
    ctx.count("failures")
    sample(ctx, scenario, rc, diag, text)
    ctx.saw("fault scenarios", scenario)
    ctx.nontrivial.add(hash((scenario, text)))
    if rc != 1 or not diag.strip():
        report(ctx, "must print a diagnostic and exit with status 1", scenario, text, rc, diag)
    elif before is not None:
        after = snapshot(bed.w)
        if after != before:
            ch = sorted(k for k in set(after) | set(before) if after.get(k) != before.get(k))
            report(ctx, "the input was rejected, but files changed: %s" % ch, scenario, text, rc, diag)


def write(p, t):
    with open(p, "wb") as f:
        f.write(b(t))


def run(ctx, task):
    bed = Bed(ctx)
    try:
        globals()["do_" + task[0]](ctx, bed)
    finally:
        bed.close()


def pad_to(text, size, ch=" "):
    return text + ch * (size - len(text)) if len(text) < size else text


def do_ok(ctx, bed):
    rng = ctx.rng
    sizes = [0, 1] + [k * 1024 + d for k in (4, 8, 16, 32, 64) for d in (-1, 0, 1)] + [rng.randint(5, 300) for _ in range(20)]
    for size in sizes:
        n = max(0, min(60, size // 30))
        t = program(ctx, n) if n else ""
        if len(t) > size:
            t = "NOP;" * (size // 4)
        t = pad_to(t, size, rng.choice([" ", "\n", "\t"]))
        if rng.random() < 0.3:
            t = pad_to(t[:-5] if t.endswith("     ") else t, size - 4) + "NOP;" if size > 4 and t.endswith("    ") else t
        one_ok(ctx, bed, t, "size around a buffer boundary")
    for n in (3, 500, 511, 512, 513, 2000, 6000, 6144, 6145, 12288, 12289, 99000, 200000):
        one_ok(ctx, bed, "NOP;" * n, "large output")
    for size in (1 << 17, (1 << 17) + 1, 1 << 20, (1 << 20) + 3, 1 << 24):
        t = "MOV R1, R2;" + rng.choice(" \n\t\r") * (size - 15) + "NOP;"
        one_ok(ctx, bed, t, "large input")
    for _ in range(40):
        one_ok(ctx, bed, program(ctx), "plain")
    one_ok(ctx, bed, ".dksh compute\nmain:\n" + program(ctx, 30), "container")


def one_ok(ctx, bed, t, scenario):
    rng = ctx.rng
    o = lib(ctx, t)
    if not o.ok:
        ctx.count("skipped")
        return
    w = bed.fresh()
    inp, out = os.path.join(w, rng.choice(["in.asm", "a b", "x%s%n", "in"])), os.path.join(w, "out.bin")
    write(inp, t)
    k = rng.randrange(6)
    exp = expect_bytes(o)
    if k == 0:
        write(out, b"x" * (len(exp) + 1000))    # longer existing output
        scenario += ", longer output exists"
    elif k == 1:
        write(out, b"y" * 3)
        scenario += ", shorter output exists"
    elif k == 2:
        os.symlink("target", out)
        write(os.path.join(w, "target"), b"z" * (len(exp) + 9))
        scenario += ", output is a link"
    if rng.random() < 0.1:
        out = inp
        scenario += ", in place"
    if rng.random() < 0.5:
        args = [inp, "-o", out]
    else:
        args = ["-o", out, inp]
    if rng.random() < 0.3:
        args = [os.path.relpath(a, w) if a != "-o" else a for a in args]
    rc, diag = bed.run(args)
    must_succeed(ctx, bed, scenario, t, rc, diag, out, exp)
    if out != inp and os.path.exists(inp):
        with open(inp, "rb") as f:
            if f.read() != b(t):
                report(ctx, "the input file was modified", scenario, t, rc, diag)
    bed.done()


def do_src(ctx, bed):
    """Rejected sources leave the output alone."""
    rng = ctx.rng
    fixed = ["FOO;", "NOP", "NOP;\0", "\0", "NOP;\n" * 2000 + "BAD;", " " * 8192 + "x", " " * 4095 + "MOV R0;", ".dksh compute\nNOP;",
             "main:\n.dksh vertex\nNOP;", "BRA nowhere;", "MOV R300, R1;", ".dksh compute\nNOP;\nmain:\nNOP;", "\xff\xfe"]
    for i in range(110):
        t = fixed[i] if i < len(fixed) else bad_program(ctx)
        if lib(ctx, t).ok:
            continue
        w = bed.fresh()
        inp, out = os.path.join(w, "in.asm"), os.path.join(w, "out")
        write(inp, t)
        k = rng.randrange(4)
        sc = "rejected source, no output yet"
        if k == 0:
            write(out, b"precious" * 20)
            sc = "rejected source, output exists"
        elif k == 1:
            write(out, b"")
            sc = "rejected source, empty output exists"
        elif k == 2:
            os.symlink("gone", out)
            sc = "rejected source, output is a dangling link"
        before = snapshot(w)
        rc, diag = bed.run([inp, "-o", out] if rng.random() < 0.5 else ["-o", out, inp])
        must_fail(ctx, bed, sc, t, rc, diag, before)
        bed.done()
        if k == 3:
            w = bed.fresh()
            inp = os.path.join(w, "in.asm")
            write(inp, t)
            before = snapshot(w)
            rc, diag = bed.run([inp, "-o", inp])
            must_fail(ctx, bed, "rejected source, in place", t, rc, diag, before)
            bed.done()


ODD = ["\xef\xbb\xbfNOP;", "\xef\xbb\xbf", "\xef\xbb\xbf\nNOP;", "\xfe\xff", "\xff\xfeN\0O\0P\0;\0", "NOP;\x1a", "\x1aNOP;", "NOP;\x1aFOO;", "NOP;\x04",
       "NOP;\x00", "\x00NOP;", "NOP;\x00\n", "NOP;\x00NOP;", "NOP;\x0c", "NOP;\x0b", "NOP;\xa0", "\xa0NOP;", "NOP;\x85", "#!/usr/bin/nxas\nNOP;", "# c\nNOP;",
       "// c\nNOP;", "NOP; // c", "NOP; /* c */", "/* c */ NOP;", "; c\nNOP;", "-- c\nNOP;", "NOP;\\\nNOP;", "MOV R0,\\\n R1;", "NOP", "NOP;\r", "\rNOP;\r\r",
       "NOP;\r\nNOP;\r\n", "NOP;\n\r", "\n", "\r\n", "\t", " ", "\n\n\n", "x:", "x:\n", "x: NOP;", "x:NOP;", "\x7fELF", "%PDF", "PK\x03\x04", "DKSH", "\x1f\x8b",
       "NOP;" + " " * 4091 + "\x00", "NOP;" + " " * 4092 + "\x00", "NOP;" * 1024 + "\x1a", "NOP;" * 1023 + "NOP", "NOP;" * 1024 + "x", "nop;", "NOP;NOP",
       ".dksh compute\nmain:\nNOP;\n\x1a", ".dksh compute\r\nmain:\r\nNOP;\r\n", ".include \"x\"\nNOP;", "NOP;\xef\xbb\xbf", "\xc2\xa0NOP;"]


def do_odd(ctx, bed):
    """Texts with unusual first, last or boundary bytes: the tool's verdict is the library's."""
    rng = ctx.rng
    texts = list(ODD)
    for _ in range(60):
        t = program(ctx, rng.choice([1, 2, 30]))
        c = chr(rng.randrange(256))
        texts.append(rng.choice([c + t, t + c, t + "\n" + c, c + "\n" + t, t[:4096].ljust(rng.choice([4095, 4096, 8191, 8192])) + c + "NOP;"]))
    for t in texts:
        o = lib(ctx, t)
        w = bed.fresh()
        inp, out = os.path.join(w, "in.asm"), os.path.join(w, "out")
        write(inp, t)
        before = snapshot(w)
        rc, diag = bed.run([inp, "-o", out])
        if o.ok:
            must_succeed(ctx, bed, "unusual bytes", t, rc, diag, out, expect_bytes(o))
        else:
            must_fail(ctx, bed, "unusual bytes, rejected", t, rc, diag, before)
        bed.done()


def do_args(ctx, bed):
    rng = ctx.rng
    good = "NOP;\n"
    forms = [[], ["IN"], ["-o"], ["-o", "OUT"], ["IN", "-o"], ["-o", "OUT", "-o", "OUT2", "IN"], ["IN", "-o", "OUT", "IN2"],
             ["IN", "IN2", "-o", "OUT"], ["IN", "OUT"], ["IN", "-o", "OUT", "-o"], ["-o", "-o"], ["IN", "-O", "OUT"],
             ["--help"], ["-h"], ["IN", "--output", "OUT"], ["IN", "-oOUT"], ["IN", "-o", "OUT", "-v"], ["", "-o", "OUT"],
             ["IN", "-o", ""], ["IN", "-o", "OUT", ""], ["-o", "OUT", "IN", "IN"], ["-o", "IN"], ["MISSING", "-o", "OUT"],
             ["IN", "-o", "OUT", "-o", "OUT"], ["-x", "-o", "OUT"], ["IN", "-o", "NODIR/OUT"], [".", "-o", "OUT"],
             ["IN", "-o", "."], ["IN", "-o", "/"], ["IN/", "-o", "OUT"], ["IN/x", "-o", "OUT"], ["IN", "-o", "OUT/"],
             ["N" * 5000, "-o", "OUT"], ["IN", "-o", "N" * 5000], ["%s%n%s", "-o", "OUT"], ["IN", "-o", "%s%n/%s"]]
    for f in forms:
        for exists in (False, True):
            w = bed.fresh()
            write(os.path.join(w, "IN"), good)
            write(os.path.join(w, "IN2"), good)
            if exists:
                write(os.path.join(w, "OUT"), b"keep")
            before = snapshot(w)
            rc, diag = bed.run(list(f))
            must_fail(ctx, bed, "arguments %s" % " ".join(x[:20] or "''" for x in f), repr(f), rc, diag, before)
            bed.done()
    # and the two orders that are right
    for f in (["IN", "-o", "OUT"], ["-o", "OUT", "IN"]):
        w = bed.fresh()
        t = program(ctx)
        write(os.path.join(w, "IN"), t)
        o = lib(ctx, t)
        rc, diag = bed.run(list(f))
        if o.ok:
            must_succeed(ctx, bed, "argument order " + " ".join(f), t, rc, diag, os.path.join(w, "OUT"), expect_bytes(o))
        bed.done()


def do_input(ctx, bed):
    rng = ctx.rng
    for what in ("missing", "directory", "dangling link", "link loop", "socket-like missing dir", "/proc/self/mem"):
        for exists in (False, True):
            w = bed.fresh()
            inp, out = os.path.join(w, "in"), os.path.join(w, "out")
            if what == "directory":
                os.mkdir(inp)
            elif what == "dangling link":
                os.symlink("nowhere", inp)
            elif what == "link loop":
                os.symlink("in", inp)
            elif what == "socket-like missing dir":
                inp = os.path.join(w, "no", "in")
            elif what == "/proc/self/mem":
                inp = what
            if exists:
                write(out, b"old contents")
            before = snapshot(w)
            rc, diag = bed.run([inp, "-o", out])
            must_fail(ctx, bed, "input: " + what, what, rc, diag, before)
            bed.done()
    # /dev/null is the empty program
    w = bed.fresh()
    out = os.path.join(w, "out")
    write(out, b"old")
    rc, diag = bed.run(["/dev/null", "-o", out])
    must_succeed(ctx, bed, "input: /dev/null", "", rc, diag, out, b"")
    bed.done()
    # a FIFO fed in small pieces
    for _ in range(6):
        t = program(ctx, rng.choice([1, 40, 400]))
        if rng.random() < 0.3:
            t = bad_program(ctx)
        w = bed.fresh()
        inp, out = os.path.join(w, "fifo"), os.path.join(w, "out")
        os.mkfifo(inp)
        o = lib(ctx, t)
        step = rng.choice([1 << 16, 4096, 777])

        def feed(path=inp, data=b(t), step=step):
            try:
                with open(path, "wb", 0) as f:
                    for i in range(0, len(data), step):
                        f.write(data[i:i + step])
            except OSError:
                pass
        th = threading.Thread(target=feed, daemon=True)
        th.start()
        rc, diag = bed.run([inp, "-o", out], timeout=30)
        if th.is_alive():
            # the tool ended without reading: release the writer
            try:
                fd = os.open(inp, os.O_RDONLY | os.O_NONBLOCK)
                th.join(1)
                os.close(fd)
            except OSError:
                pass
        if rc == "timeout":
            ctx.count("inconclusive: fifo timeout")
        elif o.ok:
            must_succeed(ctx, bed, "input: fifo", t, rc, diag, out, expect_bytes(o))
        else:
            must_fail(ctx, bed, "input: fifo, rejected", t, rc, diag)
            if os.path.exists(out):
                report(ctx, "the input was rejected, but the output was created", "input: fifo, rejected", t, rc, diag)
        bed.done()
    # long and odd names appear in the diagnostic without being interpreted
    for name in ("%s%s%n", "a" * 200, "sp ace", "\u00e9", "%d.asm"):
        w = bed.fresh()
        inp, out = os.path.join(w, name), os.path.join(w, "out")
        write(inp, "FOO;")
        before = snapshot(w)
        rc, diag = bed.run([name, "-o", out])
        must_fail(ctx, bed, "odd input name, rejected source", name, rc, diag, before)
        write(inp, "NOP;")
        rc, diag = bed.run([name, "-o", out])
        must_succeed(ctx, bed, "odd input name", name, rc, diag, out, expect_bytes(lib(ctx, "NOP;")))
        bed.done()


def do_output(ctx, bed):
    rng = ctx.rng
    for n in (1, 3, 100, 500, 3000):
        t = "NOP;" * n
        for what in ("/dev/full", "directory", "missing directory", "file as directory", "link loop", "link to /dev/full"):
            w = bed.fresh()
            inp, out = os.path.join(w, "in"), os.path.join(w, "out")
            write(inp, t)
            if what == "/dev/full":
                if not os.path.exists(what):
                    continue
                out = what
            elif what == "directory":
                os.mkdir(out)
            elif what == "missing directory":
                out = os.path.join(w, "no", "out")
            elif what == "file as directory":
                write(os.path.join(w, "f"), b"1")
                out = os.path.join(w, "f", "out")
            elif what == "link loop":
                os.symlink("out", out)
            else:
                os.symlink("/dev/full", out)
            before = snapshot(w)
            rc, diag = bed.run([inp, "-o", out])
            must_fail(ctx, bed, "output: %s" % what, "%s %d" % (what, n), rc, diag, before)
            bed.done()
    # an output that accepts everything but is not a regular file
    w = bed.fresh()
    write(os.path.join(w, "in"), "NOP;")
    rc, diag = bed.run(["in", "-o", "/dev/null"])
    ctx.evals += 1
    ctx.saw("fault scenarios", "output: /dev/null")
    if rc != 0:
        report(ctx, "output to /dev/null failed", "output: /dev/null", "NOP;", rc, diag)
    bed.done()
    # a FIFO whose reader gets everything
    for n in (1, 10, 3000, 20000):
        w = bed.fresh()
        t = "NOP;" * n
        write(os.path.join(w, "in"), t)
        f = os.path.join(w, "fifo")
        os.mkfifo(f)
        got = []

        def drain():
            with open(f, "rb") as fh:
                got.append(fh.read())
        th = threading.Thread(target=drain, daemon=True)
        th.start()
        rc, diag = bed.run(["in", "-o", f], timeout=30)
        th.join(5)
        ctx.evals += 1
        ctx.saw("fault scenarios", "output: fifo")
        exp = expect_bytes(lib(ctx, t))
        if rc == "timeout" or th.is_alive():
            ctx.count("inconclusive: fifo timeout")
            try:
                os.close(os.open(f, os.O_WRONLY | os.O_NONBLOCK))
            except OSError:
                pass
        elif rc != 0 or got != [exp]:
            report(ctx, "the reader of the output FIFO did not get the assembled bytes", "output: fifo", t, rc, diag)
        bed.done()


def do_limit(ctx, bed):
    """A write limit (as a full disk) at every byte offset of small outputs and around buffer
    boundaries of large ones."""
    rng = ctx.rng
    plans = []
    for n in (1, 4):
        size = 32 * ((n + 2) // 3)
        plans.append((n, list(range(0, size + 2))))
    n = rng.choice([1000, 1500])
    size = 32 * ((n + 2) // 3)
    plans.append((n, sorted({0, 1, 4095, 4096, 4097, 8190, 8191, 8192, 8193, size - 1, size - 8, size - 4096, size, size + 1,
                             rng.randrange(size), rng.randrange(size), rng.randrange(size)})))
    for n, limits in plans:
        t = "NOP;" * n
        exp = expect_bytes(lib(ctx, t))
        for lim in limits:
            w = bed.fresh()
            inp, out = os.path.join(w, "in"), os.path.join(w, "out")
            write(inp, t)
            rc, diag = bed.run([inp, "-o", out], limit=lim)
            key = "limit %d of %d" % (lim, len(exp))
            if lim < len(exp):
                must_fail(ctx, bed, "write limit below the output size", key, rc, diag)
            else:
                must_succeed(ctx, bed, "write limit not reached", key, rc, diag, out, exp)
            ctx.count("write limits")
            bed.done()


def do_shim(ctx, bed):
    rng = ctx.rng
    so = os.path.join(bed.d, "shim.so")
    subprocess.run(["gcc", "-O1", "-shared", "-fPIC", "-o", so, os.path.join(HARNESS, "shim.c"), "-ldl"], check=True)
    plans = [("NXV_READ", "E%d" % k) for k in (1, 2, 3, 4, 7)] + [("NXV_READ", "S0"), ("NXV_READ", "I0"), ("NXV_READ", "I2")] + \
        [("NXV_WRITE", "E%d" % k) for k in (1, 2, 3)] + [("NXV_WRITE", "S0"), ("NXV_WRITE", "S1"), ("NXV_WRITE", "I0"),
                                                  ("NXV_WRITE", "C0")]
    for var, plan in plans:
        for n in (3, 700, 4000):
            w = os.path.realpath(bed.fresh())
            inp, out = os.path.join(w, "in"), os.path.join(w, "out")
            t = "NOP;\n" * n
            write(inp, t)
            old = rng.random() < 0.5
            if old:
                write(out, b"old" * 1000)
            log = os.path.join(bed.d, "log")
            if os.path.exists(log):
                os.remove(log)
            before = snapshot(w)
            rc, diag = bed.run([inp, "-o", out], env={"LD_PRELOAD": so, "NXV_IN": inp, "NXV_OUT": out, var: plan,
                                                      "NXV_LOG": log})
            hit = open(log).read().split("\n")[0] if os.path.exists(log) else ""
            key = "%s %s %d" % (var, plan, n)
            exp = expect_bytes(lib(ctx, t))
            if hit == "read error":
                # the first read may also be retried or reported by whoever wraps it; the tool must fail
                must_fail(ctx, bed, "injected " + hit, key, rc, diag, before)
            elif hit in ("write error", "close error"):
                must_fail(ctx, bed, "injected " + hit, key, rc, diag)
            elif "interrupted" in hit:
                # either coped with or reported, never a silent truncation
                ctx.saw("fault scenarios", "injected " + hit)
                if rc == 0:
                    must_succeed(ctx, bed, "injected " + hit, key, rc, diag, out, exp)
                else:
                    must_fail(ctx, bed, "injected " + hit, key, rc, diag)
            else:
                must_succeed(ctx, bed, "injected " + (hit or "nothing"), key, rc, diag, out, exp)
            if hit:
                ctx.count("injected faults that fired")
            bed.done()


def do_user(ctx, bed):
    """Permissions, seen as an unprivileged user."""
    uid = 65534
    rng = ctx.rng
    t = program(ctx, 10)
    o = lib(ctx, t)
    for what in ("unreadable input", "unwritable output", "unwritable directory", "unsearchable directory", "fine",
                 "rejected source, writable"):
        w = bed.fresh()
        os.chmod(w, 0o777)
        inp, out = os.path.join(w, "in"), os.path.join(w, "out")
        write(inp, t if "rejected" not in what else "FOO;")
        os.chmod(inp, 0o644)
        if what == "unreadable input":
            os.chmod(inp, 0o600)
        elif what == "unwritable output":
            write(out, b"old")
            os.chmod(out, 0o444)
        elif what == "unwritable directory":
            os.chmod(w, 0o755)
        elif what == "unsearchable directory":
            sub = os.path.join(w, "sub")
            os.mkdir(sub)
            out = os.path.join(sub, "out")
            os.chmod(sub, 0o700)
        elif "rejected" in what:
            write(out, b"old")
            os.chmod(out, 0o666)
        before = snapshot(w)
        try:
            rc, diag = bed.run([inp, "-o", out], user=uid, cwd="/")
        except (PermissionError, subprocess.SubprocessError):
            ctx.count("could not become an unprivileged user")
            bed.done()
            continue
        if what == "fine":
            if o.ok:
                must_succeed(ctx, bed, "unprivileged user", t, rc, diag, out, expect_bytes(o))
        else:
            must_fail(ctx, bed, "unprivileged user: " + what, what, rc, diag, before)
        bed.done()
