"""Client of harness/driver.cpp: runs batches of source texts through the real assembler."""
import os
import select
import struct
import subprocess
import tempfile
import shutil

STDOUT = b"\1stdout\1"      # separates standard error from standard output in Out.diag
OK, EXIT, EXC, SIGNAL, NOTRUN = 0, 1, 2, 3, 4

SAN_ENV = {
    "ASAN_OPTIONS": "abort_on_error=1:detect_leaks=0:detect_stack_use_after_return=1:"
                    "handle_abort=0:allocator_may_return_null=1:hard_rss_limit_mb=3500",
    "UBSAN_OPTIONS": "abort_on_error=1:print_stacktrace=1",
    "TSAN_OPTIONS": "halt_on_error=1:exitcode=66:hard_rss_limit_mb=12000",
}


class HarnessError(Exception):
    pass


class Out:
    __slots__ = ("status", "code", "words", "diag")

    def __init__(self, status, code, words, diag):
        self.status, self.code, self.words, self.diag = status, code, words, diag

    @property
    def ok(self):
        return self.status == OK

    @property
    def rejected(self):
        """The documented way to reject: a diagnostic and exit status 1."""
        return self.status == EXIT and self.code == 1 and bool(self.diag)

    @property
    def sane(self):
        return self.status == OK or self.rejected

    def same(self, o):
        return self.status == o.status and self.code == o.code and self.words == o.words

    def brief(self):
        if self.status == OK:
            return "ok " + " ".join("%016x" % w for w in self.words[:12]) + \
                (" ...(%d words)" % len(self.words) if len(self.words) > 12 else "")
        d = self.diag.decode("latin-1", "replace").strip()
        for e in ("\x1b[1m", "\x1b[0m", "\x1b[1;31m"):
            d = d.replace(e, "")
        return "%s %d: %s" % (("ok", "exit", "exception", "signal", "not run")[self.status], self.code,
                              d[:600])


def env_for(extra=None):
    e = dict(os.environ)
    e.update(SAN_ENV)
    e["LC_ALL"] = "C"
    e.update(extra or {})
    return e


class Driver:
    def __init__(self, exe, timeout=20, fast=False, env=None):
        self.exe = exe
        self.timeout = timeout
        self.p = subprocess.Popen([exe, "serve", str(timeout)] + (["fast"] if fast else []),
                                  stdin=subprocess.PIPE,
                                  stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=env_for(env))

    def close(self):
        try:
            self.p.stdin.close()
        except OSError:
            pass
        self.p.kill()
        self.p.wait()
        self.p.stdout.close()

    def run(self, cases, name=b"file"):
        """cases: list of bytes or (bytes, name). Returns [Out]."""
        out = []
        i = 0
        while i < len(cases):
            size = 0
            j = i
            while j < len(cases) and j - i < 4000 and size < 8 << 20:
                c = cases[j]
                size += len(c if isinstance(c, bytes) else c[0])
                j += 1
            out += self._batch(cases[i:j], name)
            i = j
        return out

    def _batch(self, cases, name):
        parts = []
        for c in cases:
            t, nm = (c, name) if isinstance(c, bytes) else c
            parts.append(struct.pack("<II", len(t), len(nm)))
            parts.append(t)
            parts.append(nm)
        body = b"".join(parts)
        try:
            self.p.stdin.write(struct.pack("<II", len(cases), len(body)) + body)
            self.p.stdin.flush()
            n = struct.unpack("<I", self._read(4))[0]
            data = self._read(n)
        except (OSError, EOFError) as e:
            raise HarnessError("driver %s ended: %r rc=%r" % (self.exe, e, self.p.poll()))
        res = []
        pos = 0
        for _ in cases:
            st, code, nw = struct.unpack_from("<BiI", data, pos)
            pos += 9
            words = struct.unpack_from("<%dQ" % nw, data, pos)
            pos += 8 * nw
            dl, = struct.unpack_from("<I", data, pos)
            pos += 4
            res.append(Out(st, code, words, data[pos:pos + dl]))
            pos += dl
        return res

    def _read(self, n):
        b = self.p.stdout.read(n)
        if len(b) != n:
            raise EOFError
        return b


def run_one(exe, text, name=b"file", timeout=60, wrapper=(), env=None):
    """One call in a fresh, pristine process."""
    d = tempfile.mkdtemp(prefix="nxv-one-")
    try:
        i, o = os.path.join(d, "in"), os.path.join(d, "out")
        with open(i, "wb") as f:
            f.write(text)
        try:
            r = subprocess.run(list(wrapper) + [exe, "one", i, o, os.fsdecode(name)],
                               stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env_for(env),
                               timeout=timeout)
        except subprocess.TimeoutExpired:
            return Out(SIGNAL, 14, (), b"timeout")
        diag = r.stderr + (STDOUT + r.stdout if r.stdout else b"")
        if r.returncode < 0:
            return Out(SIGNAL, -r.returncode, (), diag)
        if r.returncode > 0:
            return Out(EXIT, r.returncode, (), diag)
        b = open(o, "rb").read()
        return Out(OK, 0, struct.unpack("<%dQ" % (len(b) // 8), b), diag)
    finally:
        shutil.rmtree(d, ignore_errors=True)
