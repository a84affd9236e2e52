"""Runner shared by all checks: builds, shards the workload over processes, feeds the real code,
lets the monitors judge, confirms every alarm in a fresh process, writes the evidence file."""
import base64
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import queue
import random
import re
import sys
import time
import traceback

from . import build as B
from .driver import Driver, HarnessError, run_one, NOTRUN

ROOT = B.ROOT
EVID = os.path.join(ROOT, "evidence")
KNOWN = os.path.join(ROOT, "known_findings.txt")
MAX_VIOL = 3


def b(s):
    return s if isinstance(s, bytes) else s.encode("latin-1")


def show(t, n=400):
    t = b(t)
    s = t[:n].decode("latin-1").encode("unicode_escape").decode()
    return s + ("...(%d bytes)" % len(t) if len(t) > n else "")


class Ctx:
    """What a workload task sees."""

    def __init__(self, prop, tier, seed, task, paths, stop, index):
        self.prop, self.tier, self.seed, self.paths, self.stop = prop, tier, seed, paths, stop
        self.quick = tier == "quick"
        self.rng = random.Random("%s/%s/%r" % (seed, prop, task))
        self.task = task
        self.drivers = {}
        self.pending = {}
        self.npending = {}
        self.evals = 0
        self.nontrivial = set()
        self.counts = {}
        self.sets = {}
        self.samples = []
        self.viol = []
        self.unconfirmed = 0
        self.unconfirmed_ex = []
        self.index = index

    # -- observation bookkeeping ------------------------------------------------------------
    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n

    def saw(self, k, v):
        self.sets.setdefault(k, set()).add(v)

    def sample(self, s):
        if len(self.samples) < 2:
            self.samples.append(s)

    # -- running the real code --------------------------------------------------------------
    def driver(self, cfg="plain", fast=True, timeout=20):
        d = self.drivers.get((cfg, fast))
        if d is None:
            d = self.drivers[(cfg, fast)] = Driver(self.paths[(cfg, "driver")], timeout, fast)
        return d

    def submit(self, texts, judge, cfg="plain", key=None, trivial=False, names=None, fast=True,
               confirm=True):
        """texts: list of source texts run as one case; judge(list of Out) -> None or message."""
        p = self.pending.setdefault((cfg, fast), [])
        p.append((texts, judge, key, trivial, names, confirm))
        n = self.npending[(cfg, fast)] = self.npending.get((cfg, fast), 0) + len(texts)
        if n >= 3000:
            self._flush((cfg, fast))

    def flush(self):
        for k in list(self.pending):
            self._flush(k)

    def _flush(self, k):
        cases = self.pending.get(k) or []
        self.pending[k] = []
        self.npending[k] = 0
        if not cases:
            return
        flat = []
        for texts, _, _, _, names, _ in cases:
            for i, t in enumerate(texts):
                flat.append(b(t) if names is None else (b(t), b(names[i])))
        outs = self.driver(*k).run(flat)
        pos = 0
        for texts, judge, key, trivial, names, confirm in cases:
            o = outs[pos:pos + len(texts)]
            pos += len(texts)
            if any(x.status == NOTRUN for x in o):
                self.count("not run: earlier inputs of the batch hung")
                continue
            self.evals += 1
            for x in o:
                self.count("accepted" if x.ok else "rejected" if x.rejected else "abnormal")
            if not trivial:
                self.nontrivial.add(hash(key if key is not None else tuple(texts)))
            msg = judge(o)
            if len(self.samples) < 2 and self.rng.random() < 0.01:
                self.sample({"input": [show(t, 160) for t in texts[:3]],
                             "observed": [x.brief()[:160] for x in o[:3]]})
            if msg:
                self.alarm(texts, judge, msg, o, k[0], names, confirm)
        if self.stop.is_set():
            raise Stop()

    def alarm(self, texts, judge, msg, outs, cfg, names, confirm):
        """Confirm a suspicious observation in fresh processes with nothing intercepted."""
        if confirm:
            exe = self.paths[(cfg, "driver")]
            again = [run_one(exe, b(t), b(names[i]) if names else b"file", 60)
                     for i, t in enumerate(texts)]
            m2 = judge(again)
            if not m2:
                self.unconfirmed += 1
                if len(self.unconfirmed_ex) < 3:
                    self.unconfirmed_ex.append({"input": [show(t) for t in texts], "first": msg})
                return
            msg, outs = m2, again
        self.violation(msg, texts, [o.brief() for o in outs], cfg=cfg)

    def violation(self, msg, texts, observed, **extra):
        v = {"property": self.prop, "message": msg, "task": repr(self.task), "seed": self.seed,
             "tier": self.tier,
             "texts": [{"escaped": show(t, 4000),
                        "base64": base64.b64encode(b(t)[:200000]).decode()} for t in texts],
             "observed": observed}
        v.update(extra)
        self.viol.append(v)
        if not is_known(v):
            self.stop.set()

    def result(self):
        nt = self.nontrivial
        return {"evals": self.evals, "nt": nt, "counts": self.counts, "sets": self.sets,
                "samples": self.samples, "viol": self.viol, "unc": self.unconfirmed,
                "unc_ex": self.unconfirmed_ex}

    def close(self):
        for d in self.drivers.values():
            d.close()


class Stop(Exception):
    pass


_known = None


def known_entries():
    """Lines 'known: property=<id> input=<key> <what fails>'; the key is the hash of the failing
    inputs, or the name a check gives to one specific failing call site."""
    global _known
    if _known is None:
        _known = []
        if os.path.exists(KNOWN):
            for line in open(KNOWN, encoding="utf-8"):
                m = re.match(r"known: property=(\S+) input=(\S+) (.*)", line)
                if m:
                    _known.append(m.groups())
    return _known


def finding_key(v):
    if v.get("finding"):
        return v["finding"]
    return hashlib.sha256("|".join(t["base64"] for t in v["texts"]).encode()).hexdigest()[:16]


def is_known(v):
    k = finding_key(v)
    for p, h, what in known_entries():
        if p == v["property"] and h == k:
            return what
    return None


def _worker(mod_name, prop, tier, seed, paths, stop, qin, qout):
    mod = importlib.import_module(mod_name)
    while True:
        try:
            i, task = qin.get(timeout=1)
        except queue.Empty:
            continue
        if task == "$END":
            qout.put(("end", None, None))
            return
        if stop.is_set():
            qout.put(("skip", i, None))
            continue
        ctx = Ctx(prop, tier, seed, task, paths, stop, i)
        try:
            try:
                mod.run(ctx, task)
                ctx.flush()
            except Stop:
                pass
            qout.put(("ok", i, ctx.result()))
        except Exception:
            qout.put(("error", i, traceback.format_exc()))
            qout.put(("ok", i, ctx.result()))
        finally:
            ctx.close()


def main(prop, tier):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    mod_name = "nxv.checks." + prop.lower()
    mod = importlib.import_module(mod_name)
    os.makedirs(EVID, exist_ok=True)
    paths = {}
    # everything the check executes is rebuilt from /repo's working tree (cached by content)
    groups = {}
    for c, w in mod.NEEDS:
        groups.setdefault(w, []).append(c)
    for w, cs in groups.items():
        paths.update(B.build(cs, (w,)))
    tb = time.time() - t0
    tasks = list(mod.tasks(tier))
    manager_stop = mp.Event()
    qin, qout = mp.Queue(), mp.Queue()
    n = max(1, min(os.cpu_count() or 4, getattr(mod, "WORKERS", 64), len(tasks)))
    for it in enumerate(tasks):
        qin.put(it)
    for _ in range(n):
        qin.put((None, "$END"))
    procs = [mp.Process(target=_worker, args=(mod_name, prop, tier, seed, paths, manager_stop, qin,
                                              qout), daemon=True) for _ in range(n)]
    for p in procs:
        p.start()
    tot = {"evals": 0, "nt": set(), "counts": {}, "sets": {}, "samples": [], "viol": [], "unc": 0,
           "unc_ex": []}
    errors = []
    live = n
    skipped = 0
    while live:
        try:
            kind, i, r = qout.get(timeout=5)
        except queue.Empty:
            if not any(p.is_alive() for p in procs):
                errors.append("worker processes died")
                break
            continue
        if kind == "end":
            live -= 1
        elif kind == "skip":
            skipped += 1
        elif kind == "error":
            errors.append("task %r: %s" % (tasks[i], r))
        else:
            tot["evals"] += r["evals"]
            tot["nt"] |= r["nt"]
            for k, v in r["counts"].items():
                tot["counts"][k] = tot["counts"].get(k, 0) + v
            for k, v in r["sets"].items():
                tot["sets"].setdefault(k, set()).update(v)
            tot["samples"] += r["samples"]
            tot["viol"] += r["viol"]
            tot["unc"] += r["unc"]
            tot["unc_ex"] += r["unc_ex"]
    for p in procs:
        p.join(timeout=5)
        if p.is_alive():
            p.kill()
    new, known = [], []
    for v in tot["viol"]:
        w = is_known(v)
        if w:
            known.append((v, w))
        else:
            new.append(v)
    rng = random.Random(seed)
    samples = tot["samples"]
    if len(samples) > 8:
        samples = rng.sample(samples, 8)
    observed = dict(tot["counts"])
    for k, v in tot["sets"].items():
        observed["distinct " + k] = len(v)
    cov = {"evaluations": tot["evals"], "distinct_nontrivial": len(tot["nt"]), "rule": mod.RULE,
           "samples": samples or ["(none: the run stopped at the first violation)"],
           "observed": observed, "unconfirmed_alarms": tot["unc"],
           "unconfirmed_examples": tot["unc_ex"][:5], "tasks": len(tasks), "tasks_skipped": skipped,
           "build_s": round(tb, 1)}
    if hasattr(mod, "finish"):
        extra = mod.finish(tot, tier)
        if extra:
            cov["observed"].update(extra)
    ev = {"property": prop, "tier": tier, "seed": seed, "level": mod.LEVEL, "coverage": cov,
          "assumptions": getattr(mod, "ASSUMPTIONS", []),
          "wall_s": round(time.time() - t0, 1), "violations": len(new)}
    with open(os.path.join(EVID, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for w in sorted({w for _, w in known}):
        print("KNOWN-FINDING: property=%s %s" % (prop, w))
    if new:
        new.sort(key=lambda v: (sum(len(t["base64"]) for t in v["texts"]), v["message"]))
        for v in new[:MAX_VIOL]:
            rp = os.path.join(EVID, "replay-%s-%s.json" % (prop, finding_key(v)))
            with open(rp, "w") as f:
                json.dump(v, f, indent=1)
            print("  " + v["message"][:600])
            for t, o in list(zip(v["texts"], v["observed"]))[:4]:
                print("    input: " + t["escaped"][:300])
                print("    observed: " + o[:300])
            print("VIOLATION property=%s replay=%s" % (prop, rp))
        return 1
    if errors:
        print("ERROR in check %s:\n%s" % (prop, "\n".join(errors[:3])), file=sys.stderr)
        return 2
    need = getattr(mod, "MINIMUM", {})
    for k, m in need.get(tier, {}).items():
        if observed.get(k, 0) < m:
            print("INCONCLUSIVE %s: observed only %d of %s (need %d)" % (prop, observed.get(k, 0), k, m),
                  file=sys.stderr)
            return 2
    print("%s %s: held on %d evaluations (%d distinct non-trivial), %.0f s" % (
        prop, tier, tot["evals"], len(tot["nt"]), time.time() - t0))
    return 0


def cli():
    try:
        rc = main(sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else
                  os.environ.get("VERIF_TIER", "quick"))
    except (B.BuildError, HarnessError) as e:
        print("ERROR: %s" % e, file=sys.stderr)
        rc = 2
    sys.stdout.flush()
    sys.exit(rc)
