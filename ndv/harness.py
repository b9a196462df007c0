"""Runs a check: builds the variants, drives the workloads over all cores, collects what the monitors saw,
writes the evidence and the replay files, and decides the exit status."""
import hashlib
import json
import multiprocessing
import multiprocessing.connection
import os
import random
import re
import shutil
import signal
import sys
import tempfile
import time
import traceback
from collections import Counter

from . import build, run

HERE = build.HERE
KNOWN = os.path.join(HERE, "known_findings.txt")


class Violation(Exception):
    def __init__(self, what, **detail):
        super().__init__(what)
        self.what, self.detail = what, detail


class Known(Exception):
    """the case fails exactly the way of the finding `key` of known_findings.txt"""
    def __init__(self, key, violation):
        super().__init__(key)
        self.key, self.violation = key, violation


class Skip(Exception):
    """the case is outside of what the property (or the documentation) specifies"""


class Ctx:
    """what a workload function sees"""
    bins = {}
    scratch = None
    tier = "quick"
    seed = 1
    shim = None
    extra = {}

    def pick(self, rng, want=None, text=False):
        """a binary; text inputs need a block which holds a record header"""
        ks = [k for k in self.bins if (want is None or want(k)) and not (text and k[1] == "145")]
        return ks[rng.randrange(len(ks))]


CTX = Ctx()
_WORK = {}


def _call(job):
    name, seed = job
    rng = random.Random("%s/%s/%d" % (name, CTX.seed, seed))
    try:
        r = _WORK[name](rng, CTX)
        return name, seed, "ok", r
    except Skip:
        return name, seed, "skip", None
    except Known as k:
        return name, seed, "known", (k.key, (k.violation.what, k.violation.detail))
    except Violation as v:
        return name, seed, "viol", (v.what, v.detail)
    except Exception:
        return name, seed, "error", traceback.format_exc()


class Check:
    def __init__(self, pid, tier, seed, level="exploration"):
        self.pid, self.tier, self.seed, self.level = pid, tier, seed, level
        self.t0 = time.monotonic()
        self.viols, self.errors = [], []
        self.known_seen = Counter()
        self._known = None
        self.count = Counter()
        self.observed = Counter()
        self.sigs = set()
        self.samples = []
        self.rule = ""
        self.assumptions = []
        self.notes = {}
        self.walls = {}
        self.budget_total = None
        self.max_viols = 3
        CTX.tier, CTX.seed = tier, seed
        CTX.scratch = tempfile.mkdtemp(prefix="ndv-%s-" % pid, dir="/tmp")
        os.chmod(CTX.scratch, 0o755)

    def build(self, want, shim=False):
        b = build.ensure(want)
        CTX.bins = b
        if shim:
            CTX.shim = build.shim()
        return b

    # ------------------------------------------------------------- workloads
    def fuzz(self, name, fn, n, seconds, procs=8, base=0):
        """fn(rng, ctx) -> (signature, sample, Counter of monitored events).
        Every worker takes every procs-th case, until n cases are done or the time is over; a case which
        has been started is always finished and judged."""
        if len(self.viols) >= self.max_viols:
            return
        _WORK[name] = fn
        procs = max(1, min(procs, n))
        t0 = time.monotonic()
        stop = t0 + seconds
        ctx = multiprocessing.get_context("fork")
        halt = ctx.Event()
        conns, ps = [], []
        for w in range(procs):
            r, wr = ctx.Pipe(False)
            p = ctx.Process(target=_worker, args=(name, base + w, base + n, procs, stop, wr, halt), daemon=True)
            p.start()
            wr.close()
            conns.append(r)
            ps.append(p)
        done = 0
        while conns:
            for c in multiprocessing.connection.wait(conns):
                try:
                    batch = c.recv()
                except EOFError:
                    conns.remove(c)
                    continue
                for r in batch:
                    done += 1
                    self._absorb(*r)
                if len(self.viols) >= self.max_viols:
                    halt.set()
        for p in ps:
            p.join()
            if p.exitcode != 0:
                self.errors.append((name, -1, "a worker process died with status %s" % p.exitcode))
        self.count["cases:" + name] += done
        self.walls[name] = round(time.monotonic() - t0, 1)

    def single(self, name, fn):
        """one deterministic workload, in this process"""
        if len(self.viols) >= self.max_viols:
            return
        _WORK[name] = fn
        self._absorb(*_call((name, 0)))
        self.count["cases:" + name] += 1

    def _absorb(self, name, seed, kind, r):
        if kind == "ok":
            self.count["evaluations"] += 1
            if r is not None:
                sig, sample, ev = r
                if sig is not None:
                    new = (name, sig) not in self.sigs
                    self.sigs.add((name, sig))
                    if new and sample is not None and sum(s["workload"] == name for s in self.samples) < 3:
                        self.samples.append({"workload": name, "case": seed, **sample})
                if ev:
                    self.observed.update(ev)
        elif kind == "skip":
            self.count["skipped"] += 1
            self.count["skipped:" + name] += 1
        elif kind == "viol":
            self.count["evaluations"] += 1
            self.viols.append((name, seed, r[0], r[1]))
        elif kind == "known":
            self.count["evaluations"] += 1
            if r[0] in self.known():
                self.known_seen[r[0]] += 1
            else:
                self.viols.append((name, seed, *r[1]))
        else:
            self.errors.append((name, seed, r))

    def observe(self, **kv):
        self.observed.update(kv)

    # --------------------------------------------------------------- results
    def known(self):
        """{key: text} of the lines "known: property=<id> <key>: <text>" """
        if self._known is None:
            self._known = {}
            try:
                with open(KNOWN) as f:
                    for ln in f:
                        m = re.match(r"known: property=(\S+) ([-\w]+): (.*)", ln.strip())
                        if m and m.group(1) == self.pid:
                            self._known[m.group(2)] = m.group(3)
            except OSError:
                pass
        return self._known

    def finish(self):
        shutil.rmtree(CTX.scratch, ignore_errors=True)
        rc = 0
        for name, seed, what, detail in self.viols:
            d = {"property": self.pid, "workload": name, "case": seed, "seed": self.seed, "tier": self.tier, "what": what,
                 "detail": run.jsonable(detail)}
            txt = json.dumps(d, indent=1, default=repr)
            rp = os.path.join(build.OUT, "replay", "%s-%s.json" % (self.pid, hashlib.sha256(txt.encode()).hexdigest()[:12]))
            os.makedirs(os.path.dirname(rp), exist_ok=True)
            with open(rp, "w") as f:
                f.write(txt)
            print("%s/%d: %s" % (name, seed, what))
            for k, v in detail.items():
                print("    %s: %s" % (k, repr(v)[:600]))
            print("VIOLATION property=%s replay=%s" % (self.pid, rp))
            rc = 1
        for k, n in sorted(self.known_seen.items()):
            print("KNOWN-FINDING: property=%s %s: %s (seen %d times)" % (self.pid, k, self.known()[k], n))
        if self.errors and not self.viols:
            for name, seed, tb in self.errors[:3]:
                print("harness error in %s/%d:\n%s" % (name, seed, tb))
            rc = 2
        cov = {
            "evaluations": self.count["evaluations"],
            "distinct_nontrivial": len(self.sigs),
            "rule": self.rule,
            "samples": self.samples[:12],
            "cases_per_workload": {k[6:]: v for k, v in sorted(self.count.items()) if k.startswith("cases:")},
            "seconds_per_workload": self.walls,
            "skipped_unspecified": self.count["skipped"],
            "skipped_by_workload": {k[8:]: v for k, v in sorted(self.count.items()) if k.startswith("skipped:")},
            "workloads_that_observed_nothing": sorted(k[6:] for k, v in self.count.items() if k.startswith("cases:") and v == self.count["skipped:" + k[6:]]),
            "known_findings_observed": dict(self.known_seen),
            "observed": dict(sorted(self.observed.items())),
            "variants": sorted("-".join(k) for k in CTX.bins),
            **self.notes,
        }
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": self.level, "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(time.monotonic() - self.t0, 2), "violations": len(self.viols)}
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        p = os.path.join(HERE, "evidence", self.pid + ".json")
        with open(p + ".new", "w") as f:
            json.dump(run_safe(ev), f, indent=1)
        os.replace(p + ".new", p)
        print("%s %s: %d evaluations, %d distinct, %d skipped, %d violations, %.1f s" % (
            self.pid, self.tier, cov["evaluations"], cov["distinct_nontrivial"], cov["skipped_unspecified"], len(self.viols), ev["wall_s"]))
        print("    seconds: " + ", ".join("%s %.1f (%d)" % (k, v, self.count["cases:" + k]) for k, v in self.walls.items()))
        for k, v in sorted(self.observed.items()):
            print("    %-40s %d" % (k, v))
        return rc


def _worker(name, first, last, step, stop, conn, halt):
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    out, sent = [], time.monotonic()
    for i in range(first, last, step):
        if halt.is_set() or (time.monotonic() > stop and i >= first + step):
            break
        out.append(_call((name, i)))
        if time.monotonic() - sent > 0.3 or out[-1][2] in ("viol", "error"):
            conn.send(out)
            out, sent = [], time.monotonic()
    conn.send(out)
    conn.close()


def run_safe(x):
    if isinstance(x, dict):
        return {str(k): run_safe(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [run_safe(v) for v in x]
    if isinstance(x, (bytes, bytearray)):
        return bytes(x).decode("latin-1")
    if isinstance(x, (int, float, str, bool)) or x is None:
        return x
    return repr(x)


def main(argv):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay", help="replay file: runs exactly that case again")
    a = ap.parse_args(argv)
    from . import checks, checks2, checks3, checks4, checks5  # noqa: F401
    sys.stdout.reconfigure(line_buffering=True)
    try:
        c = Check(a.property, a.tier, a.seed)
        if a.replay:
            with open(a.replay) as f:
                d = json.load(f)
            c.seed = CTX.seed = d["seed"]
            c.tier = CTX.tier = d["tier"]
            only = (d["workload"], d["case"])
            orig_fuzz, orig_single = c.fuzz, c.single

            def one(name, fn, *_, **__):
                if name == only[0]:
                    _WORK[name] = fn
                    c._absorb(*_call(only))
            c.fuzz = c.single = one
        checks.CHECKS[a.property](c)
    except build.BuildError as e:
        print("build failed: %s" % e)
        shutil.rmtree(CTX.scratch, ignore_errors=True)
        return 2
    return c.finish()
