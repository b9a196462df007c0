"""Checks driven by injected faults, crashes, sanitizers and resource monitors."""
import os
import random
import re
import resource
import shutil
import signal
import stat
import subprocess
import threading
import time
from collections import Counter

from . import build, expr, gen, model, oracle, run
from .checks import ALL, CHECKS, PROD, SMALL, TEXT, T, V, check
from .checks2 import EVERYTHING, NOBODY, SED, Dir, affordable, gen_template, needs_text, small
from .harness import CTX, Skip, Violation
from .oracle import PROD_BLOCK, bl, gen_delivery

ERRNO = {"EIO": 5, "ENOSPC": 28, "EMFILE": 24, "EACCES": 13, "EINTR": 4, "ENOENT": 2, "EPIPE": 32, "EROFS": 30, "EFBIG": 27, "EBADF": 9, "EPERM": 1}


def events(path):
    """the event log of the interposer -> [(op, class, rest)]"""
    out = []
    try:
        with open(path, "r", errors="replace") as f:
            for ln in f:
                w = ln.split()
                if w:
                    out.append(w)
    except OSError:
        pass
    return out


def mutations(ev):
    """number of state-changing calls, counted as the interposer does"""
    n = 0
    for w in ev:
        if w[0] in ("rename", "unlink", "fchmod", "ftruncate") or (w[0] in ("write", "open") and w[1] in "ot"):
            n += 1
    return n


def sites(ev):
    """{(op, class): number of calls} which a fault can be injected into"""
    c = Counter()
    for w in ev:
        if w[0] in ("read", "write", "open"):
            c[(w[0], w[1])] += 1
        elif w[0] in ("rename", "unlink", "fchmod", "ftruncate", "fsync"):
            c[(w[0], "o")] += 1
        elif w[0] == "lseek":
            c[("lseek", w[1])] += 1
    return c


# ------------------------------------------------------- C19 in-place editing
class Arena:
    """a directory of files given to `nd -i`, owned by the unprivileged user"""

    def __init__(self, ctx, rng, case, datas, reserve=()):
        self.d = Dir(ctx)
        self.case, self.names, self.modes = case, [], {}
        self.old, self.other = {}, {}
        for i, x in enumerate(datas):
            n = "%s%d" % (rng.choice("abfz"), i) + rng.choice(["", ".bin", ".tmp"])
            m = rng.choice([0o600, 0o644, 0o755, 0o640, 0o666])
            self.add(n, x, m)
            self.names.append(n)
            self.old[n] = x
        for n in list(self.names):
            for suffix in reserve:
                if rng.random() < .4 and n + suffix not in self.old:
                    self.other[n + suffix] = rng.randbytes(7)
        self.other["bystander"] = b"do not touch"
        for n, x in self.other.items():
            self.add(n, x, 0o644)
        self.args, files = run.build_args({**case, "mode": "inplace", "inputs": []})
        for n, x in files.items():
            self.add(n, x, 0o644)
            self.other[n] = x
        argv = list(self.names)
        rng.shuffle(argv)
        if rng.random() < .15:
            argv.append(argv[0])
        self.argv = argv
        self.sorted = sorted(self.names)

    def add(self, n, x, m):
        p = self.d.path(n)
        run.put(p, x)
        os.chown(p, NOBODY, NOBODY)
        os.chmod(p, m)
        self.modes[n] = m

    def reset(self):
        for n in os.listdir(self.d.p):
            os.unlink(self.d.path(n))
        for n, x in {**self.old, **self.other}.items():
            self.add(n, x, self.modes[n])

    def new(self):
        """expected contents after success (raises as the model does)"""
        return {n: expected_inplace(self.case, x) for n, x in self.old.items()}

    def run(self, ctx, key, env=None, timeout=25, wrapper=(), retry=True):
        e = dict(env or {})
        if e:
            e["LD_PRELOAD"] = ctx.shim
            e["NDS_ROOT"] = self.d.p
        return run.execute([*wrapper, ctx.bins[key], *self.args, *[self.d.path(n) for n in self.argv]], self.d.p, None, None, e, timeout, user=NOBODY, retry=retry)

    def judge(self, new, succeeded, allow_tmp, what, **d):
        """the state monitor"""
        got = run.snapshot(self.d.p)
        d = {**d, "files": sorted(got), "order": self.sorted}
        state = []
        for n in self.sorted:
            if n not in got:
                raise Violation(what + ": a file is gone", name=n, **d)
            if got[n] == new[n] and got[n] == self.old[n]:
                state.append("=")
            elif got[n] == new[n]:
                state.append("new")
            elif got[n] == self.old[n]:
                state.append("old")
            else:
                raise Violation(what + ": a file holds neither its old nor its new content", name=n, got_len=len(got[n]), old_len=len(self.old[n]),
                                new_len=len(new[n]), got=small(got[n], 300), old=small(self.old[n], 300), new=small(new[n], 300), **d)
            m = stat.S_IMODE(os.stat(self.d.path(n)).st_mode)
            if m != self.modes[n]:
                raise Violation(what + ": the permissions of a file changed", name=n, got=oct(m), expected=oct(self.modes[n]), **d)
        seen_old = False
        for s in state:
            if s == "old":
                seen_old = True
            elif s == "new" and seen_old:
                raise Violation(what + ": files are not replaced in order", state=state, **d)
        if succeeded and "old" in state:
            raise Violation(what + ": nd reports success but a file was not edited", state=state, **d)
        for n, x in self.other.items():
            if got.get(n) != x:
                raise Violation(what + ": an unrelated file was changed or removed", name=n, **d)
        extra = [n for n in got if n not in self.old and n not in self.other]
        if extra and not allow_tmp:
            raise Violation(what + ": temporary files are left behind", extra=extra, **d)
        for n in extra:
            if not any(n.startswith(x + ".tmp") for x in self.names):
                raise Violation(what + ": a file appeared", name=n, **d)
        return state

    def close(self):
        self.d.__exit__()


def expected_inplace(case, data):
    c = {**case, "mode": "inplace", "inputs": [data]}
    o = c.get("out")
    if o is not None and o[0] == "P":
        s = model.run({**c, "out": None, "outfmt": c.get("outfmt") or "x"})
        if o[1] == "cat":
            return model.apply_patch(s["stream"], s["stdout"])
        if o[1].startswith("sed"):
            t = s["stdout"].replace(b" 61", b" 62 62")
            return model.apply_patch(s["stream"], t)
        raise AssertionError(o)
    return model.run(c)["stdout"]


def gen_inplace(rng, block):
    case, _ = gen.gen_pipeline(rng, {"cut": .4, "pad": .4, "patch": .3, "slicer": .35, "kinds": "wwdk", "invert": .05, "filler": .1, "outfmt": .0}, block)
    case["n"] = None
    if case.get("slicer") is None and rng.random() < .25:
        case["outfmt"] = "x"
    del case["inputs"]
    if rng.random() < .2:
        case["out"] = ("P", rng.choice(["cat", "sed 's/ 61/ 62 62/g'"]))
        case["slicer"], case["outfmt"] = ("w", rng.choice([3, 16, 100]), None), None
        case["invert"] = None
    if case.get("patch") is not None and rng.random() < .5:
        case["patch"] = b"0 1 | 61 62\n"
    return case


def draw_arena(rng, ctx, block, sizes, counts, must=True, reserve=(".tmp", ".tmp~")):
    for _ in range(60):
        case = gen_inplace(rng, block)
        datas = [gen.gen_bytes(rng, rng.choice(sizes) + rng.randrange(3)) for _ in range(rng.choice(counts))]
        try:
            new = [expected_inplace(case, x) for x in datas]
        except (model.Reject, model.Unspecified):
            continue
        if must and all(a == b for a, b in zip(new, datas)):
            continue
        if max(map(len, new)) > 20 * (max(map(len, datas)) + 500):
            continue
        return Arena(ctx, rng, case, datas, reserve)
    raise Skip()


def c19_kinds(case):
    return oracle.shape({**case, "mode": "i"})


def c19_kill(rng, ctx):
    """a kill before and after every state-changing call of one invocation"""
    block = rng.choice([145, 145, 4096])
    key = ctx.pick(rng, lambda k: k[1] == str(block), block == 4096)
    a = draw_arena(rng, ctx, block, [0, 1, 100, 300, 700] if block == 145 else [10, 3000, 9000], [1, 1, 2, 3])
    if needs_text(a.case) and block == 145:
        key = ctx.pick(rng, lambda k: k[1] == "4096")
    try:
        new = a.new()
        log = os.path.join(a.d.p + ".log")
        open(log, "w").close()
        os.chmod(log, 0o666)
        d = dict(cmd=a.args + a.argv, binary="-".join(key), sizes=[len(x) for x in a.old.values()])
        r = a.run(ctx, key, {"NDS_LOG": log})
        oracle.assert_clean(r, rc=r.rc, stderr=r.err[:300], **d)
        if r.rc != 0:
            raise Violation("in-place editing failed without a fault", rc=r.rc, stderr=r.err[:300], **d)
        a.judge(new, True, False, "after success", **d)
        n = mutations(events(log))
        os.unlink(log)
        states = Counter()
        points = [(k, af) for k in range(1, n + 1) for af in (0, 1)]
        if len(points) > 60:
            points = points[:16] + rng.sample(points[16:-16], 28) + points[-16:]
        for k, af in points:
            a.reset()
            r = a.run(ctx, key, {"NDS_KILL": "%d%s" % (k, ":after" if af else "")}, retry=False)
            if r.rc != -9:
                # a feeder thread may order the calls differently
                if a.case.get("out") is None and r.rc != 0:
                    raise Violation("failed without a fault", rc=r.rc, stderr=r.err[:300], kill=(k, af), **d)
                continue
            st = a.judge(new, False, True, "after a kill at state-changing call %d (%s)" % (k, "after" if af else "before"), **d)
            states[",".join(st)] += 1
        # a later run is not disturbed by what a killed one left
        cur = {x: a.d.get(x) for x in a.names}
        left = [x for x in os.listdir(a.d.p) if x not in a.old and x not in a.other]
        try:
            again = {x: expected_inplace(a.case, y) for x, y in cur.items()}
        except (model.Reject, model.Unspecified):
            again = None
        if again is not None:
            for x in left:
                a.other[x] = a.d.get(x)
            a.old = cur
            r = a.run(ctx, key)
            if r.rc != 0:
                raise Violation("cannot edit after an earlier run was killed", rc=r.rc, stderr=r.err[:300], left=left, **d)
            a.judge(again, True, False, "after a repeated run", **d)
        return ((c19_kinds(a.case), n, tuple(sorted(states))) if n > 3 else None, {"cmd": d["cmd"], "kill points": len(points), "states": dict(states)},
                Counter({"kill points enumerated": len(points), "kills that struck": sum(states.values()), "state-changing calls": n, "re-runs": int(again is not None),
                         "states: all old": sum(v for s, v in states.items() if "new" not in s), "states: some new": sum(v for s, v in states.items() if "new" in s)}))
    finally:
        a.close()


C19_ERR = {"read": ["EIO"], "write": ["ENOSPC", "EIO"], "open": ["EACCES", "EMFILE", "ENOSPC"], "rename": ["EACCES", "EIO", "ENOSPC"], "fchmod": ["EPERM", "EIO"],
           "lseek": ["EIO"], "ftruncate": ["EIO"], "unlink": [], "fsync": ["EIO"]}


def c19_fault(rng, ctx):
    """every single failing call of one invocation"""
    block = rng.choice([145, 145, 4096])
    a = draw_arena(rng, ctx, block, [0, 1, 100, 300, 700] if block == 145 else [10, 3000, 9000], [1, 2, 2, 3])
    key = ctx.pick(rng, lambda k: k[1] == (str(block) if not needs_text(a.case) else "4096"))
    try:
        new = a.new()
        log = os.path.join(a.d.p + ".log")
        open(log, "w").close()
        os.chmod(log, 0o666)
        d = dict(cmd=a.args + a.argv, binary="-".join(key), sizes=[len(x) for x in a.old.values()])
        r = a.run(ctx, key, {"NDS_LOG": log})
        if r.rc != 0:
            raise Violation("in-place editing failed without a fault", rc=r.rc, stderr=r.err[:300], **d)
        ss = sites(events(log))
        os.unlink(log)
        points = [(op, c, i) for (op, c), n in sorted(ss.items()) for i in range(1, n + 1) if c not in "1p" and C19_ERR.get(op)]
        if len(points) > 40:
            points = rng.sample(points, 40)
        ev = Counter()
        for op, c, i in points:
            e = rng.choice(C19_ERR[op])
            a.reset()
            r = a.run(ctx, key, {"NDS_FAIL": "%s:%d:%d:%s" % (op, i, ERRNO[e], c)})
            what = "with %s failing with %s (call %d, class %s)" % (op, e, i, c)
            oracle.assert_clean(r, rc=r.rc, stderr=r.err[:300], fault=what, **d)
            st = a.judge(new, r.rc == 0, False, what, rc=r.rc, stderr=r.err[:200], **d)
            ev["fault points: " + op] += 1
            ev["result: " + ("error reported" if r.rc else "absorbed")] += 1
        return (c19_kinds(a.case), len(points), key), {"cmd": d["cmd"], "fault points": len(points)}, ev
    finally:
        a.close()


def c19_reject(rng, ctx):
    """an error deep in the data of one of several files"""
    block = rng.choice(["145", "4096", "prod"])
    n = {"145": 2000, "4096": 30000, "prod": 5 << 20}[block]
    k = rng.randrange(4)
    if k == 0:
        good, bad = bytes([100]) * n, bytearray(bytes([100]) * n)
        for p in range(rng.randrange(n // 2, n), n):
            bad[p] = 0
        case = {"slicer": ("k", ["b[0]"])}
        fmt = b""
    elif k == 1:
        block = "4096" if block == "145" else block
        rec = b"".join(b"%x 10 | %s\n" % (i * 16, b"61 " * 16) for i in range(n // 64))
        good, bad = rec, bytearray(rec[:rng.randrange(len(rec) // 2, len(rec) - 100)] + b"\n zz oops\n")
        case = {"infmt": "x"}
    elif k == 2:
        block = "4096" if block == "145" else block
        good = bad = bytes(n)
        case = {"patch": b"".join(b"%x 1 | 61\n" % (i * 50) for i in range(n // 100)) + b"0 1 | 62\n"}
    else:
        block = "4096" if block == "145" else block
        good = bad = bytes(range(256)) * (n // 256)
        case = {"out": ("P", rng.choice(["head -n 20; echo oops", "cat; echo 0 1", "sed 's/ 61 / 6x /'"]))}
    a = Arena(ctx, rng, case, [bytes(good), bytes(bad)], (".tmp",))
    key = ctx.pick(rng, lambda x: x[1] == block)
    try:
        new, first_bad = {}, None
        for nme in a.sorted:
            try:
                if k == 3:
                    raise model.Reject("answer")
                new[nme] = expected_inplace(case, a.old[nme])
            except model.Reject:
                new[nme] = a.old[nme]
                first_bad = first_bad or nme
            except model.Unspecified:
                raise Skip()
        if first_bad is None:
            raise Skip()
        d = dict(cmd=a.args + a.argv, binary="-".join(key), sizes=[len(x) for x in a.old.values()])
        r = a.run(ctx, key, timeout=60)
        oracle.assert_clean(r, rc=r.rc, stderr=r.err[:300], **d)
        if r.rc == 0:
            raise Violation("an invalid input was accepted", stderr=r.err[:300], **d)
        # nothing behind the file in error may be touched
        for nme in a.sorted[a.sorted.index(first_bad):]:
            new[nme] = a.old[nme]
        st = a.judge(new, False, False, "after rejecting the data", rc=r.rc, stderr=r.err[:200], **d)
        if "old" in st:
            raise Violation("an earlier file was not edited", state=st, **d)
        return ("reject", k, block, a.sorted.index(first_bad)), {"cmd": d["cmd"], "rejected": first_bad}, Counter({"rejected inputs": 1, "files kept intact": sum(x == "=" for x in st)})
    finally:
        a.close()


def c19_observer(rng, ctx):
    """readers which look at the file all the time, and signals at random moments"""
    block = rng.choice(["4096", "prod"])
    n = rng.choice([200000, 600000]) if block == "4096" else 6 << 20
    case = {"pad": (rng.choice([0, 100]), rng.choice([0, 5000])), "cut": [(("s", 5), ("e", -3))]}
    a = Arena(ctx, rng, case, [oracle.gen_large_data(rng, n) for _ in range(2)], ())
    key = ctx.pick(rng, lambda x: x[1] == block)
    try:
        new = a.new()
        seen, bad = Counter(), []
        halt = threading.Event()

        def reader(nme):
            while not halt.is_set():
                try:
                    x = a.d.get(nme)
                except OSError as e:
                    bad.append((nme, "cannot be opened: %s" % e))
                    return
                if x == a.old[nme]:
                    seen["old"] += 1
                elif x == new[nme]:
                    seen["new"] += 1
                else:
                    bad.append((nme, "%d bytes (old %d, new %d)" % (len(x), len(a.old[nme]), len(new[nme]))))
                    return
        ths = [threading.Thread(target=reader, args=(x,), daemon=True) for x in a.names]
        for t in ths:
            t.start()
        d = dict(cmd=a.args + a.argv, binary="-".join(key))
        env = {"NDS_DELAY": str(rng.randrange(1 << 30)), "NDS_DELAY_US": "2000" if block == "prod" else "300"}
        sig = rng.choice([None, signal.SIGTERM, signal.SIGINT, signal.SIGKILL, signal.SIGHUP])
        e = dict(run.ENV, **env, LD_PRELOAD=ctx.shim, NDS_ROOT=a.d.p)
        p = subprocess.Popen([ctx.bins[key], *a.args, *[a.d.path(x) for x in a.argv]], cwd=a.d.p, env=e, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL,
                             stderr=subprocess.PIPE, user=NOBODY, group=NOBODY, extra_groups=[], start_new_session=True)
        if sig:
            time.sleep(rng.random() * .15)
            p.send_signal(sig)
        try:
            err = p.communicate(timeout=120)[1]
        except subprocess.TimeoutExpired:
            p.kill()
            p.communicate()
            raise Violation("did not terminate", **d)
        time.sleep(.01)
        halt.set()
        for t in ths:
            t.join()
        if bad:
            raise Violation("a concurrent reader saw a file which is neither old nor new", observations=bad, signal=sig, **d)
        if p.returncode != 0 and not sig:
            raise Violation("failed without a fault", rc=p.returncode, stderr=err[:300], **d)
        st = a.judge(new, p.returncode == 0, p.returncode < 0, "after signal %s" % sig, rc=p.returncode, **d)
        return ("observer", block, str(sig), tuple(st)), {"cmd": d["cmd"], "signal": str(sig), "states": st, "reads": dict(seen)}, Counter(
            {"concurrent reads: old": seen["old"], "concurrent reads: new": seen["new"], "signals": int(sig is not None)})
    finally:
        a.close()


@check("C19")
def c19(c):
    c.level = "fault_enumeration"
    c.rule = ("random in-place invocations (1..3 files, all editing stages, --patch-back) as an unprivileged user; the interposer's log of a fault-free run enumerates the "
              "state-changing and fallible calls, and the invocation is repeated with a kill before and after each of the former and a failure of each of the latter; "
              "the state monitor judges the directory after each; distinct = new (stages, number of calls, states reached)")
    c.assumptions = ["process crashes only: power loss would need fsync, which nd does not claim", "at most 60 kill points and 40 fault points per invocation (all, for nearly every one)"]
    c.build(ALL, shim=True)
    c.fuzz("kill", c19_kill, 10**7, T(c, 18, 300))
    c.fuzz("fault", c19_fault, 10**7, T(c, 12, 200))
    c.fuzz("reject", c19_reject, 10**6, T(c, 7, 100))
    c.fuzz("observer", c19_observer, 10**6, T(c, 7, 100), procs=4)


# ------------------------------------------------------------- C20 I/O faults
C20_ERR = {"read": ["EIO", "EACCES", "EINTR"], "write": ["ENOSPC", "EIO", "EFBIG"], "open": ["EACCES", "EMFILE", "ENOENT", "EIO"], "lseek": ["EIO"], "ftruncate": ["EIO"],
           "unlink": ["EIO"], "rename": ["EIO"], "fchmod": ["EIO"], "fsync": ["EIO"]}


class Session:
    """an invocation which can be repeated in an identical directory"""

    def __init__(self, ctx, rng, case, key, files=None, stdin=None, delivery=None, old=None):
        self.ctx, self.case, self.key = ctx, case, key
        self.args, f = run.build_args(case)
        self.files = {**f, **(files or {})}
        self.old = old or {}
        self.names = ["_in%d" % i for i in range(len(case["inputs"]))]
        self.stdin, self.delivery = None, None
        if delivery is not None:
            self.stdin, self.delivery = case["inputs"][-1], delivery
            self.names[-1] = "-"

    def run(self, env=None, log=False, timeout=25, wrapper=(), stdout=None, stdin="std"):
        with Dir(self.ctx, {**self.files, **self.old}) as d:
            e = dict(env or {})
            if log:
                d.put(".log", b"")
                e["NDS_LOG"] = d.path(".log")
            if e:
                e.update(LD_PRELOAD=self.ctx.shim, NDS_ROOT=d.p)
            r = run.execute([*wrapper, self.ctx.bins[self.key], *self.args, *self.names], d.p, self.stdin if stdin == "std" else stdin, self.delivery, e, timeout, stdout=stdout,
                            user=NOBODY)
            ev = events(d.path(".log")) if log else None
            r.files = run.snapshot(d.p, skip=set(self.files) | {".log"})
        return r, ev

    def describe(self, r=None, **d):
        d = dict(cmd=self.args + self.names, binary="-".join(self.key), input_lens=[len(x) for x in self.case["inputs"]], stdin=self.stdin is not None, **d)
        if r is not None:
            d.update(rc=r.rc, stderr=r.err[:300])
        if sum(d["input_lens"]) < 20000:
            d["case"] = run.jsonable({k: v for k, v in self.case.items() if v is not None})
        return d

    def judge(self, g, r, what, quiet_ok=False, **d):
        """against the fault-free run g"""
        d = self.describe(r, fault=what, **d)
        oracle.assert_clean(r, **d)
        done = r.out == g.out and r.files == g.files
        if r.rc == 0 and not done and not quiet_ok:
            bad = [k for k in set(g.files) | set(r.files) if g.files.get(k) != r.files.get(k)]
            raise Violation("success is reported although the output is wrong", stdout_len=len(r.out), expected_len=len(g.out), files=bad[:5], **d)
        if r.rc and (self.case.get("out") or ("",))[0] == "P":
            # the fault may have cut CMD off; the bytes it had no chance to patch come out as they were
            return "error reported"
        if not g.out.startswith(r.out):
            raise Violation("after a fault, stdout is not a prefix of the right output", **oracle.diff_detail(r.out, g.out), **d)
        for k, x in r.files.items():
            want = g.files.get(k)
            if want is None:
                raise Violation("after a fault, a file appears which the invocation never writes", name=k, **d)
            if not want.startswith(x) and x != self.old.get(k):
                raise Violation("after a fault, an output file holds something else than a prefix of its content", name=k, **oracle.diff_detail(x, want), **d)
        return "complete" if done else "error reported" if r.rc else "quiet"


def c20_session(rng, ctx, want=None):
    block = rng.choice([145, 145, 4096])
    stages = {k: v * .8 for k, v in EVERYTHING.items()}
    case, s = gen.gen_pipeline(rng, stages, block)
    affordable(case)
    k = rng.random() if want is None else want
    old = {}
    if k < .25:
        case["out"] = ("o", gen_template(rng, 16))
        if rng.random() < .4 and "{" not in case["out"][1] and case["out"][1] not in ("", "-"):
            old[case["out"][1]] = b"old content"
    elif k < .5:
        case["out"] = ("P", rng.choice(["cat", "sed 's/ 61/ 62 62/g'", "cat > /dev/null", "sed -n 3p", "cat; sleep 0.01"]))
        if case.get("outfmt") not in (None, "x"):
            case["outfmt"] = "x"
    key = ctx.pick(rng, lambda x: x[1] == ("4096" if block == 145 and (needs_text(case) or case.get("out", ("", ""))[0] == "P") else str(block)))
    ss = Session(ctx, rng, case, key, None, None, gen_delivery(rng, .3), old)
    return ss


def c20_enumerate(rng, ctx):
    ss = c20_session(rng, ctx)
    g, ev = ss.run(log=True)
    oracle.assert_clean(g, **ss.describe(g))
    if g.rc != 0 or len(g.files) > 100:
        raise Skip()
    st = sites(ev)
    points = [(op, c, i) for (op, c), n in sorted(st.items()) for i in range(1, n + 1) if C20_ERR.get(op)]
    if len(points) > 36:
        # the ends of each kind are always taken
        ends = [(op, c, i) for op, c, i in points if i in (1, st[(op, c)])]
        points = rng.sample(ends, min(len(ends), 16)) + rng.sample(points, 20)
    out = Counter()
    for op, c, i in points:
        e = rng.choice(C20_ERR[op])
        if op == "read" and e == "EINTR" and c == "p":
            e = "EIO"
        r, _ = ss.run({"NDS_FAIL": "%s:%d:%d:%s" % (op, i, ERRNO[e], c)})
        out["result: " + ss.judge(g, r, "%s of class %s, call %d: %s" % (op, c, i, e))] += 1
        out["fault points: %s %s" % (op, c)] += 1
    return (oracle.shape(ss.case), ss.key, len(points)) if points else None, {"cmd": ss.args + ss.names, "fault points": len(points)}, out


def c20_large(rng, ctx):
    """faults deep in a stream of many blocks, and in the spilled part of the --patch-back cache"""
    n = rng.choice([100000, 700000])
    case = {"inputs": [oracle.gen_large_data(rng, n)], "slicer": ("w", rng.choice([1000, 4096, 20000]), None), "outfmt": rng.choice(["b", "x"])}
    if rng.random() < .5:
        case["out"] = ("P", rng.choice(["cat", "sed -n '1~7p'", "cat > /dev/null"]))
        case["outfmt"] = None
    if rng.random() < .4:
        case["pad"] = (3, 5)
    if rng.random() < .4:
        case["inputs"].append(case["inputs"][0][:n // 2])
    key = ctx.pick(rng, lambda x: x[1] == "4096")
    ss = Session(ctx, rng, case, key, None, None, [(65536, 0)] if rng.random() < .3 else None)
    g, ev = ss.run(log=True)
    oracle.assert_clean(g, **ss.describe(g))
    if g.rc != 0:
        raise Violation("a valid invocation fails", **ss.describe(g))
    st = sites(ev)
    out = Counter()
    kinds = sorted(k for k in st if C20_ERR.get(k[0]))
    for op, c in kinds:
        for i in {1, st[(op, c)], rng.randrange(1, st[(op, c)] + 1), rng.randrange(1, st[(op, c)] + 1)}:
            e = rng.choice(C20_ERR[op]) if c != "p" else "EIO"
            r, _ = ss.run({"NDS_FAIL": "%s:%d:%d:%s" % (op, i, ERRNO[e], c)})
            out["result: " + ss.judge(g, r, "%s of class %s, call %d of %d: %s" % (op, c, i, st[(op, c)], e))] += 1
            out["fault points: %s %s" % (op, c)] += 1
    return ("large", oracle.shape(case), n), {"cmd": ss.args + ss.names}, out


def c20_env(rng, ctx):
    """real faults: full device, size limit, directories, missing and unreadable files, closed pipes"""
    k = rng.randrange(6)
    ss = c20_session(rng, ctx, .1 if k == 2 or k == 5 and rng.random() < .5 else None)
    g, _ = ss.run()
    oracle.assert_clean(g, **ss.describe(g))
    if g.rc != 0:
        raise Skip()
    ev = Counter()
    if k == 0:
        if not g.out:
            raise Skip()
        with open("/dev/full", "wb") as f:
            r, _ = ss.run(stdout=f)
        d = ss.describe(r, fault="stdout is /dev/full")
        oracle.assert_clean(r, **d)
        if r.rc == 0:
            raise Violation("success is reported although no byte of the output could be written", **d)
        ev["full device"] += 1
    elif k == 1:
        # stdout is a pipe whose reader goes away after some bytes
        if len(g.out) < 2:
            raise Skip()
        m = rng.randrange(0, len(g.out))
        rd, wr = os.pipe()
        import fcntl
        try:
            fcntl.fcntl(wr, 1031, 4096)
        except OSError:
            pass
        got = bytearray()

        def reader():
            while len(got) < m:
                x = os.read(rd, m - len(got))
                if not x:
                    break
                got.extend(x)
            os.close(rd)
        th = threading.Thread(target=reader, daemon=True)
        th.start()
        res = []

        def runner():
            res.append(ss.run(stdout=wr)[0])
        t2 = threading.Thread(target=runner)
        t2.start()
        t2.join()
        os.close(wr)
        th.join(10)
        r = res[0]
        d = ss.describe(r, fault="the reader of stdout leaves after %d bytes" % m)
        oracle.assert_clean(r, **d)
        if not g.out.startswith(bytes(got)):
            raise Violation("a reader of the first bytes gets something else than a prefix of the output", **oracle.diff_detail(bytes(got), g.out), **d)
        if len(got) < m:
            raise Violation("the output is truncated", got=len(got), wanted=m, **d)
        if r.rc != 0 or b"error" in r.err.lower():
            raise Violation("a reader which leaves early is not taken quietly", **d)
        ev["closed output pipes"] += 1
    elif k == 2:
        sizes = [len(x) for x in g.files.values() if x]
        if not sizes:
            raise Skip()
        for lim in {1, max(sizes) - 1, rng.randrange(max(sizes)), rng.randrange(max(sizes)), rng.choice(sizes)}:
            r, _ = ss.run(wrapper=["/bin/bash", "-c", 'trap "" XFSZ; exec prlimit --fsize=%d "$0" "$@" 2> >(exec cat >&2)' % lim])
            res = ss.judge(g, r, "file size limit of %d bytes" % lim)
            ev["file size limit: " + res] += 1
    elif k == 5:
        # the kernel takes a part of what is written, which is not even a fault
        for _ in range(3):
            seed = rng.randrange(1 << 30)
            r, _ = ss.run({"NDS_SHORT": str(seed)})
            if ss.judge(g, r, "partial reads and writes, seed %d" % seed) != "complete":
                raise Violation("partial reads and writes are taken for an error", seed=seed, **ss.describe(r))
            ev["partial reads and writes"] += 1
    else:
        # one of the files cannot be read
        victim = rng.choice([x for x in ss.names if x != "-"] + [x for x in ("_patch", "_guide") if x in ss.files] or ["_in0"])
        if victim not in ss.files or victim == "_in0" and ss.stdin is not None:
            raise Skip()
        how = rng.choice(["missing", "directory", "forbidden"])
        orig = dict(ss.files)
        del ss.files[victim]
        with Dir(ctx, {**ss.files, **ss.old}) as d_:
            if how == "directory":
                os.mkdir(d_.path(victim), 0o755)
            elif how == "forbidden":
                d_.put(victim, orig[victim], 0o600)
            r = run.execute([ctx.bins[ss.key], *ss.args, *ss.names], d_.p, ss.stdin, ss.delivery, None, user=NOBODY)
            files = run.snapshot(d_.p, skip=set(orig) | {".log"})
        d = ss.describe(r, fault="%s is %s" % (victim, how))
        oracle.assert_clean(r, **d)
        if r.rc == 0 and how == "directory" and r.out == g.out and files == g.files:
            # (not all inputs need to be read, as with `--lines s..s+4`)
            ev["unused file"] += 1
        elif r.rc == 0:
            raise Violation("success is reported although an input cannot be read", **d)
        elif not g.out.startswith(r.out) and (ss.case.get("out") or ("",))[0] != "P":
            # (as in `judge`: what CMD had no chance to patch comes out as it was)
            raise Violation("after a fault, stdout is not a prefix of the right output", **oracle.diff_detail(r.out, g.out), **d)
        ev["unreadable inputs: " + how] += 1
    return ("env", k, oracle.shape(ss.case)), {"cmd": ss.args + ss.names, "fault": dict(ev)}, ev


@check("C20")
def c20(c):
    c.level = "fault_enumeration"
    c.rule = ("random invocations over all stages and drains; the interposer's log of the fault-free run enumerates every read, write, open, lseek (and so on) by class (input, output file, stdout, "
              "spool, pipe of a child), and the invocation is repeated with each failing; plus real faults (full device, size limit, missing, forbidden and directory inputs, closed pipes); the monitor "
              "judges exit status, stdout and files against the fault-free run; distinct = new (stages, build, number of fault points)")
    c.assumptions = ["single faults; at most 36 fault points per small invocation (the first and last call of each kind always among the candidates)",
                     "EPIPE on the pipe to CMD means that CMD does not want the rest, and is not a fault"]
    c.build(ALL, shim=True)
    c.fuzz("enumerate", c20_enumerate, 10**7, T(c, 24, 340))
    c.fuzz("large", c20_large, 10**6, T(c, 9, 120))
    c.fuzz("env", c20_env, 10**7, T(c, 12, 160))
