"""Running the real nd binaries on a case."""
import base64
import json
import os
import shutil
import subprocess
import tempfile
import threading
import time

ENV = {"PATH": "/usr/local/bin:/usr/bin:/bin", "LC_ALL": "C", "RUST_BACKTRACE": "0", "HOME": "/nonexistent"}


class Result:
    __slots__ = ("rc", "out", "err", "files", "wall", "timeout")

    def __init__(self, rc, out, err, files=None, wall=0, timeout=False):
        self.rc, self.out, self.err, self.files, self.wall, self.timeout = rc, out, err, files, wall, timeout

    @property
    def crashed(self):
        # killed by a signal, or a Rust panic (exit status 101)
        return self.rc < 0 or self.rc == 101 or b"panicked at" in self.err or b"Sanitizer" in self.err


def fmt_anchor(p, rng=None):
    if p is None:
        return ""
    a, k = p
    if a == "c":
        return str(k)
    if k == 0:
        return a
    return "%s%+d" % (a, k)


def fmt_range(r):
    return fmt_anchor(r[0]) + ".." + fmt_anchor(r[1])


def fmt_ranges(rs):
    return ",".join(fmt_range(r) for r in rs)


def build_args(case):
    """case -> (args, {file name: bytes}) ; args name files relative to the cwd"""
    a, files = [], {}
    mode = case.get("mode", "cat")
    if case.get("infmt") is not None:
        a += ["-F", case["infmt"]]
    if case.get("outfmt") is not None:
        a += ["-f", case["outfmt"]]
    if mode == "inplace":
        a.append("-i")
    elif mode == "zip":
        a += ["-z", str(case["n"])]
    elif case.get("n") is not None:
        a += ["-c", str(case["n"])]
    if case.get("filler") is not None:
        a += ["--filler", str(case["filler"])]
    if case.get("cut") is not None:
        a.append("--cut=" + fmt_ranges(case["cut"]))
    if case.get("pad") is not None:
        a.append("--pad=%d,%d" % tuple(case["pad"]))
    if case.get("patch") is not None:
        files["_patch"] = case["patch"]
        a.append("--patch=_patch")
    sl = case.get("slicer")
    if sl is not None:
        k = sl[0]
        if k == "w":
            a.append("--width=%d%s" % (sl[1], "" if sl[2] is None else "," + fmt_range(sl[2])))
        elif k == "d":
            a.append("--find=" + sl[1].hex(" "))
        elif k == "k":
            a.append("--walk=" + ",".join(sl[1]))
        elif k == "r":
            a.append("--slice=" + fmt_ranges(sl[1]))
        elif k == "g":
            files["_guide"] = b"".join(b"%x %x\n" % tuple(x) for x in sl[1])
            a.append("--guide=_guide")
    if case.get("regex") is not None:
        a.append("--regex=" + case["regex"][0])
    if case.get("invert") is not None:
        a.append("--invert=" + fmt_ranges(case["invert"]))
    if case.get("extend") is not None:
        a.append("--extend=" + fmt_ranges(case["extend"]))
    if case.get("merge") is not None:
        a += ["--merge", str(case["merge"])]
    if case.get("lines") is not None:
        a.append("--lines=" + fmt_ranges(case["lines"]))
    o = case.get("out")
    if o is not None:
        a += ["--output=" + o[1] if o[0] == "o" else "--patch-back=" + o[1]]
    for i, x in enumerate(case["inputs"]):
        files["_in%d" % i] = x
    return a, files


def put(path, data):
    with open(path, "wb") as f:
        f.write(data)


def feed(proc, data, plan):
    """write data to the stdin of proc in pieces; plan = [(size, sleep seconds)] (cycled)"""
    try:
        p, i, slept = 0, 0, 0
        fd = proc.stdin.fileno()
        while p < len(data):
            n, d = plan[i % len(plan)]
            i += 1
            if d and slept < 0.15:
                time.sleep(d)
                slept += d
            if i > 20000:
                n = max(n, 4096)
            p += os.write(fd, data[p:p + n])
    except (BrokenPipeError, OSError):
        pass
    finally:
        try:
            proc.stdin.close()
        except OSError:
            pass


def execute(argv, cwd, stdin=None, plan=None, env=None, timeout=25, stdout=None, user=None, retry=True):
    """A run which is over its (generous) time is repeated once, without delays and with four times the time;
    only if that one does not end either is it reported as not terminating."""
    r = execute1(argv, cwd, stdin, plan, env, timeout, stdout, user)
    if r.timeout and retry:
        r = execute1(argv, cwd, stdin, [(n, 0) for n, _ in plan] if plan else plan, env, 4 * timeout, stdout, user)
    return r


def execute1(argv, cwd, stdin, plan, env, timeout, stdout, user):
    e = dict(ENV)
    if env:
        e.update(env)
    t0 = time.monotonic()
    with tempfile.TemporaryFile() as fo, tempfile.TemporaryFile() as fe:
        proc = subprocess.Popen(argv, cwd=cwd, env=e, stdin=subprocess.PIPE if stdin is not None else subprocess.DEVNULL,
                                stdout=stdout if stdout is not None else fo, stderr=fe, start_new_session=True,
                                **({} if user is None else {"user": user, "group": user, "extra_groups": []}))
        th = None
        if stdin is not None:
            if plan is None and len(stdin) <= 65536:
                plan = [(65536, 0)]
                feed(proc, stdin, plan)
            else:
                th = threading.Thread(target=feed, args=(proc, stdin, plan or [(1 << 20, 0)]), daemon=True)
                th.start()
        to = False
        try:
            proc.wait(timeout)
        except subprocess.TimeoutExpired:
            to = True
            try:
                os.killpg(proc.pid, 9)
            except ProcessLookupError:
                pass
            proc.wait()
        if th:
            th.join(5)
        fo.seek(0)
        fe.seek(0)
        return Result(proc.returncode, fo.read(), fe.read(), None, time.monotonic() - t0, to)


def snapshot(d, skip=()):
    out = {}
    for root, _, names in os.walk(d):
        for n in names:
            p = os.path.join(root, n)
            r = os.path.relpath(p, d)
            if r not in skip:
                with open(p, "rb") as f:
                    out[r] = f.read()
    return out


def run_case(binary, case, scratch, delivery=None, env=None, timeout=25, collect=False, wrapper=()):
    """delivery: None = files; [(size, sleep)] = the last input through a pipe in such pieces"""
    args, files = build_args(case)
    d = tempfile.mkdtemp(dir=scratch)
    try:
        for k, v in files.items():
            put(os.path.join(d, k), v)
        names = ["_in%d" % i for i in range(len(case["inputs"]))]
        stdin = None
        if delivery is not None and case.get("mode") != "inplace":
            stdin = case["inputs"][-1]
            names[-1] = "-"
        r = execute([*wrapper, binary, *args, *names], d, stdin, delivery, env, timeout)
        if collect or case.get("out") is not None or case.get("mode") == "inplace":
            r.files = snapshot(d, skip=set(files) if case.get("mode") != "inplace" else {"_patch", "_guide"})
        return r
    finally:
        shutil.rmtree(d, ignore_errors=True)


def cmdline(case):
    args, files = build_args(case)
    return args + ["_in%d" % i for i in range(len(case["inputs"]))]


def jsonable(x):
    if isinstance(x, (bytes, bytearray)):
        return {"b64": base64.b64encode(bytes(x)).decode()}
    if isinstance(x, tuple):
        return {"t": [jsonable(y) for y in x]}
    if isinstance(x, list):
        return [jsonable(y) for y in x]
    if isinstance(x, dict):
        return {"d": {k: jsonable(v) for k, v in x.items()}}
    return x


def unjson(x):
    if isinstance(x, list):
        return [unjson(y) for y in x]
    if isinstance(x, dict):
        if "b64" in x:
            return base64.b64decode(x["b64"])
        if "t" in x:
            return tuple(unjson(y) for y in x["t"])
        return {k: unjson(v) for k, v in x["d"].items()}
    return x
