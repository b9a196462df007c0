"""Sanitizers (C22), resource monitors (C23), race and deadlock monitors (C24)."""
import os
import random
import re
import resource
import select
import shutil
import signal
import subprocess
import tempfile
import threading
import time
from collections import Counter

from . import build, expr, gen, model, oracle, run
from .checks import ALL, CHECKS, PROD, T, V, check
from .checks2 import EVERYTHING, NOBODY, SED, Dir, affordable, c18_case, c18_judge, c18_run, needs_text, small
from .checks4 import Args, bounded, c21_vector, hostile_text, unsafe
from .harness import CTX, Known, Skip, Violation
from .oracle import PROD_BLOCK, bl, gen_delivery

SAN = {"ASAN_OPTIONS": "detect_leaks=0:detect_stack_use_after_return=1:strict_string_checks=1:allocator_may_return_null=1:max_allocation_size_mb=2000:hard_rss_limit_mb=3000:exitcode=99",
       "MSAN_OPTIONS": "allocator_may_return_null=1:max_allocation_size_mb=2000:hard_rss_limit_mb=3000:exit_code=99",
       "TSAN_OPTIONS": "exitcode=99:halt_on_error=1:second_deadlock_stack=1:history_size=4"}
REPORT = re.compile(rb"(?:ERROR|WARNING|SUMMARY): \w+Sanitizer: ([-\w ]+)|(unsafe precondition\(s\) violated[^\n]*)|(Undefined Behavior: [^\n]*)|(misaligned pointer dereference[^\n]*)|(null pointer dereference[^\n]*)")
BENIGN = re.compile(rb"allocation-size-too-big|requested allocation size|out of memory|out-of-memory|rss-limit|hard rss limit|failed to allocate|allocator is out of memory|stack-overflow", re.I)


def sanitizer_report(err):
    m = REPORT.search(err)
    if m and not BENIGN.search(err):
        return b" ".join(x for x in m.groups() if x).decode(errors="replace")[:120]
    return None


def report_detail(err):
    """the useful part of a sanitizer report"""
    i = REPORT.search(err)
    return err[i.start():i.start() + 1800].decode(errors="replace") if i else err[:600].decode(errors="replace")


def judge_san(rc, err, **det):
    rep = sanitizer_report(err)
    if rep:
        raise Violation("a sanitizer reports: " + rep, report=report_detail(err), **det)
    if rc is not None and rc in (-signal.SIGSEGV, -signal.SIGBUS, -signal.SIGILL, 128 + signal.SIGSEGV, 128 + signal.SIGBUS, 128 + signal.SIGILL) and not BENIGN.search(err):
        raise Violation("nd is killed by a memory fault", rc=rc, stderr=err[:500], **det)


# ------------------------------------------------------------- C22 memory safety
FORMATS = ["x", "b", "d", "xxx", "ddx", "nnx", "nnb", "ddd", "xdx", "dxx", "nxx", "xnx", "xxb", "ddb"]
EDGE = [1, 2, 3, 4, 5, 7, 8, 9, 14, 15, 16, 17, 18, 30, 31, 32, 33, 34, 47, 48, 49, 63, 64, 65, 79, 80, 81, 127, 128, 129, 143, 144, 145, 146, 255, 256, 257]


def san_case(ctx, rng, case, key, delivery, timeout=60, env=None):
    """runs one pipeline on a sanitizer build; also compares it with the model where that has an answer"""
    r = run.run_case(ctx.bins[key], case, ctx.scratch, delivery, {**SAN, **(env or {})}, timeout)
    d = oracle.describe(case, key, delivery, None)
    judge_san(r.rc, r.err, **d)
    if r.timeout:
        raise Violation("a sanitizer build does not end", **d)
    if r.crashed:
        raise Violation("a sanitizer build crashes", rc=r.rc, stderr=r.err[:600], **d)
    ev = Counter({"runs: " + key[2]: 1, "bytes through " + key[2]: sum(len(x) for x in case["inputs"]) + len(r.out)})
    try:
        exp = model.run(case)
    except (model.Unspecified, model.Reject, model.TooBig):
        ev["unjudged outputs"] += 1
        return r, ev
    if r.rc == 0 and r.out != exp["stdout"]:
        raise Violation("the output of a sanitizer build differs from the specification", **oracle.diff_detail(r.out, exp["stdout"]), **d)
    ev["outputs also compared"] += 1
    return r, ev


def c22_grid(rng, ctx):
    """records around the sizes of vectors, blocks and margins, in every format, as the last thing in their buffers"""
    n = rng.choice([rng.choice(EDGE), rng.choice(EDGE) + rng.choice([0, 1, 145, 290]), rng.randrange(0, 600)])
    case = {"mode": "cat", "n": None, "inputs": [gen.gen_bytes(rng, n, rng.choice(["full", "print", "ones"]))], "outfmt": rng.choice(FORMATS)}
    k = rng.random()
    w = rng.choice([rng.choice(EDGE), rng.randrange(1, 300)])
    if k < .7:
        case["slicer"] = ("w", w, None)
    elif k < .8:
        case["slicer"] = ("w", w, (("s", rng.choice([0, -1, -16, -20, 1])), ("e", rng.choice([0, 1, 16, 17, 40]))))
    elif k < .9:
        case["slicer"] = ("k", [str(w), str(rng.choice(EDGE))])
    else:
        case["slicer"] = ("r", [(("s", rng.randrange(n + 1)), ("e", -rng.randrange(n + 1))) for _ in range(3)])
    if rng.random() < .25:
        case["mode"], case["n"] = "zip", rng.choice([1, 2, 3, 4, 5, 8, 15, 16, 17, 31, 32, 33, 64, 100])
        case["inputs"] = [gen.gen_bytes(rng, max(0, n + rng.choice([0, 0, -1, 1, 17, -30]))) for _ in range(rng.choice([1, 2, 3, 5]))]
    if case["outfmt"] not in ("x", "b", "d", "xxx", "ddx", "nnx", "nnb", "ddd"):
        case["outfmt"] = rng.choice(["x", "d", "b"]) if rng.random() < .5 else case["outfmt"]
    try:
        affordable(case)
    except Skip:
        raise
    except Exception:
        case["outfmt"] = "x"
    key = ctx.pick(rng, lambda k: k[1] in ("145", "4096"))
    r, ev = san_case(ctx, rng, case, key, gen_delivery(rng, .3, 0))
    return ("grid", key, case["outfmt"], case["mode"], n if n < 300 else 300, min(w, 300)), {"cmd": run.cmdline(case), "binary": "-".join(key)}, ev


def c22_pipeline(rng, ctx):
    case, s = gen.gen_pipeline(rng, {**EVERYTHING, "text": .2}, rng.choice([145, 145, 4096]))
    affordable(case)
    r = rng.random()
    if r < .12:
        case["out"] = ("o", rng.choice(["v_{l}", "v_{(n & 3)}", "v_{n:04x}"]))
    elif r < .2 and case["mode"] == "cat" and case["n"] is None and len(case["inputs"]) == 1:
        case["mode"] = "inplace"
    key = ctx.pick(rng, lambda k: k[1] in ("145", "4096"), needs_text(case))
    if case.get("out") or case["mode"] == "inplace":
        # the files themselves are the business of other checks
        args, files = run.build_args(case)
        with Dir(ctx, files) as d:
            x = run.execute([ctx.bins[key], *args, *["_in%d" % i for i in range(len(case["inputs"]))]], d.p, None, None, SAN, 60)
        det = oracle.describe(case, key, None, None)
        judge_san(x.rc, x.err, **det)
        oracle.assert_clean(x, **det, stderr=x.err[:500])
        ev = Counter({"runs: " + key[2]: 1, "drains: " + (case.get("out") or ("i",))[0]: 1})
    else:
        x, ev = san_case(ctx, rng, case, key, gen_delivery(rng, .5, 0))
    return (oracle.shape(case), key[0], key[2], bl(len(s))), {"cmd": run.cmdline(case), "binary": "-".join(key)}, ev


def c22_text(rng, ctx):
    """corrupt, truncated and oversized text in every role, under the sanitizers"""
    t, huge = hostile_text(rng, False)
    role = rng.choice(["in", "in", "in", "patch", "patch", "guide", "zip", "answer"])
    data = gen.gen_bytes(rng, gen.gen_len(rng, rng.choice([145, 4096])))
    if rng.random() < .15:
        n = rng.choice([4090, 4096, 4100, 8192, 10000, 20000])
        t = rng.choice([lambda: b"0 1 | " + b"61 " * (n // 3), lambda: b"6" * n, lambda: b" " * n, lambda: b"\n" * n, lambda: b"0 0\n" * (n // 4), lambda: b"|" * n, lambda: rng.randbytes(n),
                        lambda: b"0 1 | 61 |" + b"x" * n + b"\n2 1 | 62", lambda: b"0" * n + b" 1 | 61\n", lambda: b"0 1 | 61" + b" " * n + b"\n5 1 | 62\n"])()
    if rng.random() < .3:
        # the last line is the last thing in the buffer
        t = t.rstrip(b"\n") + b"\n" + rng.choice([b"0", b"fff 1", b"ffff 1 |", b"ffff 1 | 6", b"ffff 1 | 61", b"ffff 40 | " + b"61 " * 64, b"ffff 1 | 61 |", b"ffff 1 | " + b"61 " * 15 + b"6", b" ", b"f"])
    files = {"_in0": data, "_t": t, "_u": t[:len(t) // 2], "_p": b"0 1 | 61\n"}
    argv, names = {"in": (["-F", rng.choice(["x", "nnx", "ddx", "xxx", "nxx"])], ["_t"]), "zip": (["-F", rng.choice(["x", "nnx"]), "-z", str(rng.choice([1, 3, 16]))], ["_t", "_u"]),
                   "patch": (["-p", "_t"], ["_in0"]), "guide": (["-g", "_t"], ["_in0"]), "answer": (["-P", rng.choice(["cat _t", "cat >/dev/null; cat _t"])], ["_in0"])}[role]
    argv = list(argv)
    if rng.random() < .5:
        argv += ["-f", rng.choice(["b", "x", "d"])]
    if role != "guide" and rng.random() < .3:
        argv += ["-w", str(rng.choice(EDGE))]
    stdin = None
    if names == ["_t"] and rng.random() < .3:
        names, stdin = ["-"], t
    key = ctx.pick(rng, lambda k: k[1] == "4096")
    with Dir(ctx, files) as d:
        x = run.execute([ctx.bins[key], *argv, *names], d.p, stdin, gen_delivery(rng, 1, 0) if stdin is not None else None, SAN, 60, user=NOBODY)
    det = dict(argv=argv + names, binary="-".join(key), text=small(t, 1500))
    judge_san(x.rc, x.err, **det)
    if x.timeout and not huge:
        raise Violation("a sanitizer build does not end", **det)
    return ("text", role, key, x.rc, bl(len(t)), tuple(argv[:2])), {"argv": argv, "rc": x.rc}, Counter({"runs: " + key[2]: 1, "text as %s: %s" % (role, "accepted" if x.rc == 0 else "refused"): 1})


def c22_args(rng, ctx):
    """mutated and garbage command lines: only memory faults count here"""
    argv, huge = c21_vector(rng)
    if unsafe(argv) or any(a.startswith("/") for a in argv if isinstance(a, str)):
        raise Skip()
    t, _ = hostile_text(rng, False)
    files = {"_in0": gen.gen_bytes(rng, gen.gen_len(rng, 145)), "_in1": gen.gen_bytes(rng, 70), "_patch": t, "_guide": b"0 1\n3 5\n10 10\n", "_text": t}
    key = ctx.pick(rng, lambda k: k[1] == "4096")
    cmd = [ctx.bins[key], *argv, *rng.choice([["_in0"], ["_in0", "_in1"], ["_text"]])]
    if sum(len(x) for x in cmd) > 100000 or any((b"\0" if isinstance(x, bytes) else "\0") in x for x in cmd):
        raise Skip()
    with Dir(ctx, files) as d:
        rc, out, err, wall = bounded(cmd, d.p, None, SAN, 8 if huge else 40, limit="--fsize=%d --core=0" % (1 << 20))
    judge_san(rc, err, argv=[x if isinstance(x, str) and len(x) < 300 else x[:300] for x in cmd[1:]], binary="-".join(key))
    return ("args", rc, tuple(sorted({a.split("=")[0][:6] for a in argv if isinstance(a, str) and a[:1] == "-"}))), {"argv": argv, "rc": rc}, Counter({"runs: " + key[2]: 1, "argument vectors": 1})


def c22_session(rng, ctx):
    """--patch-back sessions: the shared cache, its growth and its spilling"""
    big = rng.random() < .3
    case = c18_case(rng, ctx, 4096, big)
    script = rng.choice(["cat", "sed 's/61/62/g'", "sed '2,$d'", "awk 'NR % 7 == 0'", "cat > /dev/null", "head -n 3", "sed 's/| ../& 5a/'", "true"])
    key = ctx.pick(rng, lambda k: k[1] == "4096")
    r, fed, back, after, _ = c18_run(rng, ctx, case, key, script, SAN, 90)
    det = oracle.describe(case, key, None, None)
    judge_san(r.rc, r.err, command=script, **det)
    if r.timeout:
        raise Violation("a sanitizer build does not end", command=script, **det)
    return ("session", oracle.shape(case), script, key, big), {"cmd": run.cmdline(case), "command": script}, Counter({"runs: " + key[2]: 1, "sessions": 1})


def c22_large(rng, ctx):
    """the production block size: blocks, margins and reallocations of the real proportions"""
    n = oracle.gen_large_len(rng, 2)
    case = {"mode": "cat", "n": None, "inputs": [oracle.gen_large_data(rng, n)], "outfmt": "b"}
    k = rng.randrange(7)
    if k == 0:
        case["outfmt"], case["slicer"] = rng.choice(["x", "d"]), ("w", rng.choice([16, 17, 1000, 70000, 3000000]), None)
    elif k == 1:
        case["mode"], case["n"] = "zip", rng.choice([1, 3, 16, 100])
        case["inputs"] += [oracle.gen_large_data(rng, n + rng.choice([0, -5, 1000])), b"abc"]
    elif k == 2:
        case["slicer"] = ("d", rng.choice([b"ab", b"\0\0", case["inputs"][0][n // 2:n // 2 + 5]]))
    elif k == 3:
        case["slicer"] = ("w", 4096, (("s", -10), ("e", 10)))
    elif k == 4:
        p = PROD_BLOCK
        case["patch"] = b"10 1 | 61 62 63\n%x 3 | 64\n%x 0 | 65\n" % (p - 2, p + 7)
    elif k == 5:
        # far wider than a block
        case["slicer"] = ("r", [(("s", 5), ("s", PROD_BLOCK + 4000)), (("s", PROD_BLOCK - 5), ("s", n))])
        case["outfmt"] = "x"
    else:
        case["infmt"] = "x"
        recs = [(i * 60, 60, case["inputs"][0][i * 60:i * 60 + 60]) for i in range(12000)]
        case["inputs"] = [gen.render_records(rng, recs, messy=False)]
    affordable(case)
    key = ctx.pick(rng, PROD)
    r, ev = san_case(ctx, rng, case, key, None, 240)
    ev["multi-block streams"] += 1
    return ("large", k, key, bl(n)), {"cmd": run.cmdline(case), "binary": "-".join(key)}, ev


def c22_miri(rng, ctx):
    """the undefined-behaviour interpreter on the whole program"""
    key = rng.choice(sorted(ctx.extra["miri"]))
    cmd, env = ctx.extra["miri"][key]
    for _ in range(50):
        case, s = gen.gen_pipeline(rng, {**EVERYTHING, "text": .25, "regex": .02}, 145)
        if needs_text(case) and key[1] == "145":
            continue
        try:
            exp = model.run(case)
        except model.TooBig:
            continue
        except (model.Unspecified, model.Reject):
            exp = None
        if sum(map(len, case["inputs"])) > 1500 or len(s) > 1500:
            continue
        if exp is None or len(exp["stdout"]) < 4000 and len(exp["slices"]) < 200 and (rng.random() < .2 or len(exp["stdout"]) > 300):
            break
    kind = "pipeline"
    files = None
    if key[1] == "4096" and rng.random() < .3:
        t, _ = hostile_text(rng, False)
        args, files, exp, kind = rng.choice([["-F", "x"], ["-F", "nnx"], ["-F", "x", "-w", "7"]]), {"_in0": t}, None, "hostile text"
        case = {"inputs": [t]}
    else:
        if rng.random() < .15 and exp is not None and len(exp["slices"]) < 6:
            case["out"] = ("o", "v_{(n & 3)}")
            exp = None
        args, files = run.build_args(case)
    names = ["_in%d" % i for i in range(len(case["inputs"]))]
    with Dir(ctx, files) as d:
        p = subprocess.Popen([*cmd, *args, *names], cwd=d.p, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, start_new_session=True)
        try:
            out, err = p.communicate(timeout=120)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, 9)
            p.communicate()
            raise Skip()      # the interpreter is slow; other checks judge termination
    det = dict(argv=args + names, interpreter="-".join(key), rc=p.returncode, files={k: small(v, 400) for k, v in files.items()})
    if b"Undefined Behavior" in err:
        i = err.find(b"Undefined Behavior")
        raise Violation("Miri: " + err[i:i + 160].split(b"\n")[0].decode(errors="replace"), report=err[i:i + 1500].decode(errors="replace"), **det)
    if b"unsafe precondition(s) violated" in err or b"panicked at" in err:
        raise Violation("the interpreted program panics or violates a library precondition", stderr=err[:900], **det)
    m = re.search(rb"(unsupported operation: [^\n]*|resource exhaustion: [^\n]*)", err)
    if m:
        return None, None, Counter({"interpreter: " + m.group(1)[:90].decode(errors="replace"): 1})
    if exp is not None and p.returncode == 0 and out != exp["stdout"]:
        raise Violation("the output of the interpreted program differs from the specification", **oracle.diff_detail(out, exp["stdout"]), **det)
    if exp is not None and p.returncode != 0:
        raise Violation("the interpreted program fails", stderr=err[:600], **det)
    return ("miri", key, kind, oracle.shape(case) if kind == "pipeline" else p.returncode), {"argv": args, "interpreter": "-".join(key)}, Counter(
        {"interpreted runs: " + "-".join(key[:2]): 1, "interpreted: " + kind: 1, "interpreted input bytes": sum(len(x) for x in case["inputs"])})


@check("C22")
def c22(c):
    c.rule = ("AddressSanitizer and MemorySanitizer (instrumented standard library) builds of the portable and the AVX2 program, whose buffers have no slack behind them, on record sizes around vectors, blocks and margins in "
              "every format, on all stages and drains, hostile text in every role, mutated command lines, --patch-back sessions and multi-block streams; the whole program in the Miri interpreter on small pipelines; the "
              "monitors are the sanitizers' reports, memory faults, violated library preconditions, and the model's output; distinct = new (workload, build, stages or sizes)")
    c.assumptions = ["the AVX2 routines run in Miri without an aliasing model: they load and store whole vectors through a subslice (inside the allocation)",
                     "child processes are not supported by Miri: --patch-back is covered by the other sanitizers"]
    san = [(a, b, g) for a in ("v1", "v3") for b in ("145", "4096") for g in ("asan", "msan")] + [(a, "prod", "asan") for a in ("v1", "v3")]
    t = threading.Thread(target=lambda: CTX.extra.__setitem__("miri!", attempt(lambda: build.ensure_miri([(a, b) for a in ("v1", "v3") for b in ("145", "4096")]))))
    t.start()
    c.build(san)
    t.join()
    CTX.extra["miri"] = CTX.extra.pop("miri!")()
    c.fuzz("grid", c22_grid, 10**7, T(c, 15, 150))
    c.fuzz("pipelines", c22_pipeline, 10**7, T(c, 15, 180))
    c.fuzz("text", c22_text, 10**7, T(c, 10, 120))
    c.fuzz("args", c22_args, 10**7, T(c, 8, 90))
    c.fuzz("sessions", c22_session, 10**6, T(c, 8, 60))
    c.fuzz("large", c22_large, 10**6, T(c, 10, 60))
    c.fuzz("miri", c22_miri, 10**6, T(c, 35, 400))


def attempt(f):
    """the result (or the exception) of f, to be taken in another thread"""
    try:
        r = f()
        return lambda: r
    except Exception as e:
        ex = e

        def fail():
            raise ex
        return fail


# --------------------------------------------------------- C23 bounded memory, lag
def chunked(path, n):
    """the first n bytes of a file, piece by piece"""
    with open(path, "rb") as f:
        while n > 0:
            x = f.read(min(n, 1 << 18))
            if not x:
                return
            n -= len(x)
            yield x


def peak(ctx, key, args, src, n, d, stall=0, env=None):
    """-> (peak KiB, status, bytes of output): feeds n bytes of the file src, output read and dropped"""
    rep = os.path.join(d, "rss_report")
    e = dict(run.ENV)
    e.update(env or {}, TMPDIR=d)
    with tempfile.TemporaryFile() as fe:
        p = subprocess.Popen([ctx.extra["ndrss"], rep, ctx.bins[key], *args], cwd=d, env=e, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=fe, start_new_session=True)

        def pump():
            try:
                for x in chunked(src, n):
                    v = memoryview(x)
                    while v:
                        v = v[os.write(p.stdin.fileno(), v):]
            except OSError:
                pass
            finally:
                p.stdin.close()
        th = threading.Thread(target=pump, daemon=True)
        th.start()
        if stall:
            time.sleep(stall)
        out, stop = 0, time.monotonic() + 240
        while True:
            if not select.select([p.stdout], [], [], max(0, stop - time.monotonic()))[0]:
                os.killpg(p.pid, 9)
                p.wait()
                raise Violation("nd does not end on a long stream", args=args, length=n)
            x = os.read(p.stdout.fileno(), 1 << 20)
            if not x:
                break
            out += len(x)
        p.stdout.close()
        p.wait()
        th.join(20)
        fe.seek(0)
        err = fe.read()
    with open(rep) as f:
        kib, st = map(int, f.read().split())
    return kib, st, out, err


def c23_args(rng, text=False):
    """a pipeline none of whose stages needs the whole stream -> (arguments, stages)"""
    a, st = [], []
    if text:
        a += ["-F", rng.choice(["x", "nnx"])]
        st.append("text in")
    r = rng.random()
    if not text and r < .1:
        a += ["-c", rng.choice(["3", "16", "4096"])]
        st.append("cat")
    elif not text and r < .2:
        a += ["-z", rng.choice(["1", "3", "16"])]
        st.append("zip")
    if rng.random() < .3:
        a.append("--cut=" + rng.choice(["5..", "s+5..e-5", "100..e-1000", "0..1000,2000..", "e-5000..", "..e-100", "0..100,150..200,250..300,4000..e-7", "3..e,9..e-2"]))
        st.append("cut")
    if rng.random() < .2:
        a.append("--pad=" + rng.choice(["3,5", "5000,0", "0,20000"]))
        st.append("pad")
    if rng.random() < .2:
        a.append("--patch=" + rng.choice(["patch_sparse", "patch_dense"]))
        st.append("patch")
    k = rng.random()
    small = False      # slices stay short and apart
    sl = None
    if k < .75:
        sl = rng.choice(["width", "width", "width map", "find", "walk", "walk", "slice", "guide"])
        a.append({"width": "--width=%d" % rng.choice([16, 16, 100, 3000, 8]), "width map": "--width=" + rng.choice(["16,s-4..e+4", "64,s+4..e-4", "100,s..s+3", "1000,e-5..e+5", "32,s+40..e+40"]),
                  "find": "--find=" + rng.choice(["00", "ff 00", "41"]), "walk": "--walk=" + rng.choice(["16", "(b[0] & 31) + 8", "7,64", "(h[0] & 1023) + 32", "(b[50] & 3) + 20"]),
                  "slice": "--slice=" + rng.choice(["0..16", "5..2000,3000..4000", "s+10..s+20,s+10..s+20,100000..100300"]), "guide": "--guide=" + rng.choice(["guide_sparse", "guide_dense"])}[sl])
        st.append(sl)
        if sl not in ("slice", "guide") or rng.random() < .5:
            m = rng.random()
            if m < .12:
                a.append("--regex=" + rng.choice(["[a-m]+", r"(?s-u)^.{1,3}", r"(?-u)\x00"]))
                st.append("regex")
            elif m < .25:
                a.append("--extend=" + rng.choice(["s-3..e+3", "s+1..e-1", "e..e+5", "s-100..s"]))
                st.append("extend")
            elif m < .35 and sl in ("width", "width map", "walk"):
                a.append("--invert=" + rng.choice(["s+1..e-1", "s..e"]))
                st.append("invert")
            elif m < .45 and a[-1] in ("--width=64,s+4..e-4", "--width=100,s..s+3"):
                a += ["--merge", rng.choice(["0", "3"])]
                st.append("merge")
            if rng.random() < .25:
                # a slice which the end of the stream decides on is kept until then: that of a sparse slicer keeps everything
                dense = sl in ("width", "walk") and not {"regex", "invert"} & set(st)
                a.append("--lines=" + rng.choice(["5..", "0..5", "5..10,20..25,1000..2000"] + ["3..e-3", "e-10..", "..e-10", "e-10..50", "5..9,e-3..e-1"] * dense))
                st.append("lines")
        a += rng.choice([[], ["-f", "b"], ["-f", "x"], ["-f", "d"], ["-f", "nnx"]])
    else:
        a += rng.choice([["-f", "b"], ["-f", "b"], ["-f", "x"], []])
    return a, st, sl


def c23_memory(rng, ctx):
    """the peak of a long stream against that of a short one"""
    prod = rng.random() < .12
    key = ctx.pick(rng, lambda k: k[1] == ("prod" if prod else "4096"))
    text = rng.random() < .15
    a, st, sl = c23_args(rng, text)
    n1, n2 = (24 << 20, 88 << 20) if prod else (3 << 20, 19 << 20)
    if text:
        n1, n2 = n1 // 69 * 69, n2 // 69 * 69      # whole records
    bound = 20 * 1024 if prod else 3 * 1024
    drain = "stdout"
    env, files = {}, ["-"]
    r = rng.random()
    if not prod and r < .1 and sl == "width":
        drain, a = "files", [x if not x.startswith("--width") else "--width=8192" for x in a] + ["-o", rng.choice(["out_{(n & 1)}", "single"])]
    elif not prod and r < .18:
        a = [x for x in a if not x.startswith(("-f", "--output")) and x not in ("b", "d", "nnx", "x")] if not text else a
        if text or any(x in ("find",) for x in st):
            raise Skip()
        drain, a = "command", a + ["--patch-back=" + rng.choice(["cat", "cat > /dev/null"])]
    elif r < .25:
        drain, env = "pager", {"PAGER": "cat"}
    if "zip" in st or ("cat" in st and rng.random() < .5):
        files = rng.choice([["-", "other"], ["other", "-"], ["other", "-", "other"]])
    d = tempfile.mkdtemp(dir=ctx.scratch)
    try:
        for f in ("patch_sparse", "patch_dense", "guide_sparse", "guide_dense"):
            os.symlink(os.path.join(ctx.extra["data"], f), os.path.join(d, f))
        run.put(os.path.join(d, "other"), b"0 3 | 61 62 63\n")
        src = os.path.join(ctx.extra["data"], "text" if text else "bin")
        stall = rng.choice([0, 0, .15])
        r1 = peak(ctx, key, [*a, *files], src, n1, d, 0, env)
        for _ in range(2):
            r2 = peak(ctx, key, [*a, *files], src, n2, d, stall, env)
            if r2[0] <= r1[0] + bound:
                break
    finally:
        shutil.rmtree(d, ignore_errors=True)
    det = dict(args=a + files, binary="-".join(key), drain=drain, peak_kib=(r1[0], r2[0]), lengths=(n1, n2), output=(r1[2], r2[2]), status=(r1[1], r2[1]), stderr=r2[3][:300])
    for x in (r1, r2):
        if x[1] < 0 or x[1] == 101 or b"panicked" in x[3]:
            raise Violation("crashed on a long stream", **det)
    if r1[1] != 0 and r2[1] == 0:
        raise Skip()
    if r2[0] > r1[0] + bound:
        raise Violation("memory use grows with the length of the stream", **det)
    ev = Counter({"stream MiB measured": (n1 + n2) >> 20, "drain: " + drain: 1, "long streams read to the end" if r2[1] == 0 else "long streams refused": 1, "block: " + key[1]: 1})
    for x in st:
        ev["stage: " + x] += 1
    return ("memory", tuple(st), drain, key, text), {"args": det["args"], "peak_KiB": det["peak_kib"], "lengths": (n1, n2)}, ev


def common(a, b):
    return oracle.first_diff(a, b)


def c23_progress(rng, ctx):
    """the producer pauses for as long as it takes: what its bytes decide must come out, up to a bounded lag"""
    prod = rng.random() < .06
    key = ctx.pick(rng, lambda k: k[1] == ("prod" if prod else "4096"))
    block = PROD_BLOCK if prod else 4096
    lag = 12 * block
    stages = {"cut": .3, "pad": .3, "patch": .2, "slicer": .8, "regex": .1, "invert": .15, "extend": .2, "merge": .15, "lines": .2, "outfmt": .5, "align": .1, "zip": .08, "multi": .2, "text": .1}
    if prod:
        stages = {"cut": .2, "pad": .3, "patch": .2}
    for _ in range(60):
        case, s = gen.gen_pipeline(rng, {**stages, "kinds": "wwdk"}, 4096)
        if case["inputs"] and len(case["inputs"][-1]) < 20000 and not (case.get("slicer") or "x")[0] == "r" and not gen.has_huge(case):
            break
    text = (case.get("infmt") or "b") not in ("b", "nnb")
    if case["n"] and case["n"] > 500 or case.get("filler") is None:
        case["filler"] = 0
    n = lag + rng.choice([16, 30, 60] if not prod else [8, 12]) * block + rng.randrange(block)
    if text:
        # the width of a line decides how many bytes of data a block of text carries
        w = rng.choice([16, 60])
        mk = lambda k, r: b"".join(b"%x %x | %s\n" % (i * w, w, r.randbytes(w).hex(" ").encode()) for i in range(k // (3 * w) + 1))
    else:
        mk = lambda k, r: r.randbytes(k)
    rr = random.Random(rng.randrange(1 << 40))
    head = mk(n, rr)
    if case.get("patch") is not None and rng.random() < .5:
        case["patch"] = gen.render_records(rng, [(i * 700, rng.choice([0, 1, 9]), rng.randbytes(rng.choice([0, 1, 9]))) for i in range(n // 700)])
    sl = case.get("slicer")
    if sl and sl[0] == "d":
        case["slicer"] = ("d", rng.choice([b"\0", b"a", b"\xff", b"ab"]))
    if sl and sl[0] == "w" and rng.random() < .5:
        case["slicer"] = ("w", rng.choice([16, 100, 1000]), None)
    m = 1
    for k in ("invert", "extend"):
        if case.get(k):
            m += 1
    early = head[:len(head) - lag]
    if text:
        early = early[:early.rfind(b"\n") + 1]
    # ranges anchored at the end hold their distance from it back, whether or not the slices in between matter
    held = max([-x[1] for r_ in case.get("lines") or () for x in r_ if x and x[0] == "e"] + [0])
    if held > 1:
        try:
            x = model.run({**{k: v for k, v in case.items() if k != "lines"}, "inputs": case["inputs"][:-1] + [early]})["slices"]
        except (model.Unspecified, model.Reject):
            raise Skip()
        if len(x) < held or x[-1][1] - x[-held][0] > 3 * block:
            raise Skip()
    # what follows from the bytes up to the lag, whatever comes behind them
    want = None
    mx, expansion = 64, 1
    for tail in (b"", mk(3 * block, rr), mk(400, rr), mk(1, rr) if not text else mk(1000, rr), mk(max(len(head), 400000), rr)):
        c2 = {**case, "inputs": case["inputs"][:-1] + [early + tail]}
        try:
            x = model.run(c2)
        except (model.Unspecified, model.Reject):
            raise Skip()
        if x["slices"]:
            mx = max(mx, max(b - a for a, b in x["slices"]))
            expansion = max(expansion, len(x["stdout"]) / max(1, sum(b - a for a, b in x["slices"])))
        want = x["stdout"] if want is None else want[:common(want, x["stdout"])]
    if mx > 4 * block or len(want) > 40 << 20:
        raise Skip()      # the lag is also that of the widest slice
    # a random continuation may agree with what it need not be by chance; and what a stage has selected may wait for its block to be full
    need = max(0, len(want) - 100 - int(6 * block * min(expansion, 60)))
    args, files = run.build_args(case)
    names = ["_in%d" % i for i in range(len(case["inputs"]))]
    names[-1] = "-"
    plan = gen_delivery(rng, 1, 0) if not prod else [(1 << 18, 0)]
    plan = [(max(p[0], 300), 0) for p in plan]
    with Dir(ctx, files) as d:
        for attempt_ in range(2):
            p = subprocess.Popen([ctx.bins[key], *args, *names], cwd=d.p, env=dict(run.ENV), stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, start_new_session=True)
            got = bytearray()
            t0 = time.monotonic()
            try:
                def pump():
                    try:
                        pos, i = 0, 0
                        while pos < len(head):
                            pos += os.write(p.stdin.fileno(), head[pos:pos + plan[i % len(plan)][0]])
                            i += 1
                    except (OSError, ValueError):
                        pass
                th = threading.Thread(target=pump, daemon=True)
                th.start()
                stop = t0 + (15 if attempt_ == 0 else 60)
                while len(got) < need:
                    if not select.select([p.stdout], [], [], max(0, stop - time.monotonic()))[0]:
                        break
                    x = os.read(p.stdout.fileno(), 1 << 18)
                    if not x:
                        break
                    got += x
                waited = time.monotonic() - t0
                alive = p.poll() is None
            finally:
                try:
                    os.killpg(p.pid, 9)
                except ProcessLookupError:
                    pass
                _, err = p.communicate()
                th.join(5)
            if len(got) >= need:
                break
    det = dict(args=args + names, binary="-".join(key), received=len(head), lag=lag, decided=need, got=len(got), waited=round(waited, 1), alive=alive, stderr=err[:300],
               case=run.jsonable({k: v for k, v in case.items() if v is not None and k not in ("inputs", "patch")}))
    if b"panicked" in err:
        raise Violation("crashed", **det)
    if len(got) < need and alive:
        raise Violation("output for data received long ago is withheld while the input pauses", **det)
    if len(got) < need:
        raise Violation("nd ends before its input does, without having given what the input so far decides", **det)
    k = min(len(got), len(want))
    if got[:k] != want[:k]:
        raise Violation("what comes out while the input pauses differs from the specification", **oracle.diff_detail(bytes(got[:k]), want[:k]), **det)
    ev = Counter({"paused producers": 1, "bytes demanded before the end of the input": need, "block: " + key[1]: 1, "pauses which demanded output": int(need > 0)})
    return (("progress", oracle.shape(case), key, bl(need)) if need else None), {"args": det["args"], "received": len(head), "demanded": need}, ev


def c23_data(d):
    """the long streams"""
    r = random.Random(23)
    u = r.randbytes(1 << 20)
    with open(os.path.join(d, "bin"), "wb") as f:
        for i in range(88):
            k = (i * 7919) % len(u)
            f.write(u[k:] + u[:k])
    with open(os.path.join(d, "text"), "wb") as f:
        row = u[:16].hex(" ").encode()
        for i in range(0, 88 << 20, 68 * 1000):
            f.write(b"".join(b"%012x 0010 | %s \n" % ((i // 68 + j) * 16, row) for j in range(1000)))
    n = 19 << 20
    for name, step, rec in (("patch_sparse", 50000, b"%x 3 | 61 62\n"), ("patch_dense", 200, b"%x 1 | 61\n"), ("guide_sparse", 50000, b"%x 40\n"), ("guide_dense", 200, b"%x 20\n")):
        with open(os.path.join(d, name), "wb") as f:
            f.write(b"".join(rec % i for i in range(0, (2 << 20) if name.startswith("patch") else n, step)))


@check("C23")
def c23(c):
    c.rule = ("random pipelines of stages which need not see the whole stream, over 3 and 19 MiB with 4096-byte blocks (24 and 88 MiB with production blocks), output to a (stalling) reader, files, a command or a pager: the peak "
              "resident memory of nd must not grow by more than 3 MiB (20 MiB with production blocks); and producers which pause: what the bytes received up to a lag of 12 blocks (and 6 blocks of what the stages have selected) decide, whatever follows "
              "(common prefix of the model over several continuations), must come out while the input is still open; distinct = new (workload, stages, drain, build, size class)")
    c.assumptions = ["a leak below about 3 MiB in 16 MiB (20 in 64 with production blocks) of stream is not seen", "--slice with long ranges, merged or inverted slices which cover the stream, and names of output files inherently need memory"]
    c.build([(a, b, "rel") for a in ("v1", "v3") for b in ("4096", "prod")])
    CTX.extra["ndrss"] = build.gcc("ndrss")
    CTX.extra["data"] = CTX.scratch
    c23_data(CTX.scratch)
    c.fuzz("memory", c23_memory, 10**6, T(c, 35, 420))
    c.fuzz("progress", c23_progress, 10**6, T(c, 25, 240))


# ------------------------------------------------------- C24 races and deadlocks
def tasks_of(session):
    """the threads of a session of ours: {(pid, tid): (state, times run)} without the dead"""
    out = {}
    for pid in os.listdir("/proc"):
        if not pid.isdigit():
            continue
        try:
            with open("/proc/%s/stat" % pid, "rb") as f:
                s = f.read()
            if int(s[s.rfind(b")") + 1:].split()[3]) != session:
                continue
            for tid in os.listdir("/proc/%s/task" % pid):
                with open("/proc/%s/task/%s/stat" % (pid, tid), "rb") as f:
                    s = f.read()
                w = s[s.rfind(b")") + 1:].split()
                if w[0] in b"ZX":
                    continue
                with open("/proc/%s/task/%s/status" % (pid, tid), "rb") as f:
                    sw = tuple(int(ln.split()[1]) for ln in f if b"ctxt_switches" in ln)
                out[int(pid), int(tid)] = (w[0], w[11], w[12], sw)
        except (OSError, ValueError, IndexError):
            continue
    return out


def waits_of(session):
    """what the threads of a stuck session wait for"""
    out = []
    for pid, tid in sorted(tasks_of(session)):
        try:
            with open("/proc/%d/task/%d/comm" % (pid, tid)) as f:
                name = f.read().strip()
            with open("/proc/%d/task/%d/syscall" % (pid, tid)) as f:
                w = f.read().split()
            with open("/proc/%d/task/%d/wchan" % (pid, tid)) as f:
                ch = f.read()
            out.append("%s: system call %s(%s) %s" % (name, w[0], w[1] if len(w) > 1 else "", ch))
        except OSError:
            continue
    return out


QUIET = 4.0


def watched(argv, cwd, env, cpus=None, stdout=None, limit=240):
    """Runs a session. A deadlock is: no thread of any of its processes runs, or has run for QUIET seconds
    (the load of the machine delays threads which are ready to run; those are not quiet)."""
    e = dict(run.ENV)
    e.update(env)
    with tempfile.TemporaryFile() as fo, tempfile.TemporaryFile() as fe:
        p = subprocess.Popen(argv, cwd=cwd, env=e, stdin=subprocess.DEVNULL, stdout=stdout if stdout is not None else fo, stderr=fe, start_new_session=True,
                             user=NOBODY, group=NOBODY, extra_groups=[], preexec_fn=None if cpus is None else (lambda: os.sched_setaffinity(0, cpus)))
        if stdout is not None:
            os.close(stdout)
        t0 = time.monotonic()
        last, since, stuck, over = None, t0, None, False
        while True:
            try:
                p.wait(1.0 if last is None else 0.4)
                break
            except subprocess.TimeoutExpired:
                pass
            now = time.monotonic()
            st = tasks_of(p.pid)
            if st != last or any(x[0] != b"S" for x in st.values()):
                last, since = st, now
            if now - since > QUIET and st:
                # (where /proc does not tell what they wait for, they stand still all the same)
                stuck = waits_of(p.pid) or ["unknown"]
            over = now - t0 > limit
            if stuck or over:
                # gone in the meantime?
                if p.poll() is not None:
                    stuck, over = None, False
                    break
                break
        try:
            os.killpg(p.pid, 9) if stuck or over else None
        except ProcessLookupError:
            pass
        p.wait()
        fo.seek(0)
        fe.seek(0)
        return run.Result(p.returncode, fo.read(), fe.read(), None, time.monotonic() - t0, over), stuck


TRACE = re.compile(rb"^t(\d+) (read|write|futex'?) (.)", re.M)


def schedule(ctx, rng, key):
    """environment which perturbs the schedule"""
    us = rng.choice([20, 100, 500, 3000])
    e = {"LD_PRELOAD": ctx.shim, "NDS_TID": "1"}
    if rng.random() < .8:
        e.update(NDS_DELAY=str(rng.randrange(1 << 30)), NDS_DELAY_US=str(us))
    if rng.random() < .5:
        e["NDS_SHORT"] = str(rng.randrange(1 << 30))
    if key[2] == "tsan":
        o = ["exitcode=99", "halt_on_error=1", "second_deadlock_stack=1", "io_sync=%d" % rng.choice([0, 0, 1]), "atexit_sleep_ms=%d" % rng.choice([0, 30])]
        if rng.random() < .7:
            # delays in front of atomic operations, locks and wake-ups
            o += ["enable_adaptive_delay=1", "adaptive_delay_aggressiveness=%d" % rng.choice([50, 200, 2000]), "adaptive_delay_sync_atomic_sample_rate=%d" % rng.choice([1, 3, 20]),
                  "adaptive_delay_mutex_sample_rate=%d" % rng.choice([1, 3]), "adaptive_delay_relaxed_sample_rate=%d" % rng.choice([1, 5, 1000]),
              "adaptive_delay_max_atomic=sleep_us=%d" % us, "adaptive_delay_max_sync=sleep_us=%d" % us]
        e["TSAN_OPTIONS"] = ":".join(o)
    # one processor: the threads take turns
    cpus = {rng.randrange(os.cpu_count())} if rng.random() < .2 else None
    return e, cpus


def c24_session(rng, ctx, case, key, script, env=None, cpus=None, extra=(), record=True, stdout=None, tmpdir=None):
    """-> (result, fed, back, trace)"""
    args, files = run.build_args({**case, "out": None})
    with Dir(ctx, files) as d:
        command = script
        if record:
            d.put("cmd.sh", ("tee fed | { %s ; } | tee -p back; : > done\n" % script).encode())
            command = "sh ./cmd.sh"
        e = dict(env or {})
        if "NDS_TID" in e:
            e["NDS_LOG"] = d.path("trace")
        e["TMPDIR"] = d.path("none") if tmpdir == "none" else d.p
        names = ["_in%d" % i for i in range(len(case["inputs"]))]
        r, stuck = watched([ctx.bins[key], *args, *extra, "-P", command, *names], d.p, e, cpus, stdout)
        det = oracle.describe(case, key, None, None)
        det.update(command=script, env={k: v for k, v in e.items() if k != "LD_PRELOAD"}, cpus=sorted(cpus or ()), extra=list(extra))
        if b"FATAL: ThreadSanitizer" in r.err:
            raise Skip()
        judge_san(r.rc, r.err, **det)
        if stuck:
            raise Violation("--patch-back is stuck: no thread of nd or of the command can run", waits=stuck, **det)
        if r.timeout:
            raise Violation("--patch-back does not end", **det)
        if record:
            stop = time.monotonic() + 20
            while not os.path.exists(d.path("done")) and time.monotonic() < stop:
                time.sleep(0.002)
        get = lambda k: d.get(k) if os.path.exists(d.path(k)) else None
        return r, get("fed"), get("back"), get("trace") or b"", os.path.exists(d.path("done"))


def trace_events(trace):
    """-> (hash of the order in which the threads of nd acted, counts)"""
    import hashlib
    seq, roles, n, switches, last = hashlib.sha256(), {}, 0, 0, None
    ev = Counter()
    for m in TRACE.finditer(trace):
        t = roles.setdefault(m.group(1), len(roles))
        seq.update(b"%d%s%s," % (t, m.group(2), m.group(3) if m.group(2)[:1] != b"f" else m.group(3)))
        n += 1
        switches += last is not None and last != t
        last = t
        if m.group(2) == b"futex":
            ev["blocking waits and wake-ups observed"] += 1
    ev.update({"thread actions observed": n, "switches between threads observed": switches})
    return seq.hexdigest()[:16], ev


COMMANDS = ["cat", "cat", "sed 's/61/62/g'", "sed '1,3d'", "sed 's/|.*/| /'", "sed 2q", "head -n 1", "head -c 20 > /dev/null", "tac", "cat > /dev/null", "true", "exec <&-; sleep 0.05; printf '3 2\\n'",
            "sleep 0.05; cat", "printf '0 1 | 61 62\\n5 0 | 63\\n'", "cat; sleep 0.05", "awk 'NR % 3 == 0 {print; fflush()}'", "head -c 5000 > /dev/null; sleep 0.1", "sleep 0.1", "sed 's/| ../& 5a/'"]
STOPS = re.compile(r"2q|head|true|<&-|^printf|^sleep 0.1$")


def c24_schedules(rng, ctx):
    """one session under several schedules, on the race detector's and on the plain builds"""
    big = rng.random() < .15
    case = c18_case(rng, ctx, 4096, big)
    script = rng.choice(COMMANDS)
    sigs, tot, key = [], Counter(), None
    for i in range(2 if big else 4):
        key = ctx.pick(rng, lambda k: k[1] == "4096" and k[2] == ("dbg" if i == 0 else "tsan"))
        env, cpus = schedule(ctx, rng, key)
        r, fed, back, trace, done = c24_session(rng, ctx, case, key, script, env, cpus)
        if not done:
            raise Skip()
        res, exp = c18_judge(rng, ctx, case, key, script, r, fed, back, env, not STOPS.search(script))
        h, ev = trace_events(trace)
        tot.update(ev)
        tot.update({"sessions": 1, "build: " + key[2]: 1, "result: " + res: 1, "sessions on one processor": int(cpus is not None), "sessions beyond the in-memory cache": int(big)})
        sigs.append(h)
    tot["distinct interleavings within one session (of %d runs)" % len(sigs)] += len(set(sigs))
    return ("schedules", tuple(sigs)), {"cmd": run.cmdline(case), "command": script, "order_of_actions": sigs}, tot


def c24_wakeup(rng, ctx):
    """commands which end before, while and after nd feeds them; no recorder in between"""
    case = c18_case(rng, ctx, 4096, rng.random() < .2)
    n = rng.choice([0, 0, 1, 2, 3, 5, 8, 13, 30])
    script = rng.choice(["exec true", "exec <&-", "exec head -c %d" % rng.choice([0, 1, 100, 4096, 9000, 70000]), "exec cat", "exec cat > /dev/null", "exec >&-; cat > /dev/null", "sleep 0.0%02d" % n, "sleep 0.0%02d; exec cat" % n,
                         "exec >&-; sleep 0.0%02d; exec cat > /dev/null" % n, "exec >&-; sleep 0.0%02d" % n, "cat; sleep 0.0%02d" % n, "head -n 2; exec >&-; exec cat > /dev/null", "kill -9 $$", "exec false", "exec no_such_command", "head -n 3; kill -15 $$",
                         "dd bs=1 count=%d 2> /dev/null" % rng.choice([3, 30, 300])])
    key = ctx.pick(rng, lambda k: k[1] == "4096")
    env, cpus = schedule(ctx, rng, key) if rng.random() < .85 else ({}, None)
    r, _, _, trace, _ = c24_session(rng, ctx, case, key, script, env, cpus, record=False)
    det = oracle.describe(case, key, None, r)
    oracle.assert_clean(r, **det, command=script)
    h, ev = trace_events(trace)
    ev.update({"sessions": 1, "build: " + key[2]: 1, "commands which end early": int("cat" not in script), "status %d" % r.rc: 1})
    return ("wakeup", script, key, h), {"cmd": run.cmdline(case), "command": script, "rc": r.rc}, ev


def c24_errors(rng, ctx):
    """faults in the middle of a session: on the stream, the cache, either pipe, the output, the patches and the command"""
    big = rng.random() < .35
    case = c18_case(rng, ctx, 4096, big)
    kind = rng.choice(["text", "stream", "cache", "cache", "feed", "answer", "output", "closed output", "bad patch", "bad patch", "no temporary directory", "inplace"])
    script = rng.choice(["cat", "cat", "cat > /dev/null", "sed 's/61/62/g'", "sleep 0.03; cat", "head -n 2", "true", "sleep 0.03"])
    key = ctx.pick(rng, lambda k: k[1] == "4096")
    env, cpus = schedule(ctx, rng, key)
    extra, stdout, tmpdir, reader = (), None, None, None
    if kind == "text":
        n = rng.choice([1, 50, 500, 3000])
        recs = b"".join(b"%x 10 | %s\n" % (i * 16, rng.randbytes(16).hex(" ").encode()) for i in range(n))
        p = rng.randrange(len(recs))
        case = {"inputs": [recs[:p] + rng.choice([b"zz", b"\n0 zz | 61\n", b"\n1 1 1 |\n"]) + recs[p:]], "infmt": "x", "slicer": ("w", rng.choice([16, 100]), None)}
    elif kind in ("stream", "cache", "feed", "answer", "output"):
        n = rng.choice([1, 1, 2, 3, 5, 20, 80])
        if kind == "cache" and not big:
            case = c18_case(rng, ctx, 4096, True)
        op, cls = {"stream": [("read", "i")], "cache": [("write", "t"), ("read", "t"), ("lseek", "t")], "feed": [("write", "p")], "answer": [("read", "p")], "output": [("write", "1")]}[kind][rng.randrange(3 if kind == "cache" else 1)]
        env["LD_PRELOAD"] = ctx.shim
        env["NDS_FAIL"] = "%s:%d:%d:%s" % (op, n, rng.choice([5, 28]), cls)
    elif kind == "closed output":
        reader, stdout = os.pipe()
        reader = os.fdopen(reader, "rb", 0)
        if rng.random() < .5:
            # a reader which goes after a while
            threading.Thread(target=lambda f=reader, m=rng.choice([1, 4096, 100000]): (f.read(m), f.close()), daemon=True).start()
        else:
            reader.close()
    elif kind == "bad patch":
        bad = rng.choice(["zz 1 | 61", "0 1 | 6", "ffffffffff 1", "5 5 | 61\\n0 1 | 62", "0 1 1"])
        script = rng.choice(["printf '%s\\n'" % bad, "head -n 3; printf '%s\\n'; cat" % bad, "cat > /dev/null; printf '%s\\n'" % bad, "printf '%s\\n'; cat > /dev/null" % bad, "printf '%s\\n'; sleep 0.05" % bad])
        if bad == "ffffffffff 1" and script.endswith("; cat"):
            # nd must read the whole stream before it takes the next record, and the command must be rid of its records
            # before it takes the next slice: a command which names what it has not been fed yet must go on reading
            script = script.replace("; cat", "; cat > /dev/null")
    elif kind == "no temporary directory":
        tmpdir = "none"
        if rng.random() < .7:
            case = c18_case(rng, ctx, 4096, True)
    else:
        extra = ("-i",)
        case = {**case, "n": None}
    try:
        r, _, _, trace, _ = c24_session(rng, ctx, case, key, script, env, cpus, extra, record=False, stdout=stdout, tmpdir=tmpdir)
    finally:
        if stdout is not None:
            try:
                reader.close()
            except (OSError, ValueError):
                pass
    det = oracle.describe(case, key, None, r)
    fired = b" FAIL " in trace
    oracle.assert_clean(r, fault=kind, **det, command=script, env=env)
    if fired and r.rc == 0 and kind != "answer":
        raise Violation("a failure in the middle of a session is not reported", fault=kind, command=script, env=env, **det)
    h, ev = trace_events(trace)
    ev.update({"sessions": 1, "build: " + key[2]: 1, "fault: " + kind: 1, "faults which struck": int(fired), "status %d" % r.rc: 1})
    return ("errors", kind, script, key, r.rc, fired), {"cmd": run.cmdline(case), "fault": kind, "command": script, "rc": r.rc}, ev


def c24_ahead(rng, ctx):
    """the known finding: a command which answers for bytes it has not been fed yet, and more than a pipe holds"""
    case = {"inputs": [bytes(2 << 20)], "slicer": ("w", 16, None)}
    answer = b"".join(b"%x 1 | 61 \n" % ((1 << 20) + 16 * i) for i in range(60000))
    files = {"_in0": case["inputs"][0], "_answer": answer}
    key = ("v1", "4096", "dbg")
    with Dir(ctx, files) as d:
        r, stuck = watched([ctx.bins[key], "-P", "cat _answer", "_in0"], d.p, {"TMPDIR": d.p}, limit=120)
    det = dict(argv=["-P", "cat _answer"], binary="-".join(key), stderr=r.err[:400], waits=stuck)
    if stuck or r.timeout:
        raise Known("answer-ahead", Violation("--patch-back is stuck: the command waits for its answer to be taken, nd for the bytes up to the next answer", **det))
    oracle.assert_clean(r, **det)
    if r.rc != 0 or r.out != model.apply_patch(case["inputs"][0], answer):
        raise Violation("a prepared answer is spliced wrongly", rc=r.rc, **det)
    return ("ahead",), {"cmd": ["-P", "cat _answer"], "rc": r.rc}, Counter({"sessions": 1})


def inproc_answer(script, fed):
    """what the in-process command says, and whether it reads to the end"""
    pos, out, reads, says = 0, b"", True, True
    for op in script.split(";"):
        op, _, arg = op.partition(" ")
        if op in ("cat", "drop", "take", "skip") and reads:
            n = min(len(fed) - pos, int(arg) if arg else len(fed))
            if op in ("cat", "take") and says:
                out += fed[pos:pos + n]
            pos += n
        elif op == "say" and says:
            out += arg.replace("_", " ").replace(",", "\n").encode()
        elif op == "shut":
            reads = False
        elif op == "mute":
            says = False
    return out


def c24_interp(rng, ctx):
    """the whole program and an in-process command in the interpreter: random preemption at any step, weak memory, races, deadlocks"""
    key = rng.choice(sorted(ctx.extra["miri"]))
    cmd, env = ctx.extra["miri"][key]
    n = rng.choice([0, 1, 40, 200, 289, 290, 291, 400, 580, 600, 700])
    w = rng.choice([64, 100, 145, 290, 700])
    case = {"mode": "cat", "n": None, "inputs": [rng.randbytes(n)], "slicer": rng.choice([("w", w, None), ("w", w, (("s", 3), ("s", 10))), ("w", 32, (("s", 0), ("s", 4))), ("r", [(("s", 5), ("s", 9)), (("e", -9), ("e", -3))])])}
    if rng.random() < .3:
        case["inputs"].append(rng.randbytes(rng.choice([1, 100, 300])))
    exp = model.run({**case, "out": ("P", "")})
    fed = exp["fed"]
    # whole lines are valid patches, partial ones need not be
    ends = [i + 1 for i in range(len(fed)) if fed[i:i + 1] == b"\n"] or [0]
    k = rng.choice(ends) if rng.random() < .8 else rng.randrange(len(fed) + 1)
    y = "yield %d;" % rng.choice([1, 3, 10, 100])
    script = rng.choice(["cat", "drop", "take %d" % k, "take %d;drop" % k, "take %d;mute;drop" % k, "take %d;shut;%s" % (k, y), "shut;say 0_1_|_61,", "mute;drop", "mute;shut;" + y, y + "cat", y + "drop;say 2_1_|_,", "shut;" + y,
                         "skip %d;cat" % k, "take %d;say zz,;drop" % k, "take %d;%scat" % (k, y), "cat;mute;" + y, "mute;" + y + "drop", "take %d;%sskip %d;mute" % (k, y, rng.choice(ends))])
    if "r" in case["slicer"][0] and n < 20:
        raise Skip()
    args, files = run.build_args(case)
    names = ["_in%d" % i for i in range(len(case["inputs"]))]
    seed = rng.randrange(1 << 31)
    env = dict(env)
    env["MIRIFLAGS"] += " -Zmiri-ignore-leaks -Zmiri-seed=%d -Zmiri-preemption-rate=%s" % (seed, rng.choice(["0.002", "0.01", "0.05", "0.2"]))
    with Dir(ctx, files) as d:
        p = subprocess.Popen([*cmd, *args, "-P", script, *names], cwd=d.p, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, start_new_session=True)
        try:
            out, err = p.communicate(timeout=200)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, 9)
            p.communicate()
            raise Skip()
    det = dict(argv=args + ["-P", script] + names, interpreter="-".join(key), flags=env["MIRIFLAGS"], rc=p.returncode, inputs=[small(x, 800) for x in case["inputs"]])
    for what, text in ((b"deadlocked", "the program deadlocks"), (b"Data race detected", "data race"), (b"Undefined Behavior", "undefined behaviour")):
        if what in err:
            i = err.find(what)
            raise Violation("Miri: " + text, report=err[max(0, i - 100):i + 1800].decode(errors="replace"), **det)
    if b"panicked at" in err:
        raise Violation("the interpreted program panics", stderr=err[:900], **det)
    m = re.search(rb"(unsupported operation: [^\n]*|resource exhaustion: [^\n]*)", err)
    if m:
        return None, None, Counter({"interpreter: " + m.group(1)[:90].decode(errors="replace"): 1})
    try:
        want = model.apply_patch(exp["stream"], inproc_answer(script, fed))
    except model.Reject as e:
        if p.returncode == 0:
            raise Violation("accepted an invalid patch from the command (%s)" % e, **det)
        want = None
    except model.Unspecified:
        raise Skip()
    if want is not None and p.returncode != 0:
        raise Violation("the patch from the command is rejected", stderr=err[:600], **det)
    if want is not None and out != want:
        raise Violation("the output is not the stream with the answer of the command spliced in", **oracle.diff_detail(out, want), **det)
    return ("interp", seed), {"argv": det["argv"], "interpreter": det["interpreter"], "flags": det["flags"]}, Counter(
        {"interpreted sessions (a random schedule each)": 1, "interpreted: " + ("refused" if want is None else "ok"): 1, "interpreted chunks of the stream": (len(exp["stream"]) + 289) // 290})


def ensure_interp(ctx):
    """the hook may not be applicable to a changed tree (if the tree as such does not build, the other builds say so)"""
    try:
        ctx.extra["miri"] = build.ensure_miri([(a, "290") for a in ("v1", "v3")], "inproc")
    except build.BuildError as e:
        ctx.extra["miri"] = {}
        ctx.extra["why"] = str(e)[-600:]


@check("C24")
def c24(c):
    c.rule = ("--patch-back sessions (commands which edit, drop, stall, answer late, end early, never read, die; streams within and beyond the in-memory cache; faults on the stream, the cache, the pipes and the output) on ThreadSanitizer "
              "builds with an instrumented standard library and on plain builds, under injected delays at system calls, futex calls, atomics and locks, and on one processor; monitors: race reports, the session standing still "
              "(no thread of nd or of the command runs or has run for 4 s), and on undisturbed sessions the spliced output; the whole program in the Miri interpreter with a stand-in for the command in a thread of its own, "
              "under random preemption at any step (races, deadlocks, weak memory, the spliced output); distinct = new orders of the observed actions of nd's threads (per session), commands and faults")
    c.assumptions = ["the orders of actions are those of system calls: interleavings between them are perturbed by ThreadSanitizer's delays but not counted",
                     "commands which answer more than a pipe holds for bytes they have not been fed yet: only the probe of the known finding answer-ahead"]
    t = threading.Thread(target=ensure_interp, args=(CTX,))
    t.start()
    c.build([(a, "4096", g) for a in ("v1", "v3") for g in ("tsan", "dbg")], shim=True)
    t.join()
    c.single("answer-ahead", c24_ahead)
    c.fuzz("schedules", c24_schedules, 10**7, T(c, 35, 400))
    c.fuzz("wakeup", c24_wakeup, 10**7, T(c, 25, 250))
    c.fuzz("errors", c24_errors, 10**7, T(c, 25, 250))
    if CTX.extra["miri"]:
        c.fuzz("interp", c24_interp, 10**6, T(c, 40, 450))
    else:
        c.count["the in-process command does not build: " + CTX.extra["why"][-200:]] += 1
