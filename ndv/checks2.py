"""Checks whose oracle is not (only) the reference model: metamorphic and fault-injection monitors."""
import os
import random
import re
import shutil
import signal
import stat
import subprocess
import tempfile
import time
from collections import Counter

from . import build, expr, gen, model, oracle, run
from .checks import ALL, CHECKS, far, PROD, RULE, SMALL, TEXT, T, V, check, large_fn, pipeline_fn, run_plain
from .harness import CTX, Known, Skip, Violation
from .oracle import PROD_BLOCK, bl, check_case, gen_delivery

NOBODY = 65534


class Dir:
    """a scratch directory which the (unprivileged) program under test may write to"""
    def __init__(self, ctx, files=()):
        self.p = tempfile.mkdtemp(dir=ctx.scratch)
        os.chmod(self.p, 0o777)
        for k, v in dict(files).items():
            self.put(k, v)

    def path(self, k):
        return os.path.join(self.p, k)

    def put(self, k, v, mode=0o666):
        run.put(self.path(k), v)
        os.chmod(self.path(k), mode)

    def get(self, k):
        with open(self.path(k), "rb") as f:
            return f.read()

    def __enter__(self):
        return self

    def __exit__(self, *_):
        shutil.rmtree(self.p, ignore_errors=True)


def small(x, n=3000):
    return x if len(x) <= n else x[:n] + b"... (%d bytes)" % len(x)


# ------------------------------------------------ C14 chunk / delivery invariance
EVERYTHING = {"multi": .3, "zip": .15, "align": .15, "filler": .3, "cut": .3, "pad": .3, "patch": .25, "slicer": .9, "regex": .2, "invert": .2,
              "extend": .2, "merge": .2, "lines": .2, "outfmt": .5, "text": .15}


def observe(ctx, key, case, delivery, env, timeout=25):
    r = run.run_case(ctx.bins[key], case, ctx.scratch, delivery, env, timeout)
    oracle.assert_clean(r, **oracle.describe(case, key, delivery, r), env=env)
    return r


def differ(case, base, b, alt, a):
    """the observables of two runs of the same case"""
    kb, db, eb = base
    ka, da, ea = alt
    d = oracle.describe(case, ka, da, a)
    d.update(base=dict(binary="-".join(kb), delivery=db, env=eb, rc=b.rc, stderr=b.err[:300]), env=ea)
    early = case.get("lines") is not None     # an error behind the last kept slice may or may not be reached
    if (a.rc == 0) != (b.rc == 0):
        if early:
            return False
        raise Violation("the result depends on how the data arrives or is chunked: one run fails, the other does not", **d)
    if a.rc != 0:
        return False
    if a.out != b.out:
        raise Violation("the output depends on how the data arrives or is chunked", **oracle.diff_detail(a.out, b.out), **d)
    return True


def env_short(rng, ctx, delay=False):
    e = {"LD_PRELOAD": ctx.shim, "NDS_SHORT": str(rng.randrange(1 << 30))}
    if delay:
        e.update(NDS_DELAY=str(rng.randrange(1 << 30)), NDS_DELAY_US="200")
    return e


def needs_text(case):
    return (case.get("infmt") or "b") not in ("b", "nnb") or case.get("patch") is not None or (case.get("slicer") or "w")[0] == "g"


def affordable(case):
    try:
        model.run(case)
    except model.TooBig:
        raise Skip()
    except (model.Unspecified, model.Reject):
        pass


def c14_small(rng, ctx):
    case, s = gen.gen_pipeline(rng, EVERYTHING, rng.choice([145, 145, 4096]))
    affordable(case)
    if rng.random() < 0.15:
        # also what the documentation leaves open must not depend on the chunking
        n = len(s)
        case["slicer"] = ("g", sorted((rng.randrange(0, n + 10), rng.choice([0, 0, 1, 7])) for _ in range(rng.randrange(1, 9))))
    text = needs_text(case)
    base = (("v1" if rng.random() < .5 or not any(k[0] == "v3" for k in ctx.bins) else "v3", "prod", "dbg"), None, None)
    b = observe(ctx, base[0], case, base[1], base[2])
    ev = Counter({"reference runs": 1})
    ok = 0
    for _ in range(3):
        key = ctx.pick(rng, None, text)
        dl = gen_delivery(rng, 0.6)
        env = env_short(rng, ctx) if rng.random() < .6 else None
        a = observe(ctx, key, case, dl, env)
        ok += differ(case, base, b, (key, dl, env), a)
        ev["alternative runs compared"] += 1
        ev["block:" + key[1]] += 1
        ev["delivery:" + ("pipe" if dl else "file") + ("+short reads/writes" if env else "")] += 1
    sig = (oracle.shape(case), bl(len(s)), bl(len(b.out))) if ok and b.out else None
    return sig, {"cmd": run.cmdline(case), "stream_len": len(s)}, ev


def c14_large(rng, ctx):
    """multi-block streams, production block against the 4096-byte block"""
    n = oracle.gen_large_len(rng, 2)
    data = oracle.gen_large_data(rng, n)
    case = {"mode": "cat", "n": None, "inputs": [data], "outfmt": rng.choice(["b", None])}
    case["slicer"] = rng.choice([("w", rng.choice([4096, 65536, PROD_BLOCK]), None), ("w", 10000, (("s", -7), ("e", 9))), ("k", ["(b[0] & 127) * 64 + 999"]),
                                 ("d", data[n // 2:n // 2 + 4]), ("r", [(("s", n // 3), ("e", -5))])])
    if rng.random() < .5:
        case["cut"] = [(("s", oracle.near_block(rng, n)), ("e", 0)), (("s", 3), ("s", 1000))]
    if rng.random() < .4:
        case["pad"] = (rng.choice([1, PROD_BLOCK - 1]), 5)
    if rng.random() < .4:
        case["extend"] = [(("s", -3), ("e", 5))]
    if rng.random() < .3:
        case["merge"] = rng.choice([0, 10])
    base = (("v1", "prod", "dbg"), None, None)
    b = observe(ctx, base[0], case, base[1], base[2], 60)
    key = ctx.pick(rng, lambda k: k[1] != "145")
    dl = oracle.large_delivery(rng, .7)
    env = env_short(rng, ctx) if dl is None and rng.random() < .5 else None
    a = observe(ctx, key, case, dl, env, 60)
    ok = differ(case, base, b, (key, dl, env), a)
    return (oracle.shape(case), key, dl is None, env is None) if ok else None, {"cmd": run.cmdline(case), "n": n}, Counter({"large pairs compared": 1})


@check("C14")
def c14(c):
    c.rule = ("random command lines over all stages run once on the production build from files (reference) and several times on other block sizes, from "
              "pipes split at random, and with every read and write of the process cut short at random (LD_PRELOAD); the monitor requires the same exit "
              "class and the same bytes; distinct = new (stages, size class, output class) with non-empty output")
    c.build(ALL, shim=True)
    c.fuzz("small", c14_small, 10**7, T(c, 30, 480))
    c.fuzz("large", c14_large, 10**6, T(c, 14, 200))


# ------------------------------------------------------- C15 portable vs vector
GARBAGE = b"0123456789abcdefABCDEF |\n:gGzZ/@`~!-\x00\x7f\x80\xff\t\r"


def gap_then_data(t):
    """a blank column followed by more elements: the tail is ignored or not, undocumented"""
    for ln in t.split(b"\n"):
        body = ln.split(b"|")
        if len(body) > 1 and re.search(rb"  +[^ ]", b" " + body[1][1:].rstrip(b" ") if body[1][:1] == b" " else body[1]):
            return True
    return False


def c15_pair(ctx, rng, case, groups=("dbg",), timeout=25):
    cands = [k for k in ctx.bins if k[1] == "prod"]
    v1 = [k for k in cands if k[0] == "v1"]
    v3 = [k for k in cands if k[0] == "v3"]
    k1 = rng.choice(v1)
    k3 = rng.choice(v3 or v1)
    a = observe(ctx, k1, case, None, None, timeout)
    b = observe(ctx, k3, case, None, None, timeout)
    d = oracle.describe(case, k3, None, b)
    d["portable"] = dict(rc=a.rc, stderr=a.err[:300])
    if a.rc != b.rc:
        raise Violation("portable and vectorized builds disagree on whether the input is valid", **d)
    if a.rc == 0 and a.out != b.out:
        raise Violation("portable and vectorized builds disagree", **oracle.diff_detail(b.out, a.out), **d)
    ev = Counter({"pairs compared": 1, "accepted" if a.rc == 0 else "rejected": 1, "pair:%s/%s" % ("-".join(k1), "-".join(k3)): 1})
    return a, ev


def c15_format(rng, ctx):
    n = gen.gen_len(rng, 4096)
    w = rng.choice([rng.randrange(1, 140), rng.randrange(1, 5000), 16, 65536])
    case = {"inputs": [gen.gen_bytes(rng, n, rng.choice(["full", "full", "print"]))], "slicer": ("w", w, rng.choice([None, None, (("s", -3), ("e", 4))])),
            "outfmt": rng.choice([None, "x", "d", "nnx"])}
    a, ev = c15_pair(ctx, rng, case)
    return ("format", w, n % w), {"cmd": run.cmdline(case)}, ev


def c15_text(rng, ctx):
    recs, o = [], 0
    for _ in range(rng.choice([1, 1, 2, 5])):
        m = rng.choice([0, 1, 2, 15, 16, 17, 31, 32, 33, 63, 64, 65, 128, rng.randrange(0, 300)])
        recs.append((o, m, rng.randbytes(m)))
        o += m
    t = bytearray(gen.render_records(rng, recs))
    for _ in range(rng.choice([0, 0, 1, 1, 2, 4])):
        p = rng.randrange(len(t) + 1)
        k = rng.randrange(4)
        if k == 0:
            t[p:p + 1] = bytes([rng.choice(GARBAGE)])
        elif k == 1:
            t[p:p] = bytes(rng.choices(GARBAGE, k=rng.choice([1, 1, 2, 3])))
        elif k == 2:
            del t[p:p + rng.choice([1, 1, 2, 3, 16])]
        else:
            t = t[:p]
    t = bytes(t)
    if gap_then_data(t):
        raise Skip()
    case = {"inputs": [t], "infmt": rng.choice(["x", "nnx"]), "outfmt": "b"}
    if rng.random() < .2:
        case = {"inputs": [bytes(3000)], "patch": t, "outfmt": "b"}
    if re.search(rb"[0-9a-fA-F]{7,} ", t.split(b"\n")[0]) or any(int(x, 16) > 1 << 24 for x in re.findall(rb"(?:^|\n)([0-9a-fA-F]{1,16}) ", t)):
        raise Skip()       # gigabytes of filler
    a, ev = c15_pair(ctx, rng, case)
    return ("text", a.rc, bl(len(t)), bl(len(recs))), {"text": t[:200].decode("latin-1"), "rc": a.rc}, ev


def c15_pipeline(rng, ctx):
    case, s = gen.gen_pipeline(rng, EVERYTHING, 4096)
    affordable(case)
    a, ev = c15_pair(ctx, rng, case)
    return (oracle.shape(case), bl(len(s))) if a.rc == 0 and a.out else None, {"cmd": run.cmdline(case)}, ev


@check("C15")
def c15(c):
    c.rule = ("the same command line and data are run on the portable and on the vectorized build, each as a debug and as an optimized build; the monitor requires equal "
              "exit status and bytes; distinct = new (workload, width/remainder or validity and size class or stages)")
    if "v3" not in build.CPUS:
        c.notes["note"] = "no AVX2 here: debug and optimized portable builds are compared"
    c.build(V("prod") + V("prod", "rel"))
    c.fuzz("format", c15_format, 10**7, T(c, 12, 160))
    c.fuzz("text", c15_text, 10**7, T(c, 16, 240))
    c.fuzz("pipeline", c15_pipeline, 10**7, T(c, 12, 160))


# ------------------------------------------------------------- C16 expressions
BINOPS = ["+", "-", "*", "/", "%", "<<", ">>", "<", "<=", ">", ">=", "&", "^", "|"]


def gen_const(rng, big=True):
    v = rng.choice([0, 1, 2, 3, 5, 7, 8, 15, 16, 31, 63, 100, 255, 256, 4095, 65535, rng.randrange(0, 1000), rng.randrange(0, 1 << 20)])
    if big and rng.random() < .15:
        v = rng.choice([(1 << 31) - 1, 1 << 31, (1 << 32) - 1, 1 << 32, (1 << 62) + 1, (1 << 63) - 1, rng.randrange(0, 1 << 63)])
    k = rng.random()
    if k < .55:
        return str(v)
    if k < .7:
        return rng.choice(["0x%x", "0x%X"]) % v
    if k < .76:
        return "0b" + format(v, "b")
    if k < .82:
        return "0o%o" % v
    if k < .86:
        return "0%o" % v
    if k < .9:
        return "0d%d" % v
    return "%d%s" % (v & 3, rng.choice(["k", "M", "G", "ki", "Mi", "Gi"]))


def sp(rng):
    return " " * rng.choice([0, 0, 0, 1, 1, 2])


def gen_expr(rng, depth, scalars="", arrays="", big=True):
    r = rng.random()
    if depth <= 0 or r < .18:
        k = rng.random()
        if scalars and k < .5:
            return rng.choice(scalars)
        if arrays and k < .6:
            return "%s[%s]" % (rng.choice(arrays), gen_expr(rng, 0, scalars, "", False) if rng.random() < .3 else rng.randrange(0, 6))
        return gen_const(rng, big)
    if r < .3:
        # a unary operator; never two minus signs in a row
        e = gen_expr(rng, depth - 1, scalars, arrays, big)
        op = rng.choice("-~+")
        if e[:1] in "-+~":
            return op + "(" + e + ")"
        return op + e
    if r < .5:
        return "(" + sp(rng) + gen_expr(rng, depth - 1, scalars, arrays, big) + sp(rng) + ")"
    op = rng.choice(BINOPS)
    lhs = gen_expr(rng, depth - 1, scalars, arrays, big)
    if op in ("<<", ">>"):
        rhs = str(rng.randrange(0, 64))
    else:
        rhs = gen_expr(rng, depth - 1, scalars, arrays, big)
        if rhs[:1] in "-+~":
            rhs = "(" + rhs + ")" if rng.random() < .5 else " " + rhs
            if op in "+-" and not rhs.startswith("("):
                op = "*"
    s = sp(rng)
    return lhs + s + op + s + rhs


def well_shifted(t):
    """every shift count is a literal within the word"""
    if t[0] == "b":
        if t[1] in ("<<", ">>"):
            if t[3][0] != "c" or not 0 <= t[3][1] < 64:
                return False
        return well_shifted(t[2]) and well_shifted(t[3])
    if t[0] == "u":
        return well_shifted(t[2])
    if t[0] == "a":
        return well_shifted(t[2])
    return True


def draw_expr(rng, depth, scalars="", arrays="", big=True):
    for _ in range(50):
        e = gen_expr(rng, depth, scalars, arrays, big)
        t = expr.parse(e, arrays, scalars)
        if well_shifted(t):
            return e, t
    return "1", ("c", 1)


def known_compare(fn):
    """A case which fails, but passes once comparisons are judged by the sign of the 64-bit difference, is the known finding."""
    def f(rng, ctx):
        st = rng.getstate()
        seen = expr.OVERFLOWS[0]
        try:
            return fn(rng, ctx)
        except Violation as v:
            if expr.OVERFLOWS[0] == seen:
                raise
            rng.setstate(st)
            expr.SIGN_OF_DIFFERENCE = True
            try:
                fn(rng, ctx)
            except (Violation, Skip):
                raise v
            finally:
                expr.SIGN_OF_DIFFERENCE = False
            raise Known("comparison-overflow", v)
    return f


def c16_probe(rng, ctx):
    """the listed finding itself"""
    case = {"inputs": [b"x"], "slicer": ("w", 1, None), "out": ("o", "v_{(n + 1 < n - 9223372036854775807)}"), "outfmt": "b"}
    key = ctx.pick(rng)
    return check_case(ctx, rng, case, key=key, delivery=None)


def c16_template(rng, ctx):
    """values observed through rendered file names"""
    w = rng.randrange(1, 50)
    n = rng.randrange(1, 8)
    base = rng.choice([0, 0, rng.randrange(0, 2000)])
    tm = []
    for _ in range(rng.choice([1, 2, 3, 5])):
        e, _ = draw_expr(rng, rng.choice([1, 2, 3, 3, 4, 5]), "nl")
        if len("".join(tm)) + len(e) > 1500:
            break
        tm.append("{(%s)%s}" % (e, rng.choice(["", "", ":d", ":x", ":b", ":05d", ":>8d", ":016x"])))
    case = {"inputs": [rng.randbytes((n - 1) * w + rng.randrange(1, w + 1))], "slicer": ("w", w, None), "out": ("o", "_".join(tm) + "_"), "outfmt": "b",
            "pad": (base, 0) if base else None}
    try:
        res = model.run(case)
    except expr.EvalError:
        res = None
    if res is not None and any(len(k) > 200 for k in res["files"]):
        raise Skip()
    key = ctx.pick(rng)
    r = run.run_case(ctx.bins[key], case, ctx.scratch)
    d = oracle.describe(case, key, None, r)
    oracle.assert_clean(r, **d)
    ev = Counter({"templates": 1})
    if res is None:
        if r.rc == 0 and case["inputs"][0]:
            raise Violation("an expression which divides by zero is accepted", files=sorted(r.files), **d)
        return ("template", "error", len(tm)), {"template": case["out"][1], "result": "rejected"}, Counter({"evaluation errors": 1})
    if r.rc != 0:
        raise Violation("a valid expression is rejected", **d)
    if r.files != res["files"]:
        raise Violation("an expression evaluates to a wrong value", got=sorted(r.files)[:8], expected=sorted(res["files"])[:8], **d)
    ev["values compared"] += len(tm) * len(res["slices"])
    return ("template", len(tm), len(res["slices"]), bl(len(case["out"][1]))), {"template": case["out"][1], "files": sorted(res["files"])[:3]}, ev


def c16_options(rng, ctx):
    """numeric options and ranges written as expressions act like their values"""
    data = gen.gen_bytes(rng, gen.gen_len(rng, 145))
    n = len(data)

    def number(lo, hi):
        for _ in range(60):
            e, t = draw_expr(rng, rng.choice([1, 2, 3]), "", "", False)
            try:
                seen = expr.OVERFLOWS[0]
                v = expr.evaluate(t)
            except expr.EvalError:
                continue
            if expr.OVERFLOWS[0] != seen:
                continue          # the known finding is judged by the other workloads
            if lo <= v < hi:
                return e, v
        v = rng.randrange(lo, hi)
        return str(v), v

    def rexpr(anchors, lo, hi):
        a = rng.choice(anchors)
        if a == "c":
            e, v = number(0, hi)
            return e, ("c", v)
        e, v = number(lo, hi)
        k = rng.randrange(5)
        if k == 0:
            return "%s + (%s)" % (a, e), (a, v)
        if k == 1:
            return "%s - (-(%s))" % (a, e), (a, v)
        if k == 2:
            return "(%s) + %s" % (e, a), (a, v)
        if k == 3:
            return "%s + (%s)" % (a, e), (a, v)
        e2, v2 = number(0, 50)
        return "%s + (%s) - (%s)" % (a, e, e2), (a, v - v2)

    case = {"inputs": [data], "outfmt": "b"}
    args = []
    k = rng.randrange(6)
    if k == 0:
        e, v = number(1, 400)
        case["slicer"] = ("w", v, None)
        args.append("--width=" + e)
    elif k == 1:
        e1, v1 = number(0, 400)
        e2, v2 = number(0, 400)
        case["pad"] = (v1, v2)
        args.append("--pad=%s,%s" % (e1, e2))
    elif k == 2:
        e, v = number(1, 300)
        case["n"] = v
        args += ["--cat=" + e]
    elif k == 3:
        r = [(rexpr("sc", 0, n + 1), rexpr("sec", -n // 2, n + 2)) for _ in range(rng.choice([1, 2]))]
        case["cut"] = [(a[1], b[1]) for a, b in r]
        args.append("--cut=" + ",".join("%s..%s" % (a[0], b[0]) for a, b in r))
    elif k == 4:
        r = [(rexpr("sc", 0, n + 1), rexpr("sec", -n // 2, n + 2)) for _ in range(rng.choice([1, 2]))]
        case["slicer"] = ("r", [(a[1], b[1]) for a, b in r])
        args.append("--slice=" + ",".join("%s..%s" % (a[0], b[0]) for a, b in r))
    else:
        e, v = number(0, 60)
        case["slicer"] = ("d", data[n // 2:n // 2 + 1] or b"a")
        case["merge"] = v
        args += ["--find=" + case["slicer"][1].hex(" "), "--merge=" + e]
    exp = model.run(case)["stdout"]
    key = ctx.pick(rng)
    r = run_plain(ctx, key, ["-f", "b", *args, "in"], {"in": data})
    d = dict(cmd=args, rc=r.rc, stderr=r.err[:300], binary="-".join(key), data=small(data))
    if r.rc != 0:
        raise Violation("a numeric option written as an expression is rejected", **d)
    if r.out != exp:
        raise Violation("a numeric option written as an expression acts unlike its value", **oracle.diff_detail(r.out, exp), **d)
    return ("option", k, bl(len(" ".join(args))), bl(n)), {"args": args}, Counter({"option expressions": 1})


def c16_walk(rng, ctx):
    es = []
    for i in range(rng.choice([1, 1, 2])):
        e, t = draw_expr(rng, rng.choice([1, 2, 3, 4]), "", "bhil")
        if i and re.search("[/%]", e):
            continue          # whether an expression which is not reached may be rejected is open
        es.append(rng.choice(["((%s) & 31) + 1", "((%s) & 127) + 3", "(%s)"]) % e)
    case = {"inputs": [gen.gen_bytes(rng, gen.gen_len(rng, 145) or 1, rng.choice(["full", "full", "abc"]))], "slicer": ("k", es), "outfmt": rng.choice([None, "b"])}
    return check_case(ctx, rng, case)


@check("C16")
def c16(c):
    c.rule = ("random expressions (all documented operators, bases and suffixes, nesting and spacing) are observed through rendered file names, through the effect of "
              "numeric options and ranges, and through --walk over array views; the oracle is an independent C-semantics evaluator on wrapping 64-bit integers; "
              "distinct = new (workload, number of expressions, values, length class)")
    c.assumptions = ["not driven: !, ==, !=, &&, ||, ?:, shift counts outside 0..63 (undefined in C)"]
    c.build(V("prod") + V(145))
    c.single("probe", known_compare(c16_probe))
    c.fuzz("template", known_compare(c16_template), 10**7, T(c, 18, 240))
    c.fuzz("options", c16_options, 10**7, T(c, 10, 150))
    c.fuzz("walk", known_compare(c16_walk), 10**7, T(c, 10, 150))


# ------------------------------------------------------- C17 --output to files
def gen_template(rng, w):
    k = rng.randrange(12)
    v = rng.choice("nl")
    f = rng.choice(["", ":d", ":x", ":04d", ":08x", ":b", ":o", ":X", ":>6d", ":06x"])
    return [lambda: "f_{%s%s}" % (v, f),
            lambda: "{%s%s}.bin" % (v, f),
            lambda: "g_{(%s %% %d)%s}" % (v, rng.choice([1, 2, 3, 7]), f),
            lambda: "g_{(%s / %d)}" % (v, rng.choice([2, 3, 10, w, 3 * w])),
            lambda: "plain",
            lambda: "plain.{n}.{l}.x",
            lambda: "h{(l & 3)}{(n & 1)}",
            lambda: "q_{(%d - l)}" % rng.choice([0, 3, 100]),
            lambda: "",
            lambda: "-",
            lambda: "{l}{(l < 2)}",
            lambda: "z_{(n * 0 + l >> %d)}" % rng.choice([1, 2, 4])][k]()


def c17_scatter(rng, ctx):
    case, s = gen.gen_pipeline(rng, {"slicer": .9, "regex": .1, "invert": .1, "extend": .1, "merge": .1, "lines": .15, "cut": .1, "pad": .1, "multi": .2,
                                     "outfmt": .6}, rng.choice([16, 145]))
    w = case["slicer"][1] if case.get("slicer") and case["slicer"][0] == "w" else 16
    case["out"] = ("o", gen_template(rng, w))
    kind, exp = oracle.model_run(case)
    if kind != "ok" or len(exp["files"]) > 300:
        raise Skip()
    text = needs_text(case)
    key = ctx.pick(rng, None, text)
    delivery = gen_delivery(rng)
    args, files = run.build_args(case)
    # files of an earlier run: those which are written again must be replaced, others must stay
    old = {}
    for name in list(exp["files"])[:5]:
        if rng.random() < .5:
            old[name] = rng.randbytes(rng.choice([0, 1, 500, 20000]))
    old["unrelated"] = b"unrelated"
    if exp["files"] and rng.random() < .2:
        n0 = next(iter(exp["files"]))
        old[n0 + "0"] = b"similar name"
    with Dir(ctx, {**files, **{k: v for k, v in old.items() if k not in files}}) as d:
        names = ["_in%d" % i for i in range(len(case["inputs"]))]
        stdin = None
        if delivery:
            stdin, names[-1] = case["inputs"][-1], "-"
        env = env_short(rng, ctx) if rng.random() < .3 else None
        r = run.execute([ctx.bins[key], *args, *names], d.p, stdin, delivery, env, user=NOBODY)
        got = run.snapshot(d.p, skip=set(files))
    de = oracle.describe(case, key, delivery, r)
    de["env"] = env
    oracle.assert_clean(r, **de)
    if r.rc != 0:
        raise Violation("rejected a valid invocation", **de)
    if r.out != exp["stdout"]:
        raise Violation("stdout differs from the specification", **oracle.diff_detail(r.out, exp["stdout"]), **de)
    want = {**old, **exp["files"]}
    if case["out"][1] == "plain" or "{" not in case["out"][1]:
        if case["out"][1] not in ("", "-"):
            want.setdefault(case["out"][1], b"")
    # a file template without a variable is created even without slices
    if got != want:
        bad = [k for k in set(got) | set(want) if got.get(k) != want.get(k)]
        raise Violation("output files differ from the specification", names=sorted(bad)[:10], got={k: small(got[k], 200) for k in bad[:3] if k in got},
                        expected={k: small(want[k], 200) for k in bad[:3] if k in want}, **de)
    sig = (re.sub(r"\d+", "#", case["out"][1]), oracle.shape({**case, "out": None}), key[1], bl(len(exp["files"]))) if exp["files"] else None
    return sig, {"cmd": run.cmdline(case), "files": sorted(exp["files"])[:5]}, Counter({
        "output files compared": len(exp["files"]), "slices routed": len(exp["slices"]), "pre-existing files": len(old), "executions": 1})


def c17_many(rng, ctx):
    """more files than a process may keep open, and files which are revisited"""
    n = rng.choice([1500, 2500])
    case = {"inputs": [rng.randbytes(n)], "slicer": ("w", 1, None), "outfmt": "b",
            "out": ("o", rng.choice(["m_{n}", "m_{(l %% %d)}" % (n // 2 + 7), "m_{(n * 7919 %% %d):04x}" % (n - 300)]))}
    exp = model.run(case)
    key = ctx.pick(rng)
    args, files = run.build_args(case)
    with Dir(ctx, files) as d:
        r = run.execute(["/bin/sh", "-c", 'ulimit -n 64; exec "$0" "$@"', ctx.bins[key], *args, "_in0"], d.p, None, None, None, user=NOBODY)
        got = run.snapshot(d.p, skip=set(files))
    de = oracle.describe(case, key, None, r)
    oracle.assert_clean(r, **de)
    if r.rc != 0 or got != exp["files"]:
        bad = [k for k in set(got) | set(exp["files"]) if got.get(k) != exp["files"].get(k)]
        raise Violation("output to many files is wrong", names=sorted(bad)[:10], **de)
    return ("many", key, case["out"][1][:5]), {"cmd": run.cmdline(case)}, Counter({"output files compared": len(got), "executions": 1})


def c17_large(rng, ctx):
    n = oracle.gen_large_len(rng, 2)
    w = rng.choice([65536, 100000, PROD_BLOCK - 1, PROD_BLOCK + 1])
    case = {"inputs": [oracle.gen_large_data(rng, n)], "slicer": ("w", w, None), "outfmt": rng.choice(["b", None]),
            "out": ("o", rng.choice(["f_{l}", "f_{(l & 1)}", "all", "f_{(n / %d)}" % PROD_BLOCK]))}
    return check_case(ctx, rng, case, want=PROD, delivery=oracle.large_delivery(rng), timeout=60)


@check("C17")
def c17(c):
    c.rule = ("slices of random pipelines are scattered by random templates into a directory with leftovers of earlier runs (as an unprivileged user); the monitor "
              "compares the whole directory and stdout with the model: every slice exactly once, in order, in the file the template names, old content replaced, nothing "
              "else touched; distinct = new (template shape, stages, block size, file-count class)")
    c.build(ALL, shim=True)
    c.fuzz("scatter", c17_scatter, 10**7, T(c, 28, 360))
    c.fuzz("many", c17_many, T(c, 16, 200), T(c, 10, 120))
    c.fuzz("large", c17_large, 10**6, T(c, 9, 120))
    far(c, "o")


# ----------------------------------------------------------- C18 --patch-back
SED = [r"s/61/62/g", r"s/ | .*$//", r"s/^\(.*\) | .*$/\1/", r"1,3d", r"s/ 00/ 00 00/", r"n;d", r"s/|.*/| /", r"s/$//", r"2q", r"/00/d",
       r"s/ [0-9a-f]* |/ 0000 |/"]


def c18_case(rng, ctx, block, big=False):
    case, s = gen.gen_pipeline(rng, {"slicer": .9, "kinds": "wwdkr", "regex": .15, "invert": .2, "extend": .1, "merge": .15, "lines": .1, "cut": .2, "pad": .2,
                                     "multi": .2, "outfmt": .2}, block)
    if case.get("outfmt") not in (None, "x", "xxx"):
        case["outfmt"] = "x"
    if big:
        n = rng.choice([300000, 700000, 1300000])
        case = {"inputs": [oracle.gen_large_data(rng, n)], "slicer": rng.choice([("w", 1000, None), ("w", 65536, None), ("w", 4096, (("s", 10), ("s", 30))), ("d", b"\x07\x41"),
                                                                             ("r", [(("s", 5), ("s", 500)), (("e", -5000), ("e", 0))])])}
        if rng.random() < .4:
            case["cut"] = [(("s", 3), ("e", -7))]
    return case


def c18_run(rng, ctx, case, key, script, env=None, timeout=40, inplace=False):
    """runs nd -P with the command wrapped in recorders; -> (result, what the command got, what it said)"""
    args, files = run.build_args({**case, "out": None})
    if inplace:
        args = ["-i"] + args
    with Dir(ctx, files) as d:
        d.put("cmd.sh", ("tee fed | { %s ; } | tee -p back; : > done\n" % script).encode())
        r = run.execute([ctx.bins[key], *args, "-P", "sh ./cmd.sh", *["_in%d" % i for i in range(len(case["inputs"]))]], d.p, None, None, env, timeout, user=NOBODY)
        stop = time.monotonic() + 20
        while not os.path.exists(d.path("done")) and time.monotonic() < stop and not r.timeout:
            time.sleep(0.002)       # the recorder of a rejected answer may outlive nd
        if not os.path.exists(d.path("done")) and not r.crashed and not r.timeout:
            raise Skip()
        fed = d.get("fed") if os.path.exists(d.path("fed")) else None
        back = d.get("back") if os.path.exists(d.path("back")) else None
        after = [d.get("_in%d" % i) for i in range(len(case["inputs"]))]
        names = sorted(os.listdir(d.p))
    return r, fed, back, after, names


def c18_judge(rng, ctx, case, key, script, r, fed, back, env, full_fed=True):
    d = oracle.describe(case, key, None, r)
    d.update(command=script, env=env)
    oracle.assert_clean(r, **d)
    kind, exp = oracle.model_run({**case, "out": ("P", "")})
    if kind != "ok":
        raise Skip()
    if full_fed and r.rc == 0 and fed != exp["fed"]:
        raise Violation("the command does not get the formatted slices", **oracle.diff_detail(fed or b"", exp["fed"]), **d)
    if not exp["fed"].startswith(fed or b""):
        raise Violation("the command gets something else than the formatted slices", **oracle.diff_detail(fed or b"", exp["fed"]), **d)
    s = exp["stream"]
    try:
        want = model.apply_patch(s, back or b"")
    except model.Reject as e:
        if r.rc == 0:
            raise Violation("accepted an invalid patch from the command (%s)" % e, back=small(back, 600), **d)
        return "reject", exp
    except model.Unspecified:
        return "unspec", exp
    if r.rc != 0:
        raise Violation("the patch from the command is rejected", back=small(back, 600), **d)
    if r.out != want:
        raise Violation("the output is not the stream with the output of the command applied as patches", **oracle.diff_detail(r.out, want), back=small(back, 600), **d)
    return "ok", exp


def c18_small(rng, ctx):
    block = rng.choice([145, 4096, 4096])
    case = c18_case(rng, ctx, block)
    k = rng.randrange(8)
    full = True
    if k < 3:
        script = "sed '%s'" % rng.choice(SED)
        full = "2q" not in script
    elif k == 3:
        script = "cat"
    elif k == 4:
        script, full = "head -n %d" % rng.randrange(0, 5), False
    elif k == 5:
        script = rng.choice(["tac", "sort -r", "cat > /dev/null", "sleep 0.02; cat", "cat; sleep 0.01", "sed p"])
    elif k == 6:
        script, full = rng.choice(["printf '0 1 | 61 62\\n5 0 | 63\\n'", "true", "false", "exec <&-; printf '3 2\\n'"]), False
    else:
        script = "awk 'NR %% %d'" % rng.choice([2, 3, 5])
    key = ctx.pick(rng, None, True)
    env = None
    if rng.random() < .6:
        env = {"LD_PRELOAD": ctx.shim, "NDS_DELAY": str(rng.randrange(1 << 30)), "NDS_DELAY_US": rng.choice(["50", "500", "3000"])}
        if rng.random() < .5:
            env["NDS_SHORT"] = str(rng.randrange(1 << 30))
    r, fed, back, after, _ = c18_run(rng, ctx, case, key, script, env)
    res, exp = c18_judge(rng, ctx, case, key, script, r, fed, back, env, full)
    ev = Counter({"sessions": 1, "result:" + res: 1, "bytes fed": len(fed or b""), "patch bytes": len(back or b""), "perturbed schedules": int(env is not None)})
    sig = (oracle.shape(case), script.split()[0] + str(k), res, key, bl(len(exp["stream"]))) if exp["stream"] else None
    return sig, {"cmd": run.cmdline(case), "command": script, "result": res}, ev


def c18_spill(rng, ctx):
    """streams longer than the in-memory part of the cache, with delays on either side"""
    case = c18_case(rng, ctx, 4096, True)
    script = rng.choice(["cat", "sed 's/61/62/g'", "sleep 0.1; cat", "sed '2,$d'", "awk 'NR % 7 == 0'", "cat > /dev/null", "sed 's/|.*/| /'", "sed 's/| ../& 5a/'"])
    key = ctx.pick(rng, lambda k: k[1] == "4096" or (k[1] == "prod" and rng.random() < .3))
    env = None
    if rng.random() < .7:
        env = {"LD_PRELOAD": ctx.shim, "NDS_DELAY": str(rng.randrange(1 << 30)), "NDS_DELAY_US": rng.choice(["20", "200", "1000"])}
    r, fed, back, after, _ = c18_run(rng, ctx, case, key, script, env, 60)
    res, exp = c18_judge(rng, ctx, case, key, script, r, fed, back, env, "sed '2" not in script)
    return (oracle.shape(case), script, res, key), {"cmd": run.cmdline(case), "command": script, "result": res}, Counter(
        {"sessions": 1, "sessions beyond the in-memory cache": int(key[1] == "4096" and len(exp["stream"]) > 128 * 4096), "result:" + res: 1, "bytes fed": len(fed or b"")})


def c18_schedules(rng, ctx):
    """the same session under many schedules"""
    case = c18_case(rng, ctx, 4096)
    script = rng.choice(["sed '%s'" % rng.choice(SED[:9]), "cat"])
    full = "2q" not in script
    key = ctx.pick(rng, lambda k: k[1] == "4096", True)
    n = 0
    for i in range(6):
        env = {"LD_PRELOAD": ctx.shim, "NDS_DELAY": str(rng.randrange(1 << 30)), "NDS_DELAY_US": rng.choice(["30", "300", "2000"]), "NDS_SHORT": str(rng.randrange(1 << 30))}
        r, fed, back, after, _ = c18_run(rng, ctx, case, key, script, env)
        res, exp = c18_judge(rng, ctx, case, key, script, r, fed, back, env, full)
        n += 1
    return (oracle.shape(case), script, res, key), {"cmd": run.cmdline(case), "command": script}, Counter({"sessions": n, "schedules of one session": n, "perturbed schedules": n})


@check("C18")
def c18(c):
    c.rule = ("--patch-back sessions with recorded commands (what nd fed, what the command said) under random scheduling delays and short reads and writes injected into nd's "
              "threads; the offline monitor requires the fed text to be the formatted slices, and the output to be the stream spliced with the recorded answers; invalid "
              "answers must be rejected; distinct = new (stages, command, verdict, build, size class)")
    c.build(TEXT, shim=True)
    c.fuzz("sessions", c18_small, 10**7, T(c, 20, 300))
    c.fuzz("spill", c18_spill, 10**6, T(c, 12, 150))
    c.fuzz("schedules", c18_schedules, 10**6, T(c, 9, 150))
