"""One function per property.  Every function builds the variants it observes, runs its workloads and
leaves the verdict to the monitors in oracle.py (and the specialised ones here)."""
import os
from collections import Counter

from . import gen, model, oracle, run
from .harness import Skip, Violation
from .oracle import PROD_BLOCK, bl, check_case, gen_delivery

V = lambda bs, g="dbg": [("v1", str(bs), g), ("v3", str(bs), g)]
SMALL = V(145) + V("prod")
TEXT = V(4096) + V("prod")
ALL = V(145) + V(4096) + V("prod")
PROD = lambda k: k[1] == "prod"
CHECKS = {}

RULE = ("cases are drawn from seeded generators biased to chunk, vector-width and end-of-stream boundaries, run on the real binaries "
        "(portable and AVX2 builds; 145-byte, 4096-byte and production blocks; file and randomly split pipe delivery) and compared byte for "
        "byte with the reference model; a case counts as distinct if its (stages, build, delivery, size class, slice-count class) is new, "
        "and as non-trivial if both the stream and the expected output are non-empty or an expected rejection was observed")


def check(pid):
    def deco(f):
        CHECKS[pid] = f
        return f
    return deco


def T(c, quick, thorough=None):
    return quick if c.tier == "quick" else (thorough if thorough is not None else quick * 10)


def pipeline_fn(stages, block=None, want=None, outs=None, tweak=None):
    def f(rng, ctx):
        b = block or rng.choice([145, 145, 145, 4096])
        case, s = gen.gen_pipeline(rng, stages, b if rng.random() < 0.9 else 16)
        if tweak:
            tweak(rng, case, s)
        return check_case(ctx, rng, case, want=want)
    return f


def large_fn(tweak, maxblocks=4, want=PROD):
    """multi-block streams on the production block size"""
    def f(rng, ctx):
        n = oracle.gen_large_len(rng, maxblocks)
        case = {"mode": "cat", "n": None, "inputs": [oracle.gen_large_data(rng, n)], "outfmt": "b"}
        tweak(rng, case, n)
        return check_case(ctx, rng, case, want=want, delivery=oracle.large_delivery(rng), timeout=60)
    return f


# ------------------------------------------------------------------ C01 format
def c01_widths(rng, ctx):
    """every record length and column count, all byte values, offsets and alignments"""
    n = rng.choice([rng.randrange(1, 80), rng.randrange(1, 600), rng.randrange(1, 70000) if rng.random() < 0.3 else 300])
    w = rng.choice([rng.randrange(1, 140), rng.randrange(1, 140), rng.randrange(1, 1200), 4096, 65535, 65536, 65537, 70000])
    data = gen.gen_bytes(rng, n, rng.choice(["full", "full", "print", "ones"]))
    if w > 2000:
        data = rng.randbytes(rng.randrange(1, 3 * w))
    case = {"inputs": [data], "slicer": ("w", w, None), "outfmt": rng.choice([None, None, "x", "xxx", "d", "nnx", "ddx", "b"])}
    if rng.random() < 0.3:
        case["pad"] = (rng.choice([0, 1, 255, 4096, 65535, 65536, 1 << 20]), 0)
        case["slicer"] = ("r", [(("s", case["pad"][0]), None)])
    if rng.random() < 0.1:
        case["filler"] = rng.randrange(256)
    return check_case(ctx, rng, case)


def c01_slices(rng, ctx):
    """slices of arbitrary, also zero and unequal, lengths in one output"""
    s = gen.gen_bytes(rng, gen.gen_len(rng, rng.choice([145, 4096])), rng.choice(["full", "full", "print"]))
    v = []
    p = 0
    for _ in range(rng.choice([1, 3, 10, 60])):
        p = min(len(s), p + rng.choice([0, 0, 1, rng.randrange(0, 40)]))
        v.append((p, rng.choice([1, 2, 15, 16, 17, 31, 32, 33, 63, 64, 65, rng.randrange(1, 300)])))
    case = {"inputs": [s], "slicer": ("g", sorted(v)), "outfmt": rng.choice([None, None, "x", "d", "nnx", "b", "nnb"])}
    return check_case(ctx, rng, case)


def c01_large(rng, case, n):
    case["outfmt"] = rng.choice([None, "x", "d"])
    w = rng.choice([1000, 4096, 65536, 300000, PROD_BLOCK - 1, PROD_BLOCK, PROD_BLOCK + 1, 3 * PROD_BLOCK])
    case["slicer"] = ("w", w, None)


def c01_default_dump(rng, ctx):
    n = oracle.gen_large_len(rng, 1)
    return check_case(ctx, rng, {"inputs": [oracle.gen_large_data(rng, n)]}, want=PROD, timeout=60)


def sparse(ctx, rng, path):
    """a sparse input of more than 4 GiB with a few islands -> [(offset, bytes)]; islands hold no zero byte"""
    v = []
    for at in sorted(rng.sample([1 << 16, 1 << 24, (1 << 31) - 3, (1 << 31) + 4096, (1 << 32) - 3, (1 << 32) + PROD_BLOCK - 5, (1 << 32) + 3 * PROD_BLOCK], 4)):
        v.append((at + rng.randrange(0, 8), bytes(rng.choices(range(1, 256), k=rng.randrange(4, 20)))))
    with open(path, "wb") as f:
        for at, x in v:
            f.seek(at)
            f.write(x)
        f.truncate(v[-1][0] + len(v[-1][1]) + rng.choice([0, 1, 5000]))
    return v


def far_fn(kind):
    """offsets beyond 2^31 and 2^32: only arithmetic in 64 bits gets them right"""
    def f(rng, ctx):
        path = os.path.join(ctx.scratch, "sparse-%x" % rng.getrandbits(40))
        files = [path]
        try:
            v = sparse(ctx, rng, path)
            at, x = v[-1]
            fmt = rng.choice(["x", "d"])
            exp, names = None, {}
            if kind == "r":
                a = ["-f", fmt, "-r", ",".join("%d..%d" % (p - 2, p + len(y)) for p, y in v)]
                exp = b"".join(model.hexdump(p - 2, b"\0\0" + y, fmt, 16) for p, y in v)
            elif kind == "n":
                a = ["-f", "b", "-n", ",".join("%d..%d" % (p - 2, p + len(y)) for p, y in v)]
                exp = b"".join(b"\0\0" + y for p, y in v)
            elif kind == "g":
                g = path + "-guide"
                files.append(g)
                with open(g, "wb") as w:
                    w.write(b"".join(b"%x %x | \n" % (p - 1, len(y) + 1) for p, y in v))
                a = ["-f", fmt, "-g", g]
                exp = b"".join(model.hexdump(p - 1, b"\0" + y, fmt, 16) for p, y in v)
            elif kind == "d":
                a = ["-f", fmt, "-d", x[:4].hex(" ")]
                if any(x[:4] in y for p, y in v[:-1]) or x.find(x[:4], 1) >= 0:
                    raise Skip()
                exp = model.hexdump(at, x[:4], fmt, 16)
            elif kind == "p":
                q = path + "-patch"
                files.append(q)
                with open(q, "wb") as w:
                    w.write(b"".join(b"%012x %04x | 70 71 72 \n" % (p, 2) for p, y in v))
                sh = 0
                a, exp = [], b""
                rs = []
                for p, y in v:
                    z = b"pqr" + y[2:]
                    rs.append("%d..%d" % (p + sh, p + sh + len(z)))
                    exp += model.hexdump(p + sh, z, fmt, 16)
                    sh += 1
                a = ["-f", fmt, "-p", q, "-r", ",".join(rs)]
            elif kind == "t":
                # a text input whose last record lies far away
                with open(path, "wb") as w:
                    w.write(b"%012x %04x | %s \n" % (at, len(x), x.hex(" ").encode()))
                a = ["-F", "x", "-f", fmt, "-r", "%d..%d" % (at - 2, at + len(x))]
                exp = model.hexdump(at - 2, b"\0\0" + x, fmt, 16)
            elif kind == "o":
                out = path + "-out"
                files += [out + "-%d" % (p - 1) for p, y in v]
                a = ["-f", "b", "-r", ",".join("%d..%d" % (p - 1, p + len(y)) for p, y in v), "-o", out + "-{n}"]
                names = {out + "-%d" % (p - 1): b"\0" + y for p, y in v}
                exp = b""
            key = ctx.pick(rng, PROD)
            r = run.execute([ctx.bins[key], *a, path], ctx.scratch, None, None, timeout=100)
            d = dict(cmd=a, islands=[(p, y.hex()) for p, y in v], binary="-".join(key), rc=r.rc, stderr=r.err[:300])
            oracle.assert_clean(r, **d)
            if r.rc != 0 or r.out != exp:
                raise Violation("output is wrong at a far offset", got=r.out[:600], expected=exp[:600], **d)
            for n, y in names.items():
                got = open(n, "rb").read() if os.path.exists(n) else None
                if got != y:
                    raise Violation("output file of a slice at a far offset is wrong", name=n, got=got, expected=y, **d)
            return ("far", kind, key, fmt, at & 0xff), {"cmd": a, "last": at}, Counter({"executions": 1, "islands compared": len(v), "offsets >= 2^31": sum(p >= 1 << 31 for p, _ in v)})
        finally:
            for n in files:
                if os.path.exists(n):
                    os.unlink(n)
    return f


def far(c, kind):
    c.fuzz("far-" + kind, far_fn(kind), T(c, 2, 24), T(c, 10, 90), procs=2 if c.tier == "quick" else 4)


def c01_giant(rng, ctx):
    """records of 2^24 bytes and more"""
    n = (1 << 24) + rng.choice([0, 1, rng.randrange(1 << 20), -1])
    data = rng.randbytes(4099)
    data = (data * (n // len(data) + 2))[:n + rng.choice([0, 0, 5])]
    return check_case(ctx, rng, {"inputs": [data], "slicer": ("w", n, None), "outfmt": rng.choice([None, "x", "x", "d"]), "max_output": 100 << 20}, want=PROD, timeout=100, delivery=None)


@check("C01")
def c01(c):
    c.rule = RULE
    c.build(ALL)
    c.fuzz("widths", c01_widths, 10**7, T(c, 14, 200))
    c.fuzz("slices", c01_slices, 10**7, T(c, 10, 150))
    c.fuzz("large", large_fn(c01_large, 3), 10**6, T(c, 10, 150))
    c.fuzz("default-dump", c01_default_dump, T(c, 8, 80), T(c, 12, 120))
    c.fuzz("giant", c01_giant, T(c, 6, 24), T(c, 10, 90), procs=3)
    far(c, "r")


# -------------------------------------------------------------------- C02 text
def spell_records(rng, recs):
    return gen.render_records(rng, recs)


def c02_valid(rng, ctx):
    fmt = rng.choice(["x", "x", "xxx", "nnx", "d", "ddx"])
    recs, o = [], 0
    for _ in range(rng.choice([1, 2, 5, 20, 60])):
        o += rng.choice([0, 0, 0, 1, 16, rng.randrange(0, 400)])
        m = rng.choice([0, 1, 2, 3, 15, 16, 16, 17, 31, 32, 33, 47, 48, 49, 64, 65, 100, rng.randrange(0, 700)])
        a = rng.randbytes(m)
        span = m if rng.random() < 0.8 else rng.choice([0, 1, m + 1, m * 2, rng.randrange(0, 50)])
        recs.append((o, span, a))
        o += span
    t = gen.render_records(rng, recs, fmt=fmt)
    case = {"inputs": [t], "infmt": fmt, "outfmt": "b", "slicer": ("w", 4096, None)}
    if rng.random() < 0.3:
        case["filler"] = rng.randrange(256)
    return check_case(ctx, rng, case)


def corrupt(rng, t):
    """damage a record so that it is no longer of the documented form"""
    lines = t.split(b"\n")
    i = rng.randrange(len(lines))
    ln = lines[i]
    k = rng.randrange(10)
    body = ln.split(b"|")
    if k == 0:
        lines[i] = b"g" + ln
    elif k == 1:
        lines[i] = b"zz zz | 00"
    elif k == 2 and len(body) > 1:
        toks = body[1].split()
        if toks:
            j = rng.randrange(len(toks))
            toks[j] = rng.choice([b"g0", b"0g", b"xx", b"0x", b"--", b"\xff\xff", b"0:", b"/0", b"0`", b"@0", b"G0"])
            body[1] = b" " + b" ".join(toks) + b" "
            lines[i] = b"|".join(body)
    elif k == 3:
        lines[i] = ln.replace(b" ", b"_", 1)
    elif k == 4:
        lines[i] = ln.split(b" ")[0]
    elif k == 5:
        lines[i] = b"-1 " + ln
    elif k == 6:
        p = rng.randrange(0, min(len(ln), 14) + 1)
        lines[i] = ln[:p] + bytes([rng.choice(b"ghzGZ!~:/@`\x00\x7f\x80\xff")]) + ln[p:]
    elif k == 7:
        lines[i] = b" ".join(ln.split(b" ")[:1]) + b" qq | 00 "
    elif k == 9:
        # numbers that do not fit 64 bits
        big = rng.choice([b"10000000000000000", b"fffffffffffffffff", b"18446744073709551616", b"99999999999999999999", b"1" + b"0" * 30])
        f = ln.split(b" ")
        f[rng.randrange(min(2, len(f)))] = big
        lines[i] = b" ".join(f)
    else:
        lines[i] = ln.replace(b"|", b"#", 1) if b"|" in ln else ln + b" 00 11"
    return b"\n".join(lines)


def c02_malformed(rng, ctx):
    recs, o = [], 0
    for _ in range(rng.choice([1, 2, 5, 20])):
        m = rng.choice([1, 2, 16, 17, 33, 64, 100])
        recs.append((o, m, rng.randbytes(m)))
        o += m
    fmt = rng.choice(["x", "x", "x", "d", "ddx"])
    t = corrupt(rng, gen.render_records(rng, recs, messy=False, fmt=fmt))
    try:
        model.parse_text(t, fmt)
        raise Skip()      # still well-formed, or a truncated element: nothing is demanded here
    except model.Unspecified:
        raise Skip()
    except model.Reject:
        pass
    where = rng.randrange(3)
    if fmt != "x":
        case = {"inputs": [t], "infmt": fmt, "outfmt": rng.choice(["b", "x"])}
    elif where == 0:
        case = {"inputs": [t], "infmt": rng.choice(["x", "nnx"]), "outfmt": "b"}
    elif where == 1:
        case = {"inputs": [bytes(o + 10)], "patch": t, "outfmt": "b"}
    else:
        case = {"inputs": [t], "infmt": "x", "outfmt": "x"}
    return check_case(ctx, rng, case)


def c02_large(rng, ctx):
    """one record line around and beyond the production block size"""
    m = (PROD_BLOCK // 3) * rng.choice([1, 1, 2, 3]) + rng.randrange(-200, 200)
    recs = [(0, 3, b"abc"), (3, m, rng.randbytes(m)), (3 + m, 5, b"hello")]
    t = gen.render_records(rng, recs, messy=False)
    case = {"inputs": [t], "infmt": rng.choice(["x", "nnx"]), "outfmt": "b"}
    return check_case(ctx, rng, case, want=PROD, delivery=oracle.large_delivery(rng), timeout=60)


def c02_many(rng, ctx):
    """multi-block text: records cross the production block boundaries at every phase"""
    recs, o = [], 0
    w = rng.choice([1, 7, 16, 16, 32, 33, 100, 1000])
    total = rng.choice([700000, 900000, 1500000])
    if w < 10:
        total = 200000
    data = rng.randbytes(total)
    for p in range(0, total, w):
        a = data[p:p + w]
        recs.append((o, len(a), a))
        o += len(a)
    t = b"".join(model.hexdump(o, a, "x", w) for o, _, a in recs)
    t = t[: len(t) - 1] if rng.random() < 0.3 else t
    case = {"inputs": [t], "infmt": rng.choice(["x", "nnx"]), "outfmt": "b"}
    return check_case(ctx, rng, case, want=PROD, delivery=oracle.large_delivery(rng), timeout=60)


@check("C02")
def c02(c):
    c.rule = RULE
    c.build(TEXT)
    c.fuzz("valid", c02_valid, 10**7, T(c, 16, 220))
    c.fuzz("malformed", c02_malformed, 10**7, T(c, 12, 150))
    c.fuzz("long-lines", c02_large, 10**6, T(c, 7, 100))
    c.fuzz("multi-block", c02_many, 10**6, T(c, 8, 100))


# -------------------------------------------------------------- C03 round trip
def run_plain(ctx, key, args, files, stdin=None, delivery=None, cwd=None, env=None, timeout=25):
    import os
    import shutil
    import tempfile
    d = tempfile.mkdtemp(dir=ctx.scratch)
    try:
        for k, v in files.items():
            run.put(os.path.join(d, k), v)
        r = run.execute([ctx.bins[key], *args], d, stdin, delivery, env, timeout)
        oracle.assert_clean(r, cmd=args, binary="-".join(key), rc=r.rc, stderr=r.err[:400], delivery=delivery,
                            files={k: v[:3000] for k, v in files.items()})
        return r
    finally:
        shutil.rmtree(d, ignore_errors=True)


def rt(ctx, rng, data, dump_args, big=False):
    """dump, then (1) -F x restores the stream, (2) the dump is an identity patch, (3) zeros patched with the dump
    give the same bytes wherever a record covers them"""
    key = ctx.pick(rng, PROD if big else None, True)
    key2 = ctx.pick(rng, PROD if big else None, True)
    dl = oracle.large_delivery(rng) if big else gen_delivery(rng)
    d = dict(dump=dump_args, binaries=["-".join(key), "-".join(key2)], n=len(data), delivery=dl)
    if len(data) < 5000:
        d["data"] = data
    r = run_plain(ctx, key, [*dump_args, "in"], {"in": data})
    if r.rc != 0:
        raise Violation("dump failed", rc=r.rc, stderr=r.err[:300], **d)
    dump = r.out
    ev = Counter({"dumps": 1, "dump bytes": len(dump)})
    full = not any(a.startswith("--guide") or a.startswith("--slice") or a.startswith("--find") for a in dump_args)
    k = rng.randrange(3)
    dec = dump_args[-1] if dump_args and dump_args[-1] in ("d", "ddx") else None
    if dec and not (full and data):
        raise Skip()
    if dec:
        dec = rng.choice(["d", "ddx"])
        r = run_plain(ctx, key2, ["-F", dec, "-f", "b", "-"], {}, dump, dl or [(1 << 20, 0)])
        what = "-F %s does not restore the decimal dump" % dec
        ev["restored by -F d"] += 1
        exp = data
    elif k == 0 and full and data:
        r = run_plain(ctx, key2, ["-F", "x", "-f", "b", "-"], {}, dump, dl or [(1 << 20, 0)])
        what = "-F x does not restore the dumped stream"
        ev["restored by -F x"] += 1
        exp = data
    elif k == 1 and full:
        r = run_plain(ctx, key2, ["-F", "nnx", "-f", "b", "-"], {}, dump, dl or [(1 << 20, 0)])
        what = "-F nnx does not restore the dumped stream"
        ev["restored by -F nnx"] += 1
        exp = data
    else:
        r = run_plain(ctx, key2, ["-p", "-", "-f", "b", "in"], {"in": data}, dump, dl or [(1 << 20, 0)])
        what = "the dump applied as a patch is not the identity"
        ev["identity patches"] += 1
        exp = data
    if r.rc != 0 or r.out != exp:
        raise Violation(what, rc=r.rc, stderr=r.err[:300], dumphead=dump[:400], **oracle.diff_detail(r.out, exp), **d)
    return (dump_args[0].split("=")[0] if dump_args else "", k, key, key2, bl(len(data))), {"dump": dump_args, "n": len(data), "way": what}, ev


def c03_small(rng, ctx):
    data = gen.gen_bytes(rng, gen.gen_len(rng, rng.choice([145, 4096])), rng.choice(["full", "full", "print", "hexy", "ones"]))
    n = len(data)
    k = rng.randrange(6)
    if k == 0:
        a = []
    elif k in (1, 2):
        a = ["--width=%d" % rng.choice([rng.randrange(1, 100), rng.randrange(1, 5000)])]
    elif k == 3:
        v, p = [], 0
        while p < n:
            m = rng.randrange(1, 200)
            v.append((p, p + m))
            p += m + rng.choice([0, 0, 1, 30])
        a = ["--slice=" + ",".join("%d..%d" % x for x in v[:200])] if v else []
    elif k == 4:
        a = ["--walk=" + rng.choice(["(b[0] & 15) + 1", "7,300,1", "(h[0] & 31) + 2"])]
    else:
        a = ["--find=" + (data[n // 2:n // 2 + 2].hex(" ") or "00"), "--merge=%d" % rng.choice([0, 3, 50])]
    if rng.random() < 0.3:
        a += ["-f", rng.choice(["x", "xxx", "d", "ddx"])]
    if any(x.startswith("--find") for x in a) or any(x.startswith("--slice") for x in a):
        pass
    return rt(ctx, rng, data, a)


def c03_large(rng, ctx):
    n = oracle.gen_large_len(rng, 2)
    return rt(ctx, rng, oracle.gen_large_data(rng, n), ["--width=%d" % rng.choice([16, 32, 100, 4096, 1 << 20])], True)


@check("C03")
def c03(c):
    c.rule = ("random streams are dumped with a random slicer and the dump is fed back through -F x, -F nnx or --patch on another build; the monitor "
              "requires the original bytes; distinct = new (slicer, way back, builds, size class)")
    c.build(TEXT)
    c.fuzz("small", c03_small, 10**7, T(c, 18, 240))
    c.fuzz("large", c03_large, 10**6, T(c, 14, 200))
    far(c, "t")


# ------------------------------------------------------------ C04 construction
def c04_large(rng, case, n):
    k = rng.choice([1, 2, 3])
    case["inputs"] = [oracle.gen_large_data(rng, max(1, rng.choice([n // k, n, rng.randrange(1, 3000)]) + rng.randrange(-50, 50))) for _ in range(k)]
    if rng.random() < 0.5:
        case["mode"] = "zip"
        case["n"] = rng.choice([1, 2, 3, 4, 8, 16, 17, 32, 100, 4096, 65537, PROD_BLOCK - 1, PROD_BLOCK, PROD_BLOCK + 1])
    else:
        case["n"] = rng.choice([None, 2, 7, 4096, PROD_BLOCK - 1, PROD_BLOCK, PROD_BLOCK + 3, 3 * PROD_BLOCK])
    if rng.random() < 0.5:
        case["filler"] = rng.randrange(256)


@check("C04")
def c04(c):
    c.rule = RULE
    c.build(ALL)
    b = {"filler": .5, "outfmt": .6}
    c.fuzz("cat", pipeline_fn({"multi": .9, "align": .6, **b}), 10**7, T(c, 10, 130))
    c.fuzz("zip", pipeline_fn({"multi": .95, "zip": 1, **b}), 10**7, T(c, 12, 150))
    c.fuzz("text", pipeline_fn({"multi": .6, "text": 1, "align": .4, "zip": .2, **b}), 10**7, T(c, 10, 130))
    c.fuzz("large", large_fn(c04_large, 2), 10**6, T(c, 10, 150))


# ------------------------------------------------------------------ C05 cut/pad
def c05_large(rng, case, n):
    if rng.random() < 0.7:
        v = []
        for _ in range(rng.choice([1, 2, 3])):
            a, b = oracle.near_block(rng, n), oracle.near_block(rng, n)
            f = lambda x: ("s", x) if rng.random() < .6 else ("e", x - n)
            v.append((f(min(a, b)), f(max(a, b) + rng.choice([0, 1, 5]))))
        case["cut"] = v
    if rng.random() < 0.6:
        case["pad"] = (rng.choice([0, 1, 17, PROD_BLOCK - 1, PROD_BLOCK, PROD_BLOCK + 5]), rng.choice([0, 1, 300, PROD_BLOCK - 1, PROD_BLOCK + 5]))
        case["filler"] = rng.choice([None, 0, 255, 65])
    case["slicer"] = ("w", rng.choice([4096, 4096, PROD_BLOCK + 1000, 3 * PROD_BLOCK]), None)


@check("C05")
def c05(c):
    c.rule = RULE
    c.build(ALL)
    b = {"multi": .25, "filler": .4, "outfmt": .6}
    c.fuzz("cut", pipeline_fn({"cut": 1, **b}), 10**7, T(c, 14, 180))
    c.fuzz("pad", pipeline_fn({"pad": 1, **b}), 10**7, T(c, 7, 90))
    c.fuzz("both", pipeline_fn({"cut": .8, "pad": .8, "zip": .1, "align": .1, **b}), 10**7, T(c, 10, 130))
    # stages which ask for more than a block at once, or consume in their own ways
    c.fuzz("then", pipeline_fn({"cut": .5, "pad": .8, "filler": .8, "slicer": 1, "multi": .2, "outfmt": .3}), 10**7, T(c, 10, 130))
    c.fuzz("large", large_fn(c05_large), 10**6, T(c, 10, 150))
    far(c, "n")


# -------------------------------------------------------------------- C06 patch
def c06_overlap(rng, ctx):
    n = rng.randrange(20, 3000)
    recs = gen.gen_patch_records(rng, n, 12)
    if len(recs) < 2:
        recs = [(3, 4, b"xy"), (9, 2, b"q")]
    i = rng.randrange(len(recs) - 1)
    if rng.random() < 0.5:
        recs[i], recs[i + 1] = recs[i + 1], recs[i]       # unsorted
    else:
        o, s, a = recs[i]
        recs[i] = (o, recs[i + 1][0] - o + rng.randrange(1, 5), a)     # overlapping
    prev, bad = 0, False
    for o, s, _ in recs:
        bad |= o < prev
        prev = o + s
    if not bad:
        raise Skip()
    case = {"inputs": [gen.gen_bytes(rng, n)], "patch": gen.render_records(rng, recs), "outfmt": "b"}
    try:
        model.run(case)
    except model.Unspecified:
        raise Skip()
    except model.Reject:
        pass
    return check_case(ctx, rng, case)


def c06_large(rng, case, n):
    recs, p = [], 0
    for _ in range(rng.choice([1, 3, 10])):
        p = max(p, oracle.near_block(rng, n) if rng.random() < .8 else rng.randrange(n))
        if p > n:
            break
        span = rng.choice([0, 1, 5, 300, rng.randrange(0, PROD_BLOCK)])
        m = rng.choice([0, 1, span if span < 5000 else 7, 300, 5000])
        recs.append((p, span, rng.randbytes(m)))
        p += span
    case["patch"] = gen.render_records(rng, recs)
    case["slicer"] = ("w", 4096, None)


def c06_dense(rng, ctx):
    """a patch file of several production blocks"""
    n = rng.choice([300000, 800000])
    data = rng.randbytes(n)
    recs, p = [], 0
    w = rng.choice([3, 16, 40])
    while p < n:
        span = rng.choice([w, w, 0, 1])
        recs.append((p, min(span, n - p), rng.randbytes(rng.choice([span, span, 0, 5]))))
        p += span + rng.choice([0, 0, 1])
        if len(recs) > 60000:
            break
    t = b"".join(b"%x %x | %s\n" % (o, s, a.hex(" ").encode()) for o, s, a in recs)
    return check_case(ctx, rng, {"inputs": [data], "patch": t, "outfmt": "b", "slicer": ("w", 65536, None)}, want=PROD, timeout=60)


@check("C06")
def c06(c):
    c.rule = RULE
    c.build(TEXT)
    b = {"patch": 1, "outfmt": .7, "multi": .2}
    c.fuzz("patch", pipeline_fn(b), 10**7, T(c, 16, 220))
    c.fuzz("edited", pipeline_fn({**b, "cut": .4, "pad": .4, "slicer": .5}), 10**7, T(c, 8, 100))
    c.fuzz("overlap", c06_overlap, 10**7, T(c, 7, 80))
    c.fuzz("large", large_fn(c06_large), 10**6, T(c, 8, 120))
    far(c, "p")
    c.fuzz("dense", c06_dense, 10**6, T(c, 8, 80))


# ------------------------------------------------------------------ slicers
def slicer_check(pid, kinds, small, large, extra=None, variants=SMALL, note=None):
    @check(pid)
    def f(c):
        c.rule = RULE
        c.build(variants)
        b = {"slicer": 1, "kinds": kinds, "outfmt": .4, "multi": .2}
        c.fuzz("slice", pipeline_fn(b), 10**7, T(c, small, small * 13))
        c.fuzz("edited", pipeline_fn({**b, "cut": .3, "pad": .3, "zip": .1}), 10**7, T(c, small // 2, small * 5))
        if extra:
            for name, fn, q, t in extra:
                c.fuzz(name, fn, 10**7, T(c, q, t))
        c.fuzz("large", large_fn(large), 10**6, T(c, 10, 150))
        for kind in {"C08": "d", "C10": "rg"}.get(pid, ""):
            far(c, kind)
    return f


def c07_large(rng, case, n):
    w = rng.choice([1000, 4096, 65537, PROD_BLOCK - 1, PROD_BLOCK, PROD_BLOCK + 1, 2 * PROD_BLOCK, 5 * PROD_BLOCK])
    m = None
    if rng.random() < 0.6:
        a, b = rng.choice([0, 1, -5, -w // 2, w // 2, -w]), rng.choice([0, -1, 5, w // 2, -w // 3, w])
        m = (("s", a), ("e", b))
        if model.eval_range(m, 0, w)[0] >= model.eval_range(m, 0, w)[1]:
            m = None
    case["slicer"] = ("w", w, m)


def c07_enum(rng, ctx):
    """mappers whose clipping, pitch and span relate in unusual ways, against short streams"""
    w = rng.randrange(1, 12)
    a, b = rng.randrange(-3 * w, 3 * w + 1), rng.randrange(-3 * w, 3 * w + 1)
    m = (rng.choice([("s", a), ("e", a), ("c", a), None]), rng.choice([("s", b), ("e", b), ("c", b), None]))
    x, y = model.eval_range(m, 0, w)
    case = {"inputs": [gen.gen_bytes(rng, rng.choice([rng.randrange(0, 40), rng.randrange(100, 330)]), "full")], "slicer": ("w", w, m)}
    return check_case(ctx, rng, case)


slicer_check("C07", "w", 16, c07_large, [("mappers", c07_enum, 12, 150)])


def c08_find(rng, ctx):
    """periodic data and self-overlapping patterns; occurrences straddling every chunk boundary"""
    unit = gen.gen_bytes(rng, rng.choice([1, 2, 3, 5, 8]), rng.choice(["ab", "abc", "full"]))
    n = gen.gen_len(rng, rng.choice([145, 145, 4096]))
    s = bytearray((unit * (n // len(unit) + 1))[:n])
    for _ in range(rng.choice([0, 1, 5, n // 20])):
        if n:
            s[rng.randrange(n)] = rng.choice(unit + b"\x00a")
    pl = rng.choice([1, 2, 3, 4, 5, 8, 16, 17, 32, 33, 48, 63, 64])
    k = rng.random()
    if k < 0.6 and n:
        p = rng.randrange(n)
        pat = bytes(s[p:p + pl])
    elif k < 0.8:
        pat = (unit * (pl // len(unit) + 1))[:pl]
    else:
        pat = rng.randbytes(pl)
        for b in (145, 4096):
            p = b * rng.randrange(1, 6) - rng.randrange(0, pl + 1)
            if 0 <= p <= len(s):
                s[p:p + pl] = pat
    case = {"inputs": [bytes(s)], "slicer": ("d", pat), "outfmt": rng.choice([None, None, "x", "b"])}
    if rng.random() < .2:
        # occurrences in and across the padding
        case["pad"] = (gen.gen_len(rng, 145) if rng.random() < .7 else 0, rng.choice([0, 1, 50, 145, 200]))
        case["filler"] = pat[0] if rng.random() < .6 else 0
    return check_case(ctx, rng, case)


def c08_large(rng, case, n):
    s = bytearray(case["inputs"][0])
    pat = rng.randbytes(rng.choice([3, 4, 8, 17, 48, 64]))
    for _ in range(rng.choice([1, 5, 20])):
        p = max(0, oracle.near_block(rng, n) - rng.randrange(0, len(pat) + 1))
        s[p:p + len(pat)] = pat
    case["inputs"] = [bytes(s)]
    case["slicer"] = ("d", pat)
    case["outfmt"] = None


slicer_check("C08", "d", 10, c08_large, [("periodic", c08_find, 18, 220)])


def c09_large(rng, case, n):
    case["slicer"] = ("k", [rng.choice(["1000", "65536", "%d" % (PROD_BLOCK - 1), "%d" % PROD_BLOCK, "%d" % (PROD_BLOCK + 1), "(b[0] & 127) * 1024 + 3000",
                                        "(h[1] & 0x7fff) + 9999", "(b[%d] & 7) * 100000 + 50000" % rng.choice([5, 4000, 70000])])
                            for _ in range(rng.choice([1, 1, 2]))])


slicer_check("C09", "k", 22, c09_large)


def c10_large(rng, case, n):
    v = []
    for _ in range(rng.choice([1, 3, 8])):
        a = oracle.near_block(rng, n)
        v.append((a, min(n, a + rng.choice([1, 16, 300, rng.randrange(1, PROD_BLOCK)]))))
    if rng.random() < 0.5:
        case["slicer"] = ("g", sorted((a, b - a) for a, b in v))
    else:
        f = lambda x: ("s", x) if rng.random() < .6 else ("e", x - n)
        case["slicer"] = ("r", [(f(a), f(b)) for a, b in v])


def c10_guide_bad(rng, ctx):
    v = sorted((rng.randrange(0, 2000), rng.randrange(0, 40)) for _ in range(rng.choice([2, 3, 8])))
    i = rng.randrange(len(v) - 1)
    v[i], v[i + 1] = v[i + 1], v[i]
    if all(v[j][0] <= v[j + 1][0] for j in range(len(v) - 1)):
        raise Skip()
    return check_case(ctx, rng, {"inputs": [gen.gen_bytes(rng, 2100)], "slicer": ("g", v)})


slicer_check("C10", "rrg", 22, c10_large, [("unsorted-guide", c10_guide_bad, 4, 30)], ALL)


def c11_tweak(rng, case, s):
    if case.get("slicer") is None and rng.random() < 0.5:
        case["slicer"] = ("w", rng.choice([5, 30, 100, 300, 2000]), None)


def c11_large(rng, case, n):
    case["slicer"] = ("w", rng.choice([4096, 65536, 300000, PROD_BLOCK, PROD_BLOCK + 1]), None)
    case["regex"] = rng.choice([(r"(?-u)\x07[\x00-\x7f]\x01", "\x07[\x00-\x7f]\x01"), (r"(?-u)\xffa", "\xffa"), (r"bbaabbaabb", r"bbaabbaabb")])
    case["outfmt"] = rng.choice(["b", "x", "x", None])


@check("C11")
def c11(c):
    c.rule = RULE
    c.assumptions = ["the regular expressions used are ones whose language and match order are the same in Rust's regex and in Python's re (leftmost-first)"]
    c.build(SMALL)
    c.fuzz("regex", pipeline_fn({"regex": 1, "slicer": .7, "outfmt": .3, "multi": .1}, tweak=c11_tweak), 10**7, T(c, 22, 300))
    c.fuzz("then", pipeline_fn({"regex": 1, "slicer": .7, "cut": .2, "pad": .2, "extend": .2, "merge": .2}), 10**7, T(c, 8, 100))
    c.fuzz("large", large_fn(c11_large), 10**6, T(c, 10, 150))


def c12_large(rng, case, n):
    c10_large(rng, case, n)
    m = lambda: (("s", rng.choice([0, 3, -3, -5000, PROD_BLOCK // 2])), ("e", rng.choice([0, 3, -3, 5000, -PROD_BLOCK // 2, PROD_BLOCK])))
    if rng.random() < .5:
        case["invert"] = [m() for _ in range(rng.choice([1, 1, 2]))]
    if rng.random() < .5:
        case["extend"] = [m() for _ in range(rng.choice([1, 1, 2]))]
    if rng.random() < .5:
        case["merge"] = rng.choice([0, 10, 5000, PROD_BLOCK])


@check("C12")
def c12(c):
    c.rule = RULE
    c.build(ALL)
    b = {"slicer": .8, "multi": .2, "outfmt": .2}
    c.fuzz("invert", pipeline_fn({**b, "invert": 1}), 10**7, T(c, 9, 110))
    c.fuzz("extend", pipeline_fn({**b, "extend": 1}), 10**7, T(c, 9, 110))
    c.fuzz("merge", pipeline_fn({**b, "merge": 1}), 10**7, T(c, 7, 90))
    c.fuzz("all", pipeline_fn({**b, "regex": .2, "invert": .5, "extend": .5, "merge": .5}), 10**7, T(c, 10, 130))
    c.fuzz("large", large_fn(c12_large), 10**6, T(c, 9, 130))


def c13_large(rng, case, n):
    w = rng.choice([1000, 4096, 65536])
    case["slicer"] = ("w", w, None)
    k = (n + w - 1) // w
    case["lines"] = gen.gen_ranges(rng, k, 4)
    case["outfmt"] = None if rng.random() < .3 else "b"


@check("C13")
def c13(c):
    c.rule = RULE
    c.build(ALL)
    b = {"slicer": .8, "multi": .2, "outfmt": .2}
    c.fuzz("lines", pipeline_fn({**b, "lines": 1}), 10**7, T(c, 20, 260))
    c.fuzz("all", pipeline_fn({**b, "lines": 1, "regex": .3, "invert": .3, "extend": .3, "merge": .3, "cut": .1, "pad": .1}), 10**7, T(c, 12, 150))
    c.fuzz("large", large_fn(c13_large), 10**6, T(c, 10, 150))
