"""Random and hostile cases.  All randomness comes from the Random given."""
import random

REGEXES = [  # (rust, python): same language in both
    (r"[a-c]+", r"[a-c]+"),
    (r"a(?s-u:.)b", r"(?s)a.b"),
    (r"ab|a|abc", r"ab|a|abc"),
    (r"(?-u)[\x80-\xff]{1,3}", "[\x80-\xff]{1,3}"),
    (r"(?-u)\x00+", r"\x00+"),
    (r"a{2,5}?", r"a{2,5}?"),
    (r"(?s-u)^.{1,7}", r"(?s)\A.{1,7}"),
    (r"(?s-u).$", r"(?s).\Z"),
    (r"(?s-u).{3}", r"(?s).{3}"),
    (r"(?-u)[^a]b*", r"[^a]b*"),
    (r"zzzz", r"zzzz"),
    (r"(?s-u)a.*c", r"(?s)a.*c"),
    (r"(?-u)a.b", r"a.b"),              # a dot doesn't match a newline
    (r"(?-u)a.*", r"a.*"),
    (r"(?-u)^.+", r"\A.+"),             # ^ and $ are the ends of a slice, not of a line
    (r"(?-u)..$", r"..\Z"),
    (r"(?m-u)^.", r"(?m)^."),
    (r"(?i-u)aB", r"(?i)aB"),
    (r"\n", r"\n"),
]


def gen_bytes(rng, n, alpha=None):
    if alpha is None:
        alpha = rng.choice(["ab", "abc", "abc\0", "abAB\n", "full", "print", "ones", "hexy"])
    if alpha == "full":
        return rng.randbytes(n)
    if alpha == "print":
        return bytes(rng.choices(range(32, 127), k=n))
    if alpha == "ones":
        return bytes([rng.choice(b"a\0\xff")]) * n
    if alpha == "hexy":
        return bytes(rng.choices(b"0123456789abcdef |\n", k=n))
    return bytes(rng.choices(alpha.encode(), k=n))


def gen_len(rng, block=145):
    """lengths around the boundaries which matter"""
    r = rng.random()
    if r < 0.08:
        return rng.randrange(0, 4)
    if r < 0.45:
        return rng.randrange(0, 64)
    if r < 0.75:
        k = rng.choice([1, 1, 2, 2, 3, 4, 6])
        return max(0, k * block + rng.randrange(-6, 7))
    return rng.randrange(0, 8 * block)


def gen_huge(rng):
    """offsets which don't fit in 32 bits, or just do"""
    return rng.choice([1 << 31, 1 << 32, 1 << 32, 1 << 33, 3 << 32, 1 << 40]) + rng.randrange(-12, 13)


def has_huge(x):
    """is there such an offset in the case? (an end-anchored one needs the whole stream)"""
    if isinstance(x, dict):
        return any(has_huge(y) for y in x.values())
    if isinstance(x, (tuple, list)):
        return any(has_huge(y) for y in x)
    return isinstance(x, int) and abs(x) >= 1 << 30


def gen_anchor(rng, span, far=0.15, consts=True):
    r = rng.random()
    if r < 0.12:
        return None
    a = rng.choice("sssee") if not consts else rng.choice("ssseecc")
    if rng.random() < far:
        k = rng.choice([-1, 1]) * rng.randrange(0, 3 * span + 10)
    else:
        k = rng.randrange(-span // 4 - 3, span + 4)
    if a == "e":
        k = -k
    return (a, k)


def gen_stream_range(rng, n):
    """mostly non-empty ranges over a stream of n bytes / lines"""
    if rng.random() < 0.15:
        return (gen_anchor(rng, n), gen_anchor(rng, n))
    a = rng.randrange(0, n + 1)
    b = min(n + 3, a + rng.choice([0, 1, 2, 3, rng.randrange(0, 20), rng.randrange(0, n + 1)]))
    if rng.random() < 0.08 and b >= a:
        b = a - rng.randrange(0, 4)
    f = []
    for x in (a, b):
        r = rng.random()
        f.append(("c", x) if r < 0.4 else ("s", x) if r < 0.6 else ("e", x - n))
    if rng.random() < 0.07:
        f[0] = None
    if rng.random() < 0.07:
        f[1] = None
    if rng.random() < 0.04:
        i = rng.randrange(2)
        f[i] = (rng.choice("sc" if i else "se"), gen_huge(rng))
        if f[i][0] == "e":
            f[i] = ("e", -f[i][1])
    # a negative constant reads as s+k
    return tuple(f)


def gen_ranges(rng, n, maxn=4):
    k = rng.choice([1, 1, 1, 2, 2, 3, maxn])
    v = [gen_stream_range(rng, n) for _ in range(k)]
    if k > 1 and rng.random() < 0.1:
        v[-1] = v[0]
    return v


def gen_mapper(rng, span=8, huge=0.05):
    big = rng.random() < 0.12
    m = 300 if big else span
    a, b = rng.randrange(-m, m + 1), rng.randrange(-m, m + 1)
    f = [("s", a), ("e", b)]
    r = rng.random()
    if r < 0.12:
        f[0] = ("e", a)
    elif r < 0.2:
        f[1] = ("s", b)
    elif r < 0.26:
        f[0] = ("c", a)
    elif r < 0.32:
        f[1] = ("c", b)
    elif r < 0.4:
        f[0] = None
    elif r < 0.48:
        f[1] = None
    if rng.random() < huge:
        i = rng.randrange(2)
        f[i] = (rng.choice("se"), rng.choice([-1, 1, 1 if i else -1]) * gen_huge(rng))
    return tuple(f)


def gen_patch_records(rng, n, maxn=12, growth=20):
    """sorted, non-overlapping; zero-length (insertion) records included"""
    recs, p = [], 0
    k = rng.choice([0, 1, 1, 2, 3, rng.randrange(0, maxn)])
    for _ in range(k):
        p += rng.choice([0, 0, 1, rng.randrange(0, 10), rng.randrange(0, max(1, n // max(1, k)) + 1)])
        if p > n:
            break
        span = rng.choice([0, 0, 1, 2, rng.randrange(0, 16), rng.randrange(0, max(1, n // 2) + 1)])
        m = rng.choice([0, 1, span, span, rng.randrange(0, growth), rng.randrange(0, 100) if rng.random() < 0.2 else 3])
        recs.append((p, span, rng.randbytes(m)))
        p += span
        if rng.random() < 0.02:
            p += 10 * n
    return recs


def render_records(rng, recs, messy=True, fmt="x"):
    """text in every spelling the README allows (numbers in decimal for d and ddx)"""
    dec = fmt in ("d", "ddx")
    out = []
    for i, (o, s, a) in enumerate(recs):
        w = rng.choice([0, 0, 4, 8, 12, 12])
        os_, ss = "%0*x" % (w, o), "%0*x" % (rng.choice([0, 0, 2, 4, 4, 6]), s)
        if dec:
            os_, ss = "%0*d" % (w, o), "%0*d" % (rng.choice([0, 0, 2, 4, 4, 6]), s)
        if rng.random() < 0.1:
            os_, ss = os_.upper(), ss.upper()
        line = os_ + " " + ss
        body = a.hex(" ") if rng.random() < 0.85 else a.hex(" ").upper()
        r = rng.random()
        if not a and r < 0.5 and not dec:
            if messy and rng.random() < 0.3:
                pass
        elif r < 0.35:
            line += " | " + body
            if messy:
                line += " " * rng.choice([0, 0, 1, 2, 40])
        elif r < 0.7:
            line += " | " + body + (" " if body else "") + "   " * rng.choice([0, 0, 1, 16]) + "| "
            line += "".join(rng.choice("abcxyz.|0189 ~") for _ in range(rng.choice([0, len(a), 5, 200])))
        else:
            line += " | " + body + " | " + rng.choice(["", "comment", "| | |", " 61 62"])
        out.append(line)
    t = "\n".join(out)
    if out and rng.random() < 0.8:
        t += "\n"
    return t.encode()


def gen_walk_exprs(rng):
    r = rng.random()
    if r < 0.25:
        return [str(rng.randrange(1, 40)) for _ in range(rng.choice([1, 1, 2, 3]))]
    pool = ["(b[0] & 15) + 1", "(b[1] & 0x3f) + 1", "(h[0] & 31) + 2", "(i[0] & 63) + 1", "(l[0] & 127) + 3",
            "(b[3] & 7) * 4 + 1", "(h[1] >> 9 & 7) + 1", "(b[(b[0] & 7)] & 15) + 1", "(l[2] >> 60 & 15) + 1", "1", "7", "300",
            "((b[200] & 3) + 1) * 50", "(i[2] < 0) + 3", "b[0]", "b[0] + 3"]
    return [rng.choice(pool) for _ in range(rng.choice([1, 1, 1, 2, 3]))]


def gen_slicer(rng, s, kinds="wwdkrg", width_range=None):
    n = len(s)
    k = rng.choice(kinds)
    if k == "w":
        w = rng.choice([1, 2, 3, 7, 8, 15, 16, 17, 31, 32, 33, 64, 100, 145, 146, 290, rng.randrange(1, 500)])
        if rng.random() < .06:
            w = max(1, n + rng.choice([-1, 0, 1, -5, 100]))       # the whole stream (nearly)
        if rng.random() < 0.5:
            return ("w", w, None)
        for _ in range(20):
            # text records are as wide as the mapped slice: no huge ones here
            m = gen_mapper(rng, rng.choice([4, w, 2 * w]), 0)
            # the mapped slice must not be empty
            from .model import eval_range
            a, b = eval_range(m, 0, w)
            if a < b:
                return ("w", w, m)
        return ("w", w, None)
    if k == "d":
        if n and rng.random() < 0.8:
            p = rng.randrange(n)
            m = rng.choice([1, 1, 2, 2, 3, 4, 8])
            return ("d", s[p:p + m])
        return ("d", rng.choice([b"a", b"aa", b"aba", b"\0", b"abab"]))
    if k == "k":
        return ("k", gen_walk_exprs(rng))
    if k == "r":
        return ("r", gen_ranges(rng, n, 8))
    v, p = [], 0
    for _ in range(rng.choice([0, 1, 2, 5, 20])):
        p += rng.choice([0, 0, 1, 3, rng.randrange(0, 40), rng.randrange(0, n + 1)])
        v.append((p, rng.choice([0, 1, 2, 5, rng.randrange(0, 50), rng.randrange(0, n + 1)])))
    return ("g", sorted(v))


def gen_pipeline(rng, stages, block=145):
    """a random case; `stages` = dict of probabilities"""
    P = lambda k: rng.random() < stages.get(k, 0)
    case = {"mode": "cat", "n": None}
    cnt = 1
    if P("multi"):
        cnt = rng.choice([1, 2, 2, 3, 5])
    if P("zip"):
        case["mode"], case["n"] = "zip", rng.choice([1, 2, 3, 4, 7, 8, 16, 17, 31, 32, 64, 100, 144, 145, 146, 200])
    elif P("align"):
        case["n"] = rng.choice([1, 2, 3, 4, 7, 8, 16, 100, 145, 146, 300])
    if P("filler"):
        case["filler"] = rng.choice([0, 1, 0x20, 0x7f, 0x80, 0xff, rng.randrange(256)])
    ins = []
    for _ in range(cnt):
        data = gen_bytes(rng, gen_len(rng, block))
        ins.append(data)
    if P("text"):
        case["infmt"] = rng.choice(["x", "xxx", "nnx", "x", "xxx", "nnx", "d", "ddx"])
        t = []
        for data in ins:
            # cut into records with gaps
            recs, p, o = [], 0, 0
            while p < len(data):
                m = rng.choice([0, 1, 2, 7, 16, 16, 16, 64, 65, 200])
                o += rng.choice([0, 0, 0, 1, 5, rng.randrange(0, 300)])
                a = data[p:p + m]
                recs.append((o, len(a), a))
                p += len(a)
                o += len(a)
            t.append(render_records(rng, recs, fmt=case["infmt"]))
        ins = t
    case["inputs"] = ins
    from .model import build_stream, edit_stream
    s = bytes(build_stream(case))
    if P("cut"):
        case["cut"] = gen_ranges(rng, len(s))
        s = edit_stream({"cut": case["cut"]}, s)
    if P("pad"):
        pads = [0, 1, 5, 16, 144, 145, 146, 400] if rng.random() < .8 else [0, 1000, 3 * block - 1, 3 * block + 5, rng.randrange(1, 9 * block)]
        case["pad"] = (rng.choice(pads), rng.choice(pads))
        s = edit_stream({"pad": case["pad"], "filler": case.get("filler")}, s)
    if P("patch"):
        case["patch"] = render_records(rng, gen_patch_records(rng, len(s), rng.choice([3, 12, 40])))
        s = edit_stream({"patch": case["patch"]}, s)
    if P("slicer"):
        case["slicer"] = gen_slicer(rng, s, stages.get("kinds", "wwdkrg"))
    if P("regex"):
        case["regex"] = rng.choice(REGEXES)
    if P("invert"):
        case["invert"] = [gen_mapper(rng) for _ in range(rng.choice([1, 1, 2, 3]))]
    if P("extend"):
        case["extend"] = [gen_mapper(rng, rng.choice([4, 8, 20])) for _ in range(rng.choice([1, 1, 2, 3]))]
    if P("merge"):
        case["merge"] = rng.choice([0, 0, 1, 2, 5, 16, 144, 300])
    if P("lines"):
        case["lines"] = gen_ranges(rng, rng.choice([1, 3, 10, 30, 100]))
    if P("outfmt"):
        case["outfmt"] = rng.choice(["x", "x", "d", "b", "xxx", "ddx", "nnx", "nnb"])
        # where the columns don't depend on the mapping
        if (case.get("slicer") or "-")[0] == "w" and case["slicer"][2] and rng.random() < 0.1:
            from .model import eval_range
            w = case["slicer"][1]
            m = gen_mapper(rng, 2 * w, 1)
            a, b = eval_range(m, 0, w)
            if a < b:
                case["slicer"] = ("w", w, m)
    return case, s
