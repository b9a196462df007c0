"""Independent reference model of nd's documented behaviour.

It works on whole in-memory byte strings: no streams, no chunks, no SIMD.  It
is written from README.md, never from the pipeline code, and every function
is a direct transcription of one documented sentence.

A case is a plain dict (JSON-able through `jsonable`/`unjson`):

  mode     'cat' | 'zip' | 'inplace'       n   alignment / word size
  inputs   [bytes]                         infmt  'b' | 'x' | 'nnx' | 'd' | None
  filler   int | None
  cut      [range] | None                  pad  (n, m) | None
  patch    bytes (text of the patch file) | None
  slicer   None | ('w', N, mapper|None) | ('d', bytes) | ('k', [str]) |
           ('r', [range]) | ('g', [(off, len)])
  regex    (rust syntax, python syntax) | None      invert/extend  [range] | None
  merge    int | None      lines  [range] | None
  out      None | ('o', template) | ('P', cmd)
  outfmt   None | 'x' | 'xxx' | 'b' | 'nnb' | 'd' | 'ddx' | 'nnx'

  range = (a, b); a, b = None | (anchor, k); anchor in 's', 'e', 'c'
"""
import re

from . import expr as X


class Reject(Exception):
    """nd must reject this with a non-zero exit status."""


class Unspecified(Exception):
    """The documentation does not say; nothing is compared."""


class TooBig(Unspecified):
    """not run: the result would fill memory or disk"""


MAX_SLICES, MAX_OUTPUT = 400000, 48 << 20


# ---------------------------------------------------------------- text format
HEXD = b"0123456789abcdefABCDEF"


def parse_text(text, fmt="x"):
    """-> [(offset, span, array)]; Reject on malformed records."""
    base = 10 if fmt in ("d", "ddx") else 16
    recs = []
    lines = text.split(b"\n")
    if lines and lines[-1] == b"":
        lines.pop()
    for ln in lines:
        m = re.match(rb"^([0-9a-fA-F]+) ([0-9a-fA-F]+) *(?:\|(.*))?$", ln, re.S)
        if not m:
            raise Reject("malformed record %r" % ln[:60])
        if m.group(3) == b"" or (m.group(3) is None and ln.endswith(b" ")):
            raise Unspecified("blanks or a bar behind a record without an array")
        if base == 10 and m.group(3) is None:
            raise Unspecified("a decimal record without an array")
        if base == 10 and not (m.group(1) + m.group(2)).isdigit():
            raise Reject("hexadecimal digits in a decimal number")
        try:
            off, span = int(m.group(1), base), int(m.group(2), base)
        except ValueError:
            raise Reject("bad number")
        if off >> 64 or span >> 64:
            raise Reject("a number beyond 64 bits")
        if base == 16 and max(len(m.group(1)), len(m.group(2))) > 16:
            raise Unspecified("more than 16 hexadecimal digits")
        body = (m.group(3) or b"").split(b"|")[0]
        if re.search(rb"  +[^ ]", body):
            raise Unspecified("a blank column followed by more elements")
        toks = body.split(b" ")
        arr = bytearray()
        for t in toks:
            if not t:
                continue
            if len(t) != 2 or any(c not in HEXD for c in t):
                raise Reject("bad array element %r" % t)
            arr.append(int(t, 16))
        recs.append((off, span, bytes(arr)))
    return recs


def decode_input(text, fmt, filler):
    if fmt in (None, "b", "nnb"):
        return text
    recs = parse_text(text, fmt)
    if fmt == "nnx":
        return b"".join(r[2] for r in recs)
    # every record puts its array at its offset; records must not overlap
    out = bytearray()
    last = 0
    for off, span, arr in recs:
        if off < last:
            raise Reject("overlapping or unsorted records")
        out += bytes([filler]) * (off - last) + arr
        last = off + span
    return out


def apply_patch(data, text, fmt="x"):
    recs = parse_text(text, fmt)
    out = []
    pos = 0
    prev_end = 0
    for off, span, arr in recs:
        if off < prev_end:
            raise Reject("overlapping or unsorted patch")
        prev_end = off + span
        if off > len(data):
            raise Unspecified("patch record beyond the end of the stream")
        out.append(data[pos:off])
        out.append(arr)
        pos = min(off + span, len(data))
    out.append(data[pos:])
    return b"".join(out)


def hexdump(off, data, fmt, cols):
    """one slice -> one line"""
    if fmt in ("b", "nnb"):
        return data
    n = len(data)
    width = max(n, cols)
    if fmt in (None, "x", "xxx", "nnx"):
        digits = 4
        while n >= 1 << (4 * digits):
            digits += 2
        head = b"%012x %0*x" % (off, digits, n)
    else:
        head = b"%d %d" % (off, n)
    body = data.hex(" ").encode() + (b" " if n else b"") + b"   " * (width - n)
    mosaic = data.translate(MOSAIC) + b" " * (width - n)
    return head + b" | " + body + b"| " + mosaic + b"\n"


MOSAIC = bytes(c if 0x20 <= c < 0x7f else 0x2e for c in range(256))


# --------------------------------------------------------------------- stages
def align(data, n, filler):
    r = len(data) % n
    return data + bytes([filler]) * ((n - r) % n)


def build_stream(case):
    filler = case.get("filler") or 0
    n = case.get("n") or 1
    infmt = case.get("infmt")
    ins = [bytes(decode_input(x, infmt, filler)) for x in case["inputs"]]
    if case.get("mode", "cat") in ("cat", "inplace"):
        return b"".join(align(x, n, filler) for x in ins)
    ins = [align(x, n, filler) for x in ins]
    words = min(len(x) for x in ins) // n
    out = bytearray()
    for i in range(words):
        for x in ins:
            out += x[i * n:(i + 1) * n]
    return bytes(out)


def eval_anchor(p, start, end, default):
    if p is None:
        return default
    a, k = p
    return (end if a == "e" else start) + k


def eval_range(r, start, end):
    """S..E against [start, end) of a slice, not clipped"""
    a = eval_anchor(r[0], start, end, start)
    b = eval_anchor(r[1], start, end, end)
    return a, b


def stream_ranges(ranges, n):
    """S..E against the whole stream (or line count), clipped"""
    out = []
    for r in ranges:
        a, b = eval_range(r, 0, n)
        a, b = min(max(a, 0), n), min(max(b, 0), n)
        if a < b:
            out.append((a, b))
    return out


def union(ranges):
    out = []
    for a, b in sorted(ranges):
        if out and a <= out[-1][1]:
            out[-1][1] = max(out[-1][1], b)
        else:
            out.append([a, b])
    return out


def edit_stream(case, s):
    if case.get("cut") is not None:
        s = b"".join(s[a:b] for a, b in union(stream_ranges(case["cut"], len(s))))
    if case.get("pad") is not None:
        f = bytes([case.get("filler") or 0])
        s = f * case["pad"][0] + s + f * case["pad"][1]
    if case.get("patch") is not None:
        s = apply_patch(s, case["patch"])
    return s


def clip_slices(pairs, n):
    out = []
    for a, b in pairs:
        a, b = min(max(a, 0), n), min(max(b, 0), n)
        if a < b:
            out.append((a, b))
    return out


def walk(s, exprs):
    # elements which are not entirely in the stream are read as zero
    n = len(s)
    out = []
    progs = [X.parse(e, arrays="bhil") for e in exprs]
    pos = 0
    while pos < n:
        def elem(name, idx, pos=pos):
            size = {"b": 1, "h": 2, "i": 4, "l": 8}[name]
            if idx < 0:
                raise X.EvalError("negative index")
            p = pos + idx * size
            if p + size > n:
                return 0
            return int.from_bytes(s[p:p + size], "little", signed=True)
        try:
            lens = [X.evaluate(p, elem=elem) for p in progs]
        except X.EvalError as e:
            raise Reject(str(e))
        for ln in lens:
            if ln <= 0:
                raise Reject("non-positive chunk length")
        for ln in lens:
            if pos >= n:
                break
            e = min(pos + ln, n)
            out.append((pos, e))
            pos = e
    return out


def slice_stream(case, s):
    n = len(s)
    sl = case.get("slicer")
    if sl is None:
        sl = ("w", 16, None)
    k = sl[0]
    if k == "w":
        w, m = sl[1], sl[2] or (None, None)
        if w <= 0:
            raise Reject("zero width")
        a0, b0 = eval_range(m, 0, w)
        if a0 >= b0:
            raise Reject("mapped slice is always empty")
        return clip_slices([eval_range(m, i, i + w) for i in range(0, n, w)], n)
    if k == "d":
        pat = sl[1]
        out, p = [], 0
        while True:
            p = s.find(pat, p)
            if p < 0:
                return out
            out.append((p, p + len(pat)))
            p += len(pat)
    if k == "k":
        return walk(s, sl[1])
    if k == "r":
        v = sorted(stream_ranges(sl[1], n))
        return [x for i, x in enumerate(v) if i == 0 or v[i - 1] != x]
    if k == "g":
        out, prev = [], 0
        for off, ln in sl[1]:
            if off < prev:
                raise Reject("unsorted guide")
            prev = off
            if off < n:
                out.append((off, min(off + ln, n)))
        return out
    raise AssertionError(k)


def manipulate(case, s, v):
    n = len(s)
    if case.get("regex") is not None:
        r = re.compile(case["regex"][1].encode("latin-1"))
        out = []
        work = 0
        for a, b in v:
            sub = s[a:b]
            last = -1
            work += b - a
            if work > 4 * MAX_OUTPUT or len(out) > MAX_SLICES:
                raise TooBig()
            for m in r.finditer(sub):
                # an empty match right after the previous match is not a match
                if m.start() == m.end() == last:
                    continue
                last = m.end()
                out.append((a + m.start(), a + m.end()))
        v = sorted(out)
    if case.get("invert") is not None:
        gaps, prev = [], 0
        for a, b in sorted(v):
            if a == b:
                raise Unspecified("inversion of empty slices")
            if a > prev:
                gaps.append((prev, a))
            prev = max(prev, b)
        if prev < n:
            gaps.append((prev, n))
        v = sorted(clip_slices([eval_range(m, a, b) for a, b in gaps for m in case["invert"]], n))
    if case.get("extend") is not None:
        v = sorted(clip_slices([eval_range(m, a, b) for a, b in v for m in case["extend"]], n))
    if case.get("merge") is not None:
        out = []
        for a, b in sorted(v):
            if out and out[-1][1] + case["merge"] >= a:
                out[-1][1] = max(out[-1][1], b)
            else:
                out.append([a, b])
        v = [tuple(x) for x in out]
    if case.get("lines") is not None:
        v = sorted(v)
        keep = union(stream_ranges(case["lines"], len(v)))
        v = [x for a, b in keep for x in v[a:b]]
    return v


def default_cols(case):
    if case.get("outfmt") is not None:
        return 16
    sl = case.get("slicer")
    if sl is None:
        return 16
    if sl[0] == "w":
        a, b = eval_range(sl[2] or (None, None), 0, sl[1])
        return b - a
    return 0


def out_format(case):
    f = case.get("outfmt")
    if f is not None:
        return f
    o = case.get("out")
    if case.get("mode") == "inplace" and (o is None or (o[0] == "o" and o[1] in ("", "-"))):
        return "b"
    return "x"


def run(case, slices_only=False):
    """-> dict(stream=, slices=, stdout=, files={}) or raises Reject / Unspecified.
    For patch-back, 'stdout' is what the command is fed ('fed')."""
    s = edit_stream(case, build_stream(case))
    v = slice_stream(case, s)
    v = manipulate(case, s, v)
    res = {"stream": s, "slices": v, "files": {}, "stdout": b""}
    if slices_only:
        return res
    fmt, cols = out_format(case), default_cols(case)
    if len(v) > MAX_SLICES or sum(max(cols, b - a) for a, b in v) * (1 if fmt == "b" else 4) > (case.get("max_output") or MAX_OUTPUT):
        raise TooBig()
    recs = [hexdump(a, s[a:b], fmt, cols) for a, b in v]
    o = case.get("out")
    if o is None or (o[0] == "o" and o[1] in ("", "-")):
        res["stdout"] = b"".join(recs)
    elif o[0] == "o":
        tmpl = X.parse_template(o[1])
        files, so = {}, []
        for i, ((a, b), r) in enumerate(zip(v, recs)):
            name = X.render(tmpl, {"n": a, "l": i})
            if name in ("", "-"):
                so.append(r)
            else:
                files.setdefault(name, []).append(r)
        res["files"] = {k: b"".join(x) for k, x in files.items()}
        res["stdout"] = b"".join(so)
    else:
        res["fed"] = b"".join(recs)
    return res
