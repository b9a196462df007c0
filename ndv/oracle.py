"""Runs one case on a real binary and compares every observable with the reference model."""
import os
import random
from collections import Counter

from . import gen, model, run
from .harness import Skip, Violation

PIECES = [1, 2, 3, 7, 15, 16, 17, 31, 33, 64, 100, 144, 145, 146, 255, 256, 289, 400, 1000, 4095, 4096, 4097]


def bl(n):
    return n.bit_length()


def gen_delivery(rng, p_pipe=0.5, sleeps=0.02):
    if rng.random() > p_pipe:
        return None
    k = rng.choice([1, 1, 2, 3, 5])
    slp = rng.random() < sleeps
    return [(rng.choice(PIECES) if rng.random() < 0.7 else rng.randrange(1, 3000), rng.choice([0, 0.001, 0.003]) if slp else 0) for _ in range(k)]


def shape(case):
    """which stages a case exercises"""
    t = [case.get("mode", "cat")]
    if case.get("n") not in (None, 1):
        t.append("n")
    for k in ("filler", "infmt", "outfmt"):
        if case.get(k) is not None:
            t.append("%s=%s" % (k[0], case[k] if k != "filler" else "*"))
    for k in ("cut", "pad", "patch", "regex", "invert", "extend", "merge", "lines"):
        if case.get(k) is not None:
            t.append(k)
    if case.get("slicer") is not None:
        t.append("slicer:" + case["slicer"][0])
    if case.get("out") is not None:
        t.append("out:" + case["out"][0])
    return "+".join(t)


def first_diff(a, b):
    n = min(len(a), len(b))
    if a[:n] == b[:n]:
        return n
    lo, hi = 0, n
    while hi - lo > 1:
        m = (lo + hi) // 2
        if a[:m] == b[:m]:
            lo = m
        else:
            hi = m
    return lo


def diff_detail(got, exp):
    i = first_diff(got, exp)
    ln = exp[:i].count(b"\n")
    s = max(0, i - 60)
    return dict(at=i, line=ln, got=bytes(got[s:i + 120]), expected=bytes(exp[s:i + 120]), got_len=len(got), expected_len=len(exp))


def describe(case, key, delivery, r=None):
    d = dict(cmd=run.cmdline(case), binary="-".join(key), delivery=delivery, input_lens=[len(x) for x in case["inputs"]])
    if r is not None:
        d.update(rc=r.rc, stderr=bytes(r.err[:400]))
    if sum(d["input_lens"]) < 20000:
        d["case"] = run.jsonable({k: v for k, v in case.items() if v is not None})
    return d


def assert_clean(r, **d):
    if r.timeout:
        raise Violation("did not terminate", **d)
    if r.crashed:
        raise Violation("crashed (signal, panic or sanitizer report)", **d)


def model_run(case):
    """-> ('ok', result) | ('reject', reason); Skip if unspecified"""
    try:
        return "ok", model.run(case)
    except model.Unspecified:
        raise Skip()
    except model.Reject as e:
        # with --lines, what follows the last kept slice need not be read
        if case.get("lines") is not None and (case.get("slicer") or "w")[0] in "kg":
            raise Skip()
        return "reject", str(e)


def check_case(ctx, rng, case, key=None, delivery="rand", env=None, want=None, timeout=25, wrapper=(), extra=None, slack=0):
    """-> (signature, sample, observed events)"""
    kind, exp = model_run(case)
    text = any((case.get(k) or "b") not in ("b", "nnb") for k in ("infmt",)) or case.get("patch") is not None or (case.get("slicer") or "w")[0] == "g"
    key = key or ctx.pick(rng, want, text)
    if delivery == "rand":
        delivery = gen_delivery(rng)
    r = run.run_case(ctx.bins[key], case, ctx.scratch, delivery, env, timeout, wrapper=wrapper)
    d = describe(case, key, delivery, r)
    assert_clean(r, **d)
    ev = Counter({"executions": 1, "variant:" + "-".join(key): 1, "bytes of output compared": len(r.out),
                  "delivery:" + ("file" if delivery is None else "pipe"): 1})
    if kind == "reject":
        if r.rc == 0:
            raise Violation("accepted what must be rejected (%s)" % exp, **d)
        ev["rejections observed"] += 1
        return (shape(case), "reject", key), {"cmd": d["cmd"], "result": "rejected: " + exp}, ev
    if r.rc != 0:
        raise Violation("rejected a valid invocation", **d)
    if r.out != exp["stdout"]:
        raise Violation("output differs from the specification", **diff_detail(r.out, exp["stdout"]), **d)
    files = r.files or {}
    if case.get("mode") != "inplace" and files != exp["files"]:
        raise Violation("output files differ from the specification", got={k: v[:200] for k, v in files.items()},
                        expected={k: v[:200] for k, v in exp["files"].items()}, **d)
    ev["records compared"] += len(exp["slices"])
    n, m = len(exp["stream"]), len(exp["slices"])
    sig = (shape(case), key, None if delivery is None else bl(delivery[0][0]), bl(n), bl(m)) if m and n else None
    return sig, {"cmd": d["cmd"], "binary": d["binary"], "delivery": delivery, "stream_len": n, "slices": m}, ev


PROD_BLOCK = 2 * 1024 * 1024


def gen_large_data(rng, n):
    k = rng.randrange(4)
    if k == 0:
        return rng.randbytes(n)
    if k == 1:
        u = gen.gen_bytes(rng, rng.choice([1, 3, 7, 4096, 65537]))
        return (u * (n // len(u) + 1))[:n]
    if k == 2:
        b = bytearray(n)
        for _ in range(50):
            p = rng.randrange(n + 1)
            b[p:p + 5] = rng.randbytes(min(5, n - p))
        return bytes(b[:n])
    return bytes(bytearray(rng.choices(b"ab", k=4096)) * (n // 4096 + 1))[:n]


def gen_large_len(rng, maxblocks=4):
    k = rng.choice([1, 1, 2, 2, 3, maxblocks])
    return max(1, k * PROD_BLOCK + rng.choice([0, 0, 1, -1, -16, 16, rng.randrange(-300, 300), rng.randrange(-PROD_BLOCK // 2, PROD_BLOCK // 2)]))


def near_block(rng, n):
    """a position near a multiple of the production block size"""
    p = rng.randrange(0, n // PROD_BLOCK + 1) * PROD_BLOCK + rng.choice([0, 1, -1, 15, -15, 256, -256, rng.randrange(-400, 400)])
    return min(max(p, 0), n)


def large_delivery(rng, p=0.4):
    if rng.random() > p:
        return None
    return [(rng.choice([65536, 65535, 4096, 100000, 1 << 20, rng.randrange(3000, 200000)]), 0) for _ in range(rng.choice([1, 2, 3]))]


def rng_of(*a):
    return random.Random("/".join(map(str, a)))
