"""Checks of the process as a whole: termination, memory, sanitizers, pager, command line."""
import fcntl
import os
import random
import re
import select
import shutil
import signal
import stat
import subprocess
import threading
import time
from collections import Counter

from . import build, expr, gen, model, oracle, run
from .checks import ALL, CHECKS, PROD, SMALL, TEXT, T, V, check
from .checks2 import EVERYTHING, NOBODY, Dir, affordable, env_short, gen_template, needs_text, small
from .harness import CTX, Known, Skip, Violation
from .oracle import PROD_BLOCK, bl, gen_delivery

# ------------------------------------------------- C26 invalid command lines
SHORT = {"in-format": "F", "out-format": "f", "cat": "c", "zip": "z", "inplace": "i", "cut": "n", "pad": "a", "patch": "p", "width": "w", "find": "d", "walk": "k",
         "slice": "r", "guide": "g", "regex": "e", "invert": "v", "extend": "x", "merge": "m", "lines": "l", "output": "o", "patch-back": "P"}
ABBREV = {"cat": "ca", "cut": "cu", "pad": "pad", "width": "wi", "find": "fin", "walk": "wa", "slice": "sl", "guide": "gui", "regex": "reg", "invert": "inv",
          "extend": "ext", "merge": "me", "lines": "li", "zip": "z", "patch-back": "patch-b", "filler": "filler", "in-format": "in-f", "out-format": "out-f"}


def spell(rng, name, value=None):
    """an option in one of its spellings -> list of arguments"""
    k = rng.randrange(5)
    if value is None:
        return ["--" + name] if k < 3 or name not in SHORT else ["-" + SHORT[name]]
    neg = value.startswith("-")
    if k == 0 and name in SHORT and value:
        return ["-%s%s" % (SHORT[name], value)] if not value.startswith("=") else ["--%s=%s" % (name, value)]
    if k == 1 and name in SHORT and not neg:
        return ["-" + SHORT[name], value]
    if k == 2 and not neg:
        return ["--" + name, value]
    if k == 3 and name in ABBREV:
        return ["--%s=%s" % (ABBREV[name], value)]
    return ["--%s=%s" % (name, value)]


VALID = {
    "cat": ["1", "4", "0x10"], "zip": ["1", "3", "1 << 2"], "cut": ["1..5", "s..e", "3..e-1,5..9"], "pad": ["1,2", "0,0", "7"], "patch": ["_patch"],
    "width": ["3", "16,s-2..e", "4,s..e+3"], "find": ["61", "61 62"], "walk": ["3", "1,2", "(b[0] & 3) + 1"], "slice": ["1..5", "s..e", "2..4,8..e"],
    "guide": ["_guide"], "regex": ["a+", "[0-9]"], "invert": ["s..e", "s-1..e+1"], "extend": ["s-1..e+2", "s..e"], "merge": ["0", "4"], "lines": ["0..3", "..e-1"],
    "filler": ["0", "255", "0x20"], "in-format": ["b"], "out-format": ["x", "b", "nnx"],
}
BAD_NUM = ["", "abc", "1+", "(1", "1)", "1 2", "1..2", "x", "n", "s", "b[0]", "0x", "4/0", "1,,2", "--", "'1'", "99999999999999999999", "0b2", "08", "\u00e9"]
BAD_RANGE = ["1", "1...2", "a..b", "1..2..3", "s*2..e", "s+e..e", "1..2,,3..4", "n..e", "1:5", "1-5", "s..e-", "(s..e)", "s..e x", "..(", "s..2*e", "-s..e", "1..4/0", "b[0]..e"]
INVALID = {
    "cat": BAD_NUM + ["0", "-1", "2-2"], "zip": BAD_NUM + ["0", "-3", "2-2"], "merge": BAD_NUM + ["-1", "0-1"], "filler": BAD_NUM + ["256", "-1", "0x100", "1000000", "4294967296"],
    "pad": ["1,2,3", "-1,0", "0,-1", "a,b", "1,x", "1;2", "1 2", "99999999999999999999,0", "1/0,1"],
    "width": [x for x in BAD_NUM if x != "1,,2"] + ["0", "-4", "4,s..e,s..e", "4,", "4,x", "4,e..s", "4,s..s", "4,s+2..s+1"] + ["4," + x for x in BAD_RANGE if "," not in x],
    "cut": BAD_RANGE, "slice": BAD_RANGE, "invert": BAD_RANGE, "extend": BAD_RANGE, "lines": BAD_RANGE,
    "find": ["zz", "g1", "61 zz", "0x61", "61,62"],
    "walk": ["b[(0]", "(b[0)]", "b[0)", "b[b[0]", "(1", "1]", "", "q", "b", "b[", "b[0", "b]", ")", "1+", "s", "n", "1,,2", "b[0] b[1]", "c[0]", "1/0"],
    "regex": ["(", "[", "a{2,1}", "*a", "(?P<x", "\\", "a)"],
    "in-format": ["", "q", "zzz", "xxxx", "x,x,x,x", "hex", "bb", "xb", "B", "X"], "out-format": ["", "q", "zzz", "xxxx", "x,x,x,x", "hex", "bb", "xb", "B", "X"],
    "output": ["v_{q}", "v_{(n}", "v_{(n+)}", "v_{n:Q}", "v_{(x)}", "{n+1}", "v_{q{n}", "{n 1}", "{(n)1}", "v_{n}_{m}", "v_{b[0]}"],
    "nope": [None], "wodth": ["3"], "in": ["x"], "p": ["x"], "out": ["v"],
}
SLICERS = ["width", "find", "walk", "slice", "guide"]


def c26_fault(rng):
    """-> (kind, option arguments, FILE arguments | None, inplace or not | None)"""
    k = rng.randrange(10)
    if k < 4:
        name = rng.choice(sorted(INVALID))
        v = rng.choice(INVALID[name])
        return "invalid --" + name, spell(rng, name, v) if name in SHORT else ["--" + name + ("" if v is None else "=" + v)], None, False if name in ("cat", "zip") else None
    if k < 6:
        a, b = rng.sample(SLICERS, 2)
        return "exclusive --%s --%s" % tuple(sorted([a, b])), spell(rng, a, rng.choice(VALID[a])) + spell(rng, b, rng.choice(VALID[b])), None, None
    if k == 6:
        a, b = rng.sample(["cat", "zip", "inplace"], 2)
        f = lambda x: spell(rng, x, rng.choice(VALID[x]) if x in VALID else None)
        return "exclusive --%s --%s" % tuple(sorted([a, b])), f(a) + f(b), None, "inplace" in (a, b)
    if k == 7:
        if rng.random() < .5:
            return "exclusive --output --patch-back", spell(rng, "output", rng.choice(["new", "keep0", "v_{l}", "-"])) + spell(rng, "patch-back", "touch cmd_ran; cat"), None, None
        return "--inplace with --output", spell(rng, "inplace") + spell(rng, "output", rng.choice(["new", "keep0", "v_{l}", "v_{n:04x}"])), None, True
    std = lambda: rng.choice(["-", "/dev/stdin"])
    j = rng.randrange(8)
    if j == 0:
        return "stdin twice: FILE FILE", [], [std(), std()], False
    if j == 1:
        return "stdin twice: FILE ... FILE", [], [std(), "_in0", std()], False
    if j == 2:
        return "stdin twice: patch and FILE", spell(rng, "patch", std()), rng.choice([[std()], ["_in0", std()], [std(), "_in0"]]), False
    if j == 3:
        return "stdin twice: guide and FILE", spell(rng, "guide", std()), rng.choice([[std()], ["_in0", std()]]), False
    if j == 4:
        return "stdin twice: patch and guide", spell(rng, "patch", std()) + spell(rng, "guide", std()), None, None
    if j == 5:
        return "stdin twice: default input", spell(rng, rng.choice(["patch", "guide"]), std()), [], False
    if j == 6:
        return "stdin with --inplace", spell(rng, "inplace"), rng.choice([[std()], ["_in0", std()], [std(), "_in0"]]), True
    return "stdin twice: patch of several files", spell(rng, "inplace") + spell(rng, rng.choice(["patch", "patch", "guide"]), std()), ["_in0", "_in1"], True


def listing(d):
    out = {}
    for n in sorted(os.listdir(d)):
        p = os.path.join(d, n)
        st = os.lstat(p)
        with open(p, "rb") as f:
            out[n] = (st.st_ino, stat.S_IMODE(st.st_mode), st.st_mtime_ns, f.read())
    return out


def c26_case(rng, ctx):
    kind, bad, files, inplace = c26_fault(rng)
    used = set(re.findall(r"--([a-z-]+)", kind)) | ({"patch", "guide"} if "stdin" in kind else set())
    for a in bad:      # abbreviations and short options
        used |= {n for n in VALID if a[:2] == "-" + SHORT.get(n, "?") or a.startswith("--" + ABBREV.get(n, "?"))}
    if inplace is None:
        inplace = rng.random() < .25
        if inplace:
            bad = bad + spell(rng, "inplace")
    opts = []
    for name in rng.sample(sorted(VALID), rng.randrange(0, 5)):
        if name in used or name in ("cat", "zip") and (inplace or used & {"cat", "zip"} or any(o[0] in ("cat", "zip") for o in opts)):
            continue
        if name in SLICERS and (used & set(SLICERS) or any(o[0] in SLICERS for o in opts)):
            continue
        if name in ("patch", "guide") and "stdin" in kind:
            continue
        opts.append((name, spell(rng, name, rng.choice(VALID[name]))))
    drain = []
    if not used & {"output", "patch-back"}:
        r = rng.random()
        if r < .3 and not inplace:
            drain = spell(rng, "output", rng.choice(["new", "keep0", "v_{l}", "v_{n:04x}"]))
        elif r < .5:
            drain = spell(rng, "patch-back", "touch cmd_ran; cat")
    parts = [o[1] for o in opts] + [drain]
    base_args = [x for p in parts for x in p] + (["-i"] if inplace and not bad else [])
    parts.insert(rng.randrange(len(parts) + 1), bad)
    argv = [x for p in parts for x in p]
    if files is None:
        files = ["_in0"] + (["_in1"] if rng.random() < .3 else [])
    pos = rng.random() < .2
    argv = list(files) + argv if pos else argv + list(files)
    data = {"_in0": gen.gen_bytes(rng, rng.choice([5, 60, 3000])), "_in1": gen.gen_bytes(rng, 40), "_patch": b"1 1 | 62\n", "_guide": b"0 3\n4 2\n", "keep0": b"precious", "v_0": b"precious too"}
    key = ctx.pick(rng)
    stdin = b"2 1 | 63\n" if rng.random() < .7 or "stdin" in kind else b""
    with Dir(ctx, data) as d:
        before = listing(d.p)
        r = run.execute([ctx.bins[key], *argv], d.p, stdin, None, None, user=NOBODY)
        after = listing(d.p)
        det = dict(argv=argv, kind=kind, binary="-".join(key), rc=r.rc, stderr=r.err[:400], stdout=r.out[:300])
        oracle.assert_clean(r, **det)
        if r.rc == 0:
            raise Violation("an invalid command line is accepted", **det)
        if r.out:
            raise Violation("an invalid command line is refused only after something was written to stdout", **det)
        if not r.err.strip():
            raise Violation("an invalid command line is refused without a message", **det)
        if before != after:
            diff = [n for n in sorted(set(before) | set(after)) if before.get(n) != after.get(n)]
            raise Violation("an invalid command line is refused only after files were created, changed or removed", changed=diff, **det)
        ev = Counter({"refused: " + kind: 1, "mode: " + ("in place" if inplace else "files" if drain and "touch" not in drain[-1] else "command" if drain else "stdout"): 1})
        # the rest of the command line is valid, so that it is the fault which is refused
        if rng.random() < .15 and "-i" not in bad and "--inplace" not in bad and not any("touch" in x for x in base_args):
            r = run.execute([ctx.bins[key], *base_args, "_in0"], d.p, b"", None, None, user=NOBODY)
            oracle.assert_clean(r, argv=base_args)
            if r.rc != 0:
                raise Violation("a valid command line is refused", argv=base_args, stderr=r.err[:300], stdout=r.out[:300])
            ev["valid counterparts accepted"] += 1
    return (kind, bad[0][:2] if bad else "", inplace, bool(drain)), {"argv": argv, "message": r.err[:100].decode(errors="replace")}, ev


def c26_grid(rng, ctx):
    """every malformed value of every option, and every pair of exclusive options, in every mode"""
    ev = Counter()
    items = [("invalid --" + n, ["--" + n + ("" if v is None else "=" + v)], ["_in0"]) for n in INVALID for v in INVALID[n]]
    items += [("exclusive", ["--%s=%s" % (a, VALID[a][0]), "--%s=%s" % (b, VALID[b][0])], ["_in0"]) for i, a in enumerate(SLICERS) for b in SLICERS[i + 1:]]
    items += [("exclusive", x, ["_in0"]) for x in (["-c1", "-z1"], ["-c1", "-i"], ["-z1", "-i"], ["-o", "-", "-P", "cat"], ["-o", "", "-P", "cat"], ["-i", "-o", "new"], ["-i", "-o", "v_{l}"])]
    for a in ("-", "/dev/stdin"):
        for b in ("-", "/dev/stdin"):
            items += [("stdin", [], [a, b]), ("stdin", [], [a, "_in0", b]), ("stdin", ["-p", a], [b]), ("stdin", ["-g", a], [b]), ("stdin", ["-p", a, "-g", b], ["_in0"])]
        items += [("stdin", ["-p", a], []), ("stdin", ["-g", a], []), ("stdin", ["-i"], [a]), ("stdin", ["-i", "-p", a], ["_in0", "_in1"]), ("stdin", ["-i"], ["_in0", a])]
    rng.shuffle(items)
    data = {"_in0": b"abcabc", "_in1": b"1234", "_patch": b"1 1 | 62\n", "_guide": b"0 3\n", "keep0": b"precious"}
    with Dir(ctx, data) as d:
        before = listing(d.p)
        for kind, bad, files in items[:60]:
            mode = rng.choice([[], ["-o", "keep0"], ["-o", "v_{l}"], ["-P", "touch cmd_ran; cat"], ["-i"]])
            has = " ".join(bad)
            if mode[:1] == ["-i"] and (kind == "stdin" or "-i" in bad or re.search("--(cat|zip)|-c1|-z1", has)) or mode[:1] in (["-o"], ["-P"]) and re.search("-o|-P|--out|-i", has):
                mode = []
            argv = [*mode, *bad, *files]
            key = ctx.pick(rng)
            r = run.execute([ctx.bins[key], *argv], d.p, b"2 1 | 63\n", None, None, user=NOBODY)
            det = dict(argv=argv, kind=kind, binary="-".join(key), rc=r.rc, stderr=r.err[:400], stdout=r.out[:300])
            oracle.assert_clean(r, **det)
            if r.rc == 0:
                raise Violation("an invalid command line is accepted", **det)
            if r.out or not r.err.strip():
                raise Violation("an invalid command line is refused without a message, or after something was written to stdout", **det)
            after = listing(d.p)
            if after != before:
                raise Violation("an invalid command line is refused only after files were created, changed or removed", changed=[n for n in sorted(set(before) | set(after)) if before.get(n) != after.get(n)], **det)
            ev["refused: " + kind] += 1
    return ("grid", tuple(sorted({i[0] for i in items[:60]}))), None, ev


@check("C26")
def c26(c):
    c.rule = ("command lines with one fault (exclusive options, several uses of stdin, out-of-domain numbers, malformed ranges, formats, expressions, regexes, templates, unknown and ambiguous options) "
              "mixed into valid options in random spellings and order, with output to stdout, files, a command or in place, next to files with content; the monitor requires a non-zero status, a message, "
              "an empty stdout and an unchanged directory (names, contents, modes, inodes, times); distinct = new (fault, spelling, mode)")
    c.assumptions = ["a pager named together with an invalid pipeline is started before the refusal, which the statement does not exclude; it is not driven here"]
    c.build(ALL)
    c.fuzz("faults", c26_case, 10**7, T(c, 20, 240))
    c.fuzz("grid", c26_grid, 10**7, T(c, 12, 120))


# ------------------------------------------------------------------- C25 pager
def pager_script(tag, take, linger, status, slow):
    """records what it gets, and leaves `done` behind as its very last action"""
    rd = {None: "cat > got_%s" % tag, 0: ":"}.get(take, "head -c %s > got_%s" % (take, tag))
    if slow:
        rd = "sleep %.2f; " % slow + rd
    return ("#!/bin/sh\necho \"$*\" > args_%s\n%s\nexec 0</dev/null\nsleep %.2f\necho done > done_%s\nexit %d\n" % (tag, rd, linger, tag, status)).encode()


def c25_case(rng, ctx, large=False):
    if large:
        n = oracle.gen_large_len(rng, 2)
        case = {"mode": "cat", "n": None, "inputs": [oracle.gen_large_data(rng, n)], "outfmt": rng.choice(["b", "x"])}
        key = ctx.pick(rng, lambda k: k[1] == "prod")
    else:
        case, s = gen.gen_pipeline(rng, {**EVERYTHING, "text": .1}, rng.choice([145, 4096]))
        key = ctx.pick(rng, None, needs_text(case))
    affordable(case)
    r = rng.random()
    if r < .12:
        case["out"] = ("o", rng.choice(["out", "-"] if large else ["v_{l}", "out", "v_{(n & 3)}", "-"]))
    elif r < .24:
        case["out"] = ("P", rng.choice(["cat", "sed -n 1,3p", "true"]))
        case["regex"] = case["invert"] = case["extend"] = None
        case["slicer"], case["outfmt"] = ("w", rng.choice([1000, 4096] if large else [3, 16]), None), None
        key = ctx.pick(rng, PROD if large else None, True)
    args, files = run.build_args(case)
    names = ["_in%d" % i for i in range(len(case["inputs"]))]
    if not large and rng.random() < .1:
        # fails at some point of the stream
        args = [a for a in args if not a.startswith(("--width", "--find", "--walk", "--slice", "--guide"))] + ["--walk=(b[0] & 7) - %d" % rng.choice([0, 1])]
    kind = rng.choice(["full", "full", "full", "early", "early", "none"])
    take = {"full": None, "early": rng.choice([1, 10, 100, 4096]), "none": 0}[kind]
    linger = rng.choice([0, 0, .05, .15])
    slow = rng.choice([0, 0, .05])
    files["opt.sh"] = pager_script("opt", take, linger, rng.choice([0, 0, 3]), slow)
    files["env.sh"] = pager_script("env", take, linger, rng.choice([0, 0, 3]), slow)
    inplace = case.get("out") is None and rng.random() < .12 and case["mode"] == "cat" and case.get("n") is None
    argv = list(args)
    if inplace:
        argv.append("-i")
        names = names[:1]
    sp = lambda t: rng.choice(["sh %s.sh", "sh  %s.sh", " sh %s.sh ", "sh\t%s.sh"]) % t
    extra = rng.choice([[], ["a", "-b", "c=d"]])
    how = rng.choice(["opt", "opt", "env", "env", "both", "blank env", "blank opt"])
    env, who = {}, None
    if how in ("opt", "both"):
        o = " ".join([sp("opt"), *extra])
        at = rng.choice([0, len(argv)])
        argv[at:at] = rng.choice([["--pager", o], ["--pager=" + o], ["--pag=" + o]])
        who = "opt"
    if how == "blank opt":
        argv.append("--pager=" + rng.choice(["", " "]))
    if how in ("env", "both"):
        env["PAGER"] = " ".join([sp("env"), *extra])
        who = who or "env"
    if how == "blank env":
        env["PAGER"] = rng.choice(["", " ", "\t"])
    ev = Counter()
    stdin = None
    if not inplace and rng.random() < .3:
        stdin = case["inputs"][-1]
        names[-1] = "-"
    plan = gen_delivery(rng, 1) if stdin is not None else None
    cmd = [ctx.bins[key], *argv, *names]
    det = dict(argv=argv + names, env=env, binary="-".join(key), pager=files["%s.sh" % who] if who else None)
    with Dir(ctx, files) as d0:
        # what would have gone to stdout
        base = run.execute([ctx.bins[key], *args, *(["-i"] if inplace else []), *names], d0.p, stdin, plan, None, user=None)
        f0 = run.snapshot(d0.p)
    oracle.assert_clean(base, argv=args + names)
    with Dir(ctx, files) as d:
        r = run.execute(cmd, d.p, stdin, plan, env)
        done = who is not None and os.path.exists(d.path("done_" + who))
        got = d.get("got_" + who) if who and os.path.exists(d.path("got_" + who)) else b""
        ran = [t for t in ("opt", "env") if os.path.exists(d.path("args_" + t))]
        pargs = d.get("args_" + who).decode().split() if who and who in ran else None
        f1 = run.snapshot(d.p)
    det.update(rc=r.rc, stderr=r.err[:300], stdout=r.out[:200], base_rc=base.rc, base_stderr=base.err[:200])
    oracle.assert_clean(r, **det)
    mine = lambda f: {k: v for k, v in f.items() if not re.match(r"(got|args|done)_", k)}
    if inplace:
        if ran or r.out != base.out or r.rc != base.rc or mine(f0) != mine(f1):
            raise Violation("a pager is not ignored by --inplace", started=ran, **det)
        return ("inplace", how, r.rc), {"argv": argv + names}, Counter({"in place: pager ignored": 1})
    if who is None:
        if ran or r.out != base.out or (r.rc != base.rc):
            raise Violation("a blank pager is not taken for none", started=ran, **det)
        return ("blank", how), {"argv": argv + names}, Counter({"blank pager: stdout": 1})
    if ran != [who]:
        raise Violation("the wrong pager is started (the option goes before the environment)", started=ran, wanted=who, **det)
    if not done:
        raise Violation("nd ends before its pager has ended", **det)
    if pargs != extra:
        raise Violation("the pager does not get its arguments", got=pargs, wanted=extra, **det)
    if r.out:
        raise Violation("with a pager, nd writes to stdout as well", **det)
    if take is None:
        if base.rc == 0:
            if got != base.out:
                raise Violation("the pager does not get exactly what would have gone to stdout", **oracle.diff_detail(got, base.out), **det)
            if r.rc != 0:
                raise Violation("nd fails with a pager, and not without", **det)
            if mine(f0) != mine(f1):
                raise Violation("the files written differ with a pager", **det)
            ev["complete outputs"] += 1
            ev["bytes through pagers"] += len(got)
        else:
            if r.rc == 0:
                raise Violation("nd succeeds with a pager, and fails without", **det)
            # how much comes out before the error depends on how the input arrives
            if not (got.startswith(base.out) or base.out.startswith(got)) and not (case.get("out") or (0,))[0] == "P":
                raise Violation("the pager does not get what would have gone to stdout before the error", **oracle.diff_detail(got, base.out), **det)
            ev["failing pipelines"] += 1
    else:
        m = min(take, len(base.out))
        if base.rc == 0 or len(base.out) >= take + 3 * PROD_BLOCK:
            if got != base.out[:m]:
                raise Violation("an early-quitting pager does not get the head of the output", **oracle.diff_detail(got, base.out[:m]), **det)
            if base.rc == 0 and (r.rc != 0 or b"error" in r.err.lower()):
                raise Violation("a pager which quits early is not taken quietly", **det)
        ev["early quitting pagers" + (" (output behind)" if len(base.out) > take + 70000 else "")] += 1
    ev["named by: " + how] += 1
    return (kind, how, bool(linger), oracle.shape(case), bl(len(base.out)), base.rc), {"argv": argv + names, "env": env}, ev


def c25_large(rng, ctx):
    return c25_case(rng, ctx, True)


def c25_tty(rng, ctx):
    """on a terminal: `less -S -F -X` unless another pager is named"""
    import pty
    data = gen.gen_bytes(rng, rng.choice([0, 5, 100, 3000]), "print")
    files = {"_in0": data, "less": pager_script("less", None, 0, 0, 0), "opt.sh": pager_script("opt", None, 0, 0, 0)}
    how = rng.choice(["default", "default", "opt", "env"])
    key = ctx.pick(rng)
    with Dir(ctx, files) as d:
        os.chmod(d.path("less"), 0o755)
        base = run.execute([ctx.bins[key], "_in0"], d.p)
        env = {**run.ENV, "PATH": d.p + ":" + run.ENV["PATH"]}
        argv = [ctx.bins[key]]
        if how == "opt":
            argv += ["--pager", "sh opt.sh -z"]
        if how == "env":
            env["PAGER"] = "sh opt.sh -z"
        m, s = pty.openpty()
        try:
            p = subprocess.Popen([*argv, "_in0"], cwd=d.p, env=env, stdin=subprocess.DEVNULL, stdout=s, stderr=subprocess.PIPE, start_new_session=True)
            try:
                _, err = p.communicate(timeout=60)
            except subprocess.TimeoutExpired:
                p.kill()
                p.communicate()
                raise Violation("nd does not end on a terminal", how=how)
        finally:
            os.close(s)
            os.close(m)
        tag = "less" if how == "default" else "opt"
        snap = run.snapshot(d.p)
        det = dict(how=how, rc=p.returncode, stderr=err[:300], files=sorted(snap), args=snap.get("args_" + tag), binary="-".join(key))
        if p.returncode != 0 or "args_" + tag not in snap or "done_" + tag not in snap:
            raise Violation("the pager is not run to its end on a terminal", **det)
        want = {"-S", "-F", "-X"} if tag == "less" else {"-z"}
        if set(snap["args_" + tag].decode().split()) != want or snap["got_" + tag] != base.out:
            raise Violation("on a terminal the pager is started in another way than documented, or gets something else than the output", got=snap["got_" + tag][:300], **det)
    return ("tty", how, bl(len(data))), {"how": how, "args": sorted(want)}, Counter({"terminal: " + how: 1})


@check("C25")
def c25(c):
    c.rule = ("random pipelines with recording pagers (complete, early-quitting, never-reading, slow, lingering after their input has ended, failing) named by option, environment, both or blank, and on a "
              "pseudo terminal; the monitor compares what the pager got with what nd writes to stdout without one, and requires the last action of the pager to have happened when nd ends; "
              "distinct = new (pager kind, way of naming, linger, stages, output size, status)")
    c.build(ALL)
    c.fuzz("pipelines", c25_case, 10**7, T(c, 24, 240))
    c.fuzz("large", c25_large, 10**6, T(c, 8, 90))
    c.fuzz("terminal", c25_tty, 10**6, T(c, 4, 40))


# ------------------------------------------- C21 termination, no panic, no crash
HUGE = [2**63 - 1, 2**63 - 2, 2**62, 2**60, 2**59, 2**53, 10**15, 2**48, 2**40, 2**33, 2**32, 2**31, 2**31 - 1, 10**9]
COMMANDS = ["cat", "true", "false", "head -c 10", "sh -c 'exit 3'", "nonexistent_cmd", "", "sed q", "cat >/dev/null", "echo '", "echo zzz", "printf '0 1 | 61\\n'", "printf 'ffffffffffffffff 1 | 61\\n'",
            "cat; printf 'x'", "yes | head -n 100", "exec 0<&-; cat", "kill -9 $$", "(", "tac", "head -c 70000 /dev/zero"]
PAGERS = ["cat", "true", "false", "head -c 10", "nonexistent_cmd", "", " ", "sh -c 'exit 3'", "."]
EXPR_CHARS = "0123456789abefhilnsx()[]+-*/%&|^~<>=!?:. ,kMGTPEi_'\"\\{}#"


class Args:
    """a random argument vector; `huge` tells that a number beyond the memory may be in it"""

    def __init__(self, rng, cap=False):
        self.rng, self.huge, self.cap = rng, False, cap

    def num(self):
        r = self.rng
        k = r.random()
        if k < .5:
            return str(r.choice([0, 1, 2, 3, 4, 7, 8, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 145, 255, 256, 300, 1000, 4095, 4096, 4097]))
        if k < .6:
            return "-" + str(r.choice([1, 2, 16, 100, 5000]))
        if k < .75:
            return self.expr(2)
        if k < .88 and not self.cap:
            self.huge = True
            v = r.choice(HUGE) + r.choice([0, 0, 1, -1, -16, -255])
            v = min(v, 2**63 - 1)
            return r.choice(["%d", "0x%x", "%d", "-%d", "-%d-1"]) % v
        if k < .93:
            return self.garbage()
        return r.choice(["0x10", "0b101", "010", "1k", "1ki", "0o17", "0d9", "1_000"])

    def small(self):
        return str(self.rng.randrange(0, 40))

    def garbage(self):
        r = self.rng
        k = r.random()
        self.huge = True
        if k < .2:
            return ""
        if k < .3:
            return "".join(chr(r.choice([0x20, 0x7f, 0xe9, 0x3b1, 0x1f600, 0x2028, 9, 10])) for _ in range(r.randrange(1, 5)))
        return "".join(r.choices(EXPR_CHARS, k=r.choice([1, 2, 3, 5, 10, 30])))

    def expr(self, depth, names=()):
        r = self.rng
        if depth == 0 or r.random() < .25:
            if names and r.random() < .6:
                n = r.choice(names)
                return n if len(n) > 1 or n not in "bhil" else "%s[%s]" % (n, self.expr(depth - 1 if depth else 0, names) if r.random() < .4 else str(r.choice([0, 1, 2, 7, 8, 100, 300])))
            return r.choice(["0", "1", "2", "3", "7", "15", "16", "63", "64", "255", "0x100"])
        k = r.random()
        if k < .15:
            return "%s%s" % (r.choice("+-~!"), self.expr(depth - 1, names))
        if k < .35:
            return "(%s)" % self.expr(depth - 1, names)
        op = r.choice(["+", "-", "*", "/", "%", "&", "|", "^", "<<", ">>", "<", ">", "<=", ">=", "**", "&&", "||", "==", "!=", "?"])
        if op in ("<<", "*", "**", "-", "~", "!"):
            self.huge = True
        return "%s %s %s" % (self.expr(depth - 1, names), op, self.expr(depth - 1, names))

    def anchor(self, span=30):
        r = self.rng
        k = r.random()
        if k < .1:
            return ""
        if k < .85:
            a = r.choice(["", "s+", "s-", "e-", "e+", "s + ", "e - "])
            return r.choice(["s", "e"]) if r.random() < .2 else a + (self.num() if r.random() < .3 else str(r.randrange(span)))
        if k < .93:
            return self.expr(2, ("s", "e"))
        return self.garbage()

    def range(self):
        return self.anchor() + self.rng.choice(["..", "..", "..", "..", "..", "..", "...", ".", ""]) + self.anchor()

    def ranges(self):
        return ",".join(self.range() for _ in range(self.rng.choice([1, 1, 1, 2, 3, 10]))) + self.rng.choice(["", "", "", ","])

    def fmt(self):
        r = self.rng
        if r.random() < .7:
            return r.choice(["x", "b", "d", "nnx", "nnb", "xxx", "ddx"])
        if r.random() < .7:
            return "".join(r.choices("nbdx<>=@!i,", k=r.randrange(0, 6)))
        return self.garbage()

    def template(self):
        r = self.rng
        t = ""
        for _ in range(r.randrange(1, 4)):
            k = r.random()
            if k < .4:
                t += "".join(r.choices("abc_-.", k=r.randrange(0, 4)))
            elif k < .8:
                t += "{%s%s}" % (r.choice(["n", "l", "(%s)" % self.expr(2, ("n", "l")), "(%s)" % self.expr(3, ("n", "l"))]),
                                 r.choice(["", "", ":x", ":04x", ":#b", ":>10", ":+", ":e", ":.3", ":1000", ":*^20", ":?", ":_", ":<5d", ":X", ":o"]))
            else:
                t += "".join(r.choices("{}():nl+x0", k=r.randrange(0, 6)))
        return t.replace("/", "").replace("\0", "")

    def value(self, name):
        r = self.rng
        if r.random() < .06:
            return self.garbage()
        if name in ("cat", "zip", "merge", "filler"):
            return self.num()
        if name == "pad":
            return self.num() + r.choice([",", ",", ",", "", ",,"]) + self.num()
        if name == "width":
            return self.num() + (("," + self.range()) if r.random() < .5 else "")
        if name in ("cut", "slice", "invert", "extend", "lines"):
            return self.ranges()
        if name == "walk":
            return ",".join(self.expr(r.randrange(0, 4), ("b", "h", "i", "l")) if r.random() < .8 else self.num() for _ in range(r.choice([1, 1, 2, 3])))
        if name == "find":
            return r.choice(["61", "61 62", "00 00", "61 6", "6", "zz", "", " 61", "61  62", " ".join(["61"] * r.choice([15, 16, 17, 31, 47, 48, 49, 63, 64, 65, 100])), "a" * 300])
        if name == "regex":
            return r.choice([x[0] for x in gen.REGEXES] + ["", "^", "$", "(", ".*", "(?s).*", "a{1,1000}", "(a|b)*c", r"\b", "(?i)A", "[^", "x*", "(?-u:.)*", "((((((((((a*)*)*)*)*)*)*)*)*)*)*", r"\pL+", "(?x) a b"])
        if name in ("patch", "guide"):
            return r.choice(["_patch", "_patch", "_text", "_in0", "-", "missing", "", ".", "/dev/null"])
        if name in ("in-format", "out-format"):
            return self.fmt()
        if name == "output":
            return self.template()
        if name == "patch-back":
            return r.choice(COMMANDS)
        if name == "pager":
            return r.choice(PAGERS)
        return self.garbage()


def hostile_text(rng, hugeok):
    """records, mutated -> (bytes, huge)"""
    recs, o = [], 0
    for _ in range(rng.choice([0, 1, 2, 5, 20])):
        m = rng.choice([0, 1, 2, 15, 16, 17, 48, 64, 65, 300])
        o += rng.choice([0, 0, 0, 1, 50])
        recs.append((o, rng.choice([m, m, m, 0, rng.randrange(0, 300)]), rng.randbytes(m)))
        o += m
    t = bytearray(gen.render_records(rng, recs))
    huge = False
    for _ in range(rng.choice([0, 0, 1, 2, 5])):
        p = rng.randrange(len(t) + 1)
        k = rng.randrange(8)
        if k < 2:
            t[p:p + 1] = bytes([rng.choice(b"0123456789abcdefABCDEF |\n:gGzZ/@`~!-\x00\x7f\x80\xff\t\r")])
        elif k == 2:
            del t[p:p + rng.choice([1, 2, 3, 16])]
        elif k == 3:
            t[p:p] = rng.choice([b"\n\n\n", b" " * 300, b"|" * 40, b"0" * 100, b"\xff" * 64, b"\r\n", b"61 " * 200, b"6" * 300, b"|", b" | "])
        elif k == 4:
            t = t[:p]
        elif k == 5 and hugeok:
            huge = True
            ls = t.split(b"\n")
            ls.insert(rng.randrange(len(ls) + 1), rng.choice([b"ffffffffffffffff 1 | 61", b"7fffffffffffffff 1 | 61", b"0 ffffffffffffffff | 61", b"8000000000000000 8000000000000000 | 61", b"fffffffffffffffff 1 | 61",
                                                             b"0 7fffffffffffffff", b"ffffffff ffffffff | 61", b"fffffffffffffff0 f | 61 62", b"1000000000 1 | 61", b"0 fffffffff | "]))
            t = bytearray(b"\n".join(ls))
        elif k == 6:
            ls = t.split(b"\n")
            rng.shuffle(ls)
            t = bytearray(b"\n".join(ls))
        else:
            t += t[:rng.randrange(len(t) + 1)]
    if rng.random() < .05:
        t = bytearray(rng.randbytes(rng.randrange(0, 500)))
    huge = huge or any(len(x.lstrip(b"0")) > 6 for x in re.findall(rb"[0-9a-fA-F]+", bytes(t)))
    return bytes(t), huge


NAMES = sorted(SHORT) + ["filler", "pager"]


def c21_vector(rng):
    """-> (argv without FILEs, huge)"""
    k = rng.random()
    if k < .35:
        for _ in range(20):
            case, _ = gen.gen_pipeline(rng, {**EVERYTHING, "multi": 0}, rng.choice([16, 145, 4096]))
            argv, files = run.build_args(case)
            if len(argv) > 1:
                break
        g = Args(rng)
        for _ in range(rng.choice([0, 1, 1, 2, 3])):
            j = rng.randrange(6)
            i = rng.randrange(len(argv)) if argv else 0
            if not argv:
                break
            if j == 0:
                del argv[i]
            elif j == 1:
                argv.insert(i, argv[rng.randrange(len(argv))])
            elif j == 2 and argv[i]:
                p = rng.randrange(len(argv[i]))
                argv[i] = argv[i][:p] + rng.choice(EXPR_CHARS) + argv[i][p + rng.randrange(2):]
                g.huge = True
            elif j == 3 and "=" in argv[i]:
                n = argv[i].split("=")[0].lstrip("-")
                argv[i] = "--%s=%s" % (n, g.value(n))
            elif j == 4 and argv[i]:
                p = rng.randrange(len(argv[i]))
                argv[i] = argv[i][:p] + argv[i][p + 1:]
            else:
                n = rng.choice(NAMES)
                argv[i:i] = ["--inplace"] if n == "inplace" else ["--%s=%s" % (n, g.value(n))]
        return argv, g.huge
    g = Args(rng)
    argv = []
    pool = [n for n in NAMES if not (n in SLICERS or n in ("cat", "zip", "inplace") or n in ("output", "patch-back", "pager"))]
    names = rng.sample(pool, rng.choice([0, 0, 1, 1, 2, 3, 5]))
    if rng.random() < .7:
        names.append(rng.choice(SLICERS))
    if rng.random() < .3:
        names.append(rng.choice(["cat", "zip", "inplace"]))
    if rng.random() < .35:
        names.append(rng.choice(["output", "patch-back", "output", "patch-back", "pager"]))
    if rng.random() < .1:
        names.append(rng.choice(NAMES))
    rng.shuffle(names)
    for n in names:
        argv += ["--inplace"] if n == "inplace" else spell(rng, n, g.value(n)) if n in SHORT else ["--%s=%s" % (n, g.value(n))]
    if rng.random() < .03:
        argv.insert(rng.randrange(len(argv) + 1), rng.choice(["--", "-", "---", "-h", "--help", "-V", "--version", "-wq", "-ii", "-", "\u00e9", "--width", b"\xff\xfe", "-P"]))
    return argv, g.huge


SAFE_P = re.compile(r"^-(?:P|-patch-|-pag)")


def unsafe(argv):
    """mutations may have made up commands or paths: only the listed ones are run"""
    prev = None
    for a in argv:
        a = a.decode("latin-1") if isinstance(a, bytes) else a
        vals = []
        if re.match(r"-[a-zA-Z]*P|--pat|--pag|--p=|--pa=|--o|-[a-zA-Z]*o", a):
            if a.startswith("--"):
                vals = a.split("=", 1)[1:]
            else:
                vals = [re.sub(r"^-[a-zA-Z]*?[Po]=?", "", a)]
        if prev is not None and re.match(r"-[a-zA-Z]*[Po]$|--pat|--pag|--p$|--pa$|--o", prev):
            vals.append(a)
        for v in vals:
            if v and v not in COMMANDS and v not in PAGERS and v not in ("_patch", "missing", ".", "/dev/null", "-", "_text", "_in0") and (not re.match(r"^[\w.{}():+\-*%&|^<>=!?#~ \[\]]*$", v)):
                return True
        prev = a
    return False


LIMITS = "--fsize=%d --as=%d --core=0" % (1 << 20, 3 << 30)


def bounded(argv, cwd, stdin, env, timeout, how="pipe", limit=LIMITS):
    """runs with limits and with a reader which takes 64 KiB of stdout and leaves -> (rc | None, out, err, wall)"""
    e = {**run.ENV, **(env or {})}
    t0 = time.monotonic()
    pre = ["/bin/bash", "-c", 'trap "" XFSZ; exec prlimit %s "$0" "$@"%s' % (limit, " <&- >&-" if how == "closed" else "")]
    p = subprocess.Popen([*pre, *argv], cwd=cwd, env=e, stdin=subprocess.PIPE if stdin is not None else subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                         start_new_session=True, user=NOBODY, group=NOBODY, extra_groups=[])
    ths = []
    if stdin is not None:
        ths.append(threading.Thread(target=run.feed, args=(p, stdin, [(4096, 0)]), daemon=True))
    err, out = bytearray(), bytearray()

    def drain(f):
        while True:
            x = os.read(f.fileno(), 65536)
            if not x:
                return
            if len(err) < 200000:
                err.extend(x)
    ths.append(threading.Thread(target=drain, args=(p.stderr,), daemon=True))
    for t in ths:
        t.start()
    fd = p.stdout.fileno()
    while len(out) < 65536:
        left = t0 + timeout - time.monotonic()
        if left <= 0 or not select.select([fd], [], [], left)[0]:
            break
        x = os.read(fd, 65536)
        if not x:
            break
        out += x
    p.stdout.close()
    try:
        p.wait(max(.5, t0 + timeout - time.monotonic()))
        rc = p.returncode
    except subprocess.TimeoutExpired:
        rc = None
    wall = time.monotonic() - t0
    if rc is not None:
        ths[-1].join(.02)
    try:
        os.killpg(p.pid, 9)
    except ProcessLookupError:
        pass
    p.wait()
    for t in ths:
        t.join(10)
    p.stderr.close()
    return rc, bytes(out), bytes(err), wall


def c21_judge(rc, out, err, huge, det):
    if b"panicked at" in err or rc == 101:
        raise Violation("nd panics", stderr_tail=err[-600:], **det)
    oom = b"memory allocation of" in err or b"out of memory" in err.lower() or b"Cannot allocate memory" in err
    if rc is None:
        if huge:
            return "endless or huge (a number beyond the memory was given)"
        raise Violation("nd does not end", **det)
    if rc < 0 or rc >= 126:
        if huge and oom:
            return "out of memory (a number beyond the memory was given)"
        raise Violation("nd is killed by a signal or aborts", **det)
    if rc != 0 and not err.strip():
        raise Violation("nd fails without a message", **det)
    return "success" if rc == 0 else "refused" if rc == 2 else "error"


def c21_run(rng, ctx, argv, files, names, stdin, env, huge, kind, timeout=25):
    for _ in range(3):
        # a block smaller than a record line is not a supported configuration
        key = ctx.pick(rng, lambda k: k[1] != "145")
    how = "closed" if stdin is None and rng.random() < .05 else "pipe"
    cmd = [ctx.bins[key], *argv, *names]
    if sum(len(x) for x in cmd) > 120000 or any((b"\0" if isinstance(x, bytes) else "\0") in x for x in cmd):
        raise Skip()
    det = dict(argv=[x if isinstance(x, str) and len(x) < 300 else x[:300] for x in cmd[1:]], kind=kind, binary="-".join(key), how=how, env=env)
    with Dir(ctx, files) as d:
        os.chmod(d.p, 0o777)
        rc, out, err, wall = bounded(cmd, d.p, stdin, env, 8 if huge else timeout, how)
        if rc is None and not huge:
            shutil.rmtree(d.p)
            os.makedirs(d.p)
            os.chmod(d.p, 0o777)
            for k, v in files.items():
                d.put(k, v)
            rc, out, err, wall = bounded(cmd, d.p, stdin, env, 4 * timeout, how)
    det.update(rc=rc, stderr=err[:500], stdout=out[:200], wall=round(wall, 1), files={k: small(v, 400) for k, v in files.items()}, stdin=small(stdin, 200) if stdin else stdin)
    res = c21_judge(rc, out, err, huge, det)
    ev = Counter({kind + ": " + res: 1})
    sig = (kind, res, tuple(sorted({a.split("=")[0][:8] if isinstance(a, str) else "?" for a in argv if a[:1] in ("-", b"-")})), re.sub(r'"[^"]*"|[0-9]+', "#", err.split(b"\n")[0].decode(errors="replace"))[:70])
    return sig, {"argv": det["argv"], "rc": rc, "message": err[:120].decode(errors="replace")}, ev


def c21_args(rng, ctx):
    argv, huge = c21_vector(rng)
    if unsafe(argv) or any(a.startswith("/") for a in argv if isinstance(a, str)):
        raise Skip()
    t1, h1 = hostile_text(rng, True)
    t2, h2 = hostile_text(rng, True)
    txt = bytes(gen.gen_bytes(rng, gen.gen_len(rng, 145)))
    files = {"_in0": rng.choice([txt, txt, t2]), "_in1": gen.gen_bytes(rng, rng.randrange(0, 100)), "_patch": t1, "_guide": rng.choice([t1, b"0 1\n3 5\n10 10\n"]), "_text": t2}
    names = rng.choice([["_in0"], ["_in0"], ["_in0"], ["_in0", "_in1"], ["_in1", "_in0", "_in1"], ["-"], [], ["_text"], ["missing"], [""], ["."], ["/dev/null"], ["_in0", "-"]])
    stdin = rng.choice([None, None, b"", txt, t2])
    env = rng.choice([{}, {}, {}, {}, {"PAGER": rng.choice(PAGERS)}, {"TMPDIR": "/nonexistent"}, {"RUST_BACKTRACE": "full"}])
    return c21_run(rng, ctx, argv, files, names, stdin, env, huge or h1 or h2, "args")


def c21_text(rng, ctx):
    """malformed text as input, patch, guide or answer"""
    t, huge = hostile_text(rng, rng.random() < .4)
    role = rng.choice(["in", "in", "patch", "patch", "guide", "answer", "in zip"])
    data = gen.gen_bytes(rng, gen.gen_len(rng, rng.choice([145, 4096])))
    files = {"_in0": data, "_t": t, "_u": t[:len(t) // 2]}
    argv = {"in": ["-F", rng.choice(["x", "nnx", "d,d,x", "n,x,x", "x,n,x"])], "in zip": ["-F", rng.choice(["x", "nnx"]), "-z", "3"], "patch": ["-p", "_t"], "guide": ["-g", "_t"],
            "answer": ["-P", "cat _t"] if rng.random() < .5 else ["-P", "cat >/dev/null; cat _t"]}[role]
    if rng.random() < .4:
        argv = argv + ["-f", rng.choice(["b", "x", "d"])]
    if rng.random() < .2 and role != "guide":
        argv = argv + ["-w", "3"]
    if rng.random() < .15 and role in ("patch", "answer"):
        argv = argv + ["-i"]
    names = ["_t"] if role == "in" else ["_t", "_u", "_in0"] if role == "in zip" else ["_in0"]
    stdin = None
    if names == ["_t"] and rng.random() < .3:
        names, stdin = ["-"], t
    return c21_run(rng, ctx, argv, files, names, stdin, {}, huge, "text as " + role)


def c21_deep(rng, ctx):
    """long and deeply nested arguments, long lines, many options"""
    n = rng.choice([10, 100, 1000, 5000, 20000, 30000])
    e = rng.choice([lambda: "(" * n + "1" + ")" * n, lambda: "(" * n + "1", lambda: "-" * n + "1", lambda: "~" * n + "1", lambda: "1" + "+1" * n, lambda: "1" + "*1" * n, lambda: "1" * n,
                    lambda: "0x" + "f" * n, lambda: "2" + "**2" * (n // 3), lambda: "1" + "-(1" * (n // 3) + ")" * (n // 3), lambda: "1" + "<<1" * (n // 3), lambda: "1" + ">2" * (n // 2),
                    lambda: " " * n + "1", lambda: ")" * n, lambda: "[" * n, lambda: "1" + "&3|" * (n // 3) + "1", lambda: "1" + "%7" * n])()
    v = rng.choice([lambda: "b[" * (n // 3) + "0" + "]" * (n // 3), lambda: "b[0]" + "+b[1]" * (n // 5), lambda: "(" * n + "b[0]" + ")" * n + "+1", lambda: "1" + "-(b[0]" * (n // 6) + ")" * (n // 6),
                    lambda: "b[0]" + "*b[1]+3" * (n // 7), lambda: "~" * n + "b[0]"])()
    kind = rng.randrange(9)
    argv = [["-w", e], ["--merge=" + e], ["--walk=" + v], ["--walk=" + e], ["--cut=s+" + e + "..e"], ["--extend=" + e + "..e"], ["--pad=" + rng.choice(["0,0", e])] if len(e) < 50 else ["--lines=" + e + ".." + e],
            ["--slice=" + ",".join(["1..3"] * (n // 5))], ["-o", ("{(" + rng.choice(["n", "l", "(n)"]) + ")}") * min(n, 40)]][kind]
    if len(argv[-1]) > 100000:
        raise Skip()
    data = gen.gen_bytes(rng, rng.choice([0, 30, 500]))
    files = {"_in0": data}
    return c21_run(rng, ctx, argv, files, ["_in0"], None, {}, True, "deep")


def c21_lines(rng, ctx):
    """text with lines longer than a block, without an end, with a million empty records"""
    n = rng.choice([4000, 4096, 5000, 100000, 2100000, 5000000])
    t = rng.choice([lambda: b"0 1 | " + b"61 " * (n // 3), lambda: b"6" * n, lambda: b" " * n, lambda: b"\n" * n, lambda: b"0 0\n" * (n // 4), lambda: b"0 0 | \n" * (n // 7), lambda: b"|" * n,
                    lambda: b"0 1 | 61 |" + b"x" * n + b"\n2 1 | 62\n", lambda: b"0 " * (n // 2), lambda: b"0" * n + b" 1 | 61\n", lambda: b"\xff" * n, lambda: b"0 1 | 61\n" + b"\0" * n,
                    lambda: b"0 1 | 61" + b" " * n + b"\n5 1 | 62\n", lambda: rng.randbytes(n)])()
    role = rng.choice([["-F", "x", "_t"], ["-F", "nnx", "_t"], ["-p", "_t", "_in0"], ["-g", "_t", "_in0"], ["-P", "cat >/dev/null; cat _t", "_in0"], ["-w", "100", "-f", "x", "_t"], ["-e", "a+", "_t"], ["-d", "0a", "_t"]])
    if role[0] == "-d" and n > 200000:
        raise Skip()
    return c21_run(rng, ctx, role[:-1], {"_in0": b"hello", "_t": t}, role[-1:], None, {}, False, "lines", 60)


def c21_decimal(rng, ctx):
    """the known finding: the end of a decimal record which does not fit in 64 bits"""
    key = ("v1", "4096", "dbg")
    with Dir(ctx, {"_in0": b"1 18446744073709551615 | 61\n"}) as d:
        r = run.execute([ctx.bins[key], "-F", "d", "_in0"], d.p, user=NOBODY)
    det = dict(cmd=["-F", "d"], rc=r.rc, stderr=r.err[:400])
    if b"attempt to add with overflow" in r.err:
        raise Known("decimal-overflow", Violation("panic on a huge decimal record", **det))
    oracle.assert_clean(r, **det)
    return ("decimal", r.rc), {"cmd": ["-F", "d"], "rc": r.rc}, Counter({"huge decimal records": 1})


@check("C21")
def c21(c):
    c.rule = ("generated, mutated and garbage argument vectors (typed grammar per option, limits of 64 bits, deep nesting, non-UTF-8), hostile text in every role (input, patch, guide, answer of a command), lines beyond "
              "a block, closed standard streams, missing files and commands, on debug builds (overflow, bounds, debug and library-precondition checks) as an unprivileged user with limits; the monitor requires an end, "
              "no panic, no signal, and a message with every failure; distinct = new (workload, result, options, message shape)")
    c.assumptions = ["where a number beyond the memory was given (a pad of 10^18 bytes, a record at 2^60) running out of memory or time is accepted, a panic is not",
                     "stdout is read up to 64 KiB, files are limited to 1 MiB and the address space to 3 GiB"]
    c.build(V(4096) + V("prod"))
    c.single("decimal-overflow", c21_decimal)
    c.fuzz("args", c21_args, 10**7, T(c, 25, 420))
    c.fuzz("text", c21_text, 10**7, T(c, 10, 150))
    c.fuzz("deep", c21_deep, 10**6, T(c, 6, 90))
    c.fuzz("lines", c21_lines, 10**6, T(c, 6, 60))
