"""Builds the real nd from the current working tree, in the variants the checks observe.

A variant is (cpu, block size, profile[, sanitizer]).  The block-size variants use the `nd_verif` hook
(production pipeline code, smaller chunks), the `prod` variants are built with the hook off.
Only the nd crate gets `--cfg nd_verif`, so the dependencies are compiled once per cpu."""
import concurrent.futures
import fcntl
import hashlib
import os
import shutil
import subprocess

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("ND_REPO", "/repo")
OUT = os.environ.get("NDV_BUILD", os.path.join(HERE, "build"))
STABLE = "stable-x86_64-unknown-linux-gnu"
NIGHTLY = "nightly-x86_64-unknown-linux-gnu"


class BuildError(Exception):
    pass


def has_avx2():
    with open("/proc/cpuinfo") as f:
        for ln in f:
            if ln.startswith("flags"):
                w = ln.split()
                return all(x in w for x in ("avx2", "bmi2", "fma"))
    return False


CPUS = {"v1": "x86-64", "v3": "x86-64-v3"} if has_avx2() else {"v1": "x86-64"}


def tree_hash():
    h = hashlib.sha256()
    names = []
    for top in ("src", "Cargo.toml", "Cargo.lock", "build.rs", ".cargo"):
        p = os.path.join(REPO, top)
        if os.path.isfile(p):
            names.append(p)
        for root, _, fs in os.walk(p):
            names += [os.path.join(root, f) for f in fs]
    for p in sorted(names):
        h.update(os.path.relpath(p, REPO).encode() + b"\0")
        with open(p, "rb") as f:
            h.update(hashlib.sha256(f.read()).digest())
    h.update(REPO.encode())
    return h.hexdigest()


def env_for(cpu, target, toolchain, extra_flags=""):
    e = dict(os.environ)
    for k in ("CARGO_BUILD_TARGET", "CARGO_ENCODED_RUSTFLAGS", "RUSTC_WRAPPER", "RUSTC_WORKSPACE_WRAPPER"):
        e.pop(k, None)
    home = e.get("HOME") or "/root"
    e.update(HOME=home, PATH="/root/.cargo/bin:/usr/local/bin:/usr/bin:/bin", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never",
             RUSTUP_TOOLCHAIN=toolchain, CARGO_TARGET_DIR=target, RUSTC_WRAPPER="", CARGO_INCREMENTAL="0",
             RUSTFLAGS=("-C target-cpu=%s %s" % (CPUS[cpu], extra_flags)).strip())
    return e


def cargo(args, env, log):
    r = subprocess.run(["cargo", *args], cwd="/", env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    with open(log, "ab") as f:
        f.write(r.stdout)
    if r.returncode != 0:
        raise BuildError("cargo %s failed:\n%s" % (" ".join(args), r.stdout.decode(errors="replace")[-3000:]))


TRIPLE = "x86_64-unknown-linux-gnu"
STD = ["--target", TRIPLE, "-Zbuild-std"]
EXACT = ["--cfg", "nd_verif_exact"]
# group -> (profile, toolchain, extra flags, extra cargo args, cfgs of the nd crate)
GROUPS = {
    "dbg": ("dev", STABLE, "", [], []),
    "rel": ("release", STABLE, "", [], []),
    "asan": ("dev", NIGHTLY, "-Zsanitizer=address -Cdebuginfo=1", ["--target", TRIPLE], EXACT),
    "msan": ("dev", NIGHTLY, "-Zsanitizer=memory -Zsanitizer-memory-track-origins -Cdebuginfo=1", STD, EXACT),
    "tsan": ("dev", NIGHTLY, "-Zsanitizer=thread -Cdebuginfo=1", STD, []),
}


def build_group(cpu, group, sizes, stamp):
    """one target directory per (cpu, group); the nd crate is rebuilt per block size"""
    profile, tc, flags, extra, cfgs = GROUPS[group]
    target = os.path.join(OUT, "t-%s-%s" % (cpu, group))
    os.makedirs(target, exist_ok=True)
    outs = {}
    with open(os.path.join(target, "ndv.lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        log = os.path.join(target, "ndv.log")
        for bs in sizes:
            dst = os.path.join(OUT, "bin", "nd-%s-%s-%s" % (cpu, bs, group))
            outs[(cpu, bs, group)] = dst
            st = dst + ".stamp"
            try:
                with open(st) as f:
                    if f.read() == stamp and os.path.exists(dst):
                        continue
            except OSError:
                pass
            sub = os.path.join(target, *([extra[1]] if extra else []), "release" if profile == "release" else "debug")
            # never trust mtimes
            fp = os.path.join(sub, ".fingerprint")
            if os.path.isdir(fp):
                for n in os.listdir(fp):
                    if n.startswith("nd-"):
                        shutil.rmtree(os.path.join(fp, n), ignore_errors=True)
            env = env_for(cpu, target, tc, flags)
            args = ["rustc", "--offline", "--locked", "--manifest-path", os.path.join(REPO, "Cargo.toml"), "--bin", "nd", *extra]
            if profile == "release":
                args.append("--release")
            else:
                # assertions and overflow checks stay on
                args += ["--config", "profile.dev.opt-level=1", "--config", 'profile.dev.package."*".opt-level=%d' % (1 if extra else 2),
                         "--config", 'profile.dev.debug="line-tables-only"']
            cf = list(cfgs)
            if bs != "prod":
                env["ND_VERIF_BLOCK_SIZE"] = str(bs)
                cf += ["--cfg", "nd_verif"]
            if cf:
                args += ["--", *cf]
            cargo(args, env, log)
            os.makedirs(os.path.dirname(dst), exist_ok=True)
            shutil.copy2(os.path.join(sub, "nd"), dst + ".new")
            os.replace(dst + ".new", dst)
            with open(st, "w") as f:
                f.write(stamp)
    return outs


def ensure(want):
    """want: iterable of (cpu, block size | 'prod', group) -> {variant: path}"""
    os.makedirs(OUT, exist_ok=True)
    stamp = tree_hash()
    groups = {}
    for cpu, bs, g in want:
        if cpu in CPUS:
            groups.setdefault((cpu, g), []).append(bs)
    outs = {}
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        for r in ex.map(lambda kv: build_group(kv[0][0], kv[0][1], sorted(set(map(str, kv[1]))), stamp), groups.items()):
            outs.update(r)
    return {k: v for k, v in outs.items()}


def shim():
    """the LD_PRELOAD fault/short-read injector"""
    return gcc("ndshim", ".so", ["-shared", "-fPIC", "-ldl", "-lpthread"])


def gcc(name, suffix="", flags=()):
    os.makedirs(os.path.join(OUT, "bin"), exist_ok=True)
    src = os.path.join(HERE, "shim", name + ".c")
    with open(src, "rb") as f:
        h = hashlib.sha256(f.read()).hexdigest()
    dst = os.path.join(OUT, "bin", "%s-%s%s" % (name, h[:16], suffix))
    if not os.path.exists(dst):
        tmp = "%s.%d" % (dst, os.getpid())
        r = subprocess.run(["gcc", "-O1", "-g", "-Wall", "-o", tmp, src, *flags], capture_output=True)
        if r.returncode != 0:
            raise BuildError(r.stderr.decode())
        os.replace(tmp, dst)
    return dst


MIRI_FLAGS = {
    # Stacked Borrows holds for the portable routines; the vector routines load and store whole vectors through
    # a subslice (within the allocation), which only the experimental aliasing models object to
    "v1": "-Zmiri-disable-isolation -Zmiri-strict-provenance",
    "v3": "-Zmiri-disable-isolation -Zmiri-disable-stacked-borrows",
}


def miri_env(cpu, bs, cfg):
    target = os.path.join(OUT, "t-%s-miri%s" % (cpu, "-" + cfg if cfg else ""))
    env = env_for(cpu, target, NIGHTLY, "--cfg nd_verif --cfg nd_verif_exact -Awarnings" + (" --cfg nd_verif_" + cfg if cfg else ""))
    env.update(ND_VERIF_BLOCK_SIZE=str(bs), MIRIFLAGS=MIRI_FLAGS[cpu], XDG_CACHE_HOME=os.path.join(OUT, "miri-cache"))
    for k in ("MIRI_SYSROOT", "CARGO_ENCODED_RUSTFLAGS"):
        env.pop(k, None)
    return target, env


def miri_build(cpu, bs, cfg=""):
    target, env = miri_env(cpu, bs, cfg)
    os.makedirs(target, exist_ok=True)
    log = os.path.join(target, "ndv.log")
    manifest = ["--offline", "--manifest-path", os.path.join(REPO, "Cargo.toml")]
    with open(os.path.join(OUT, "miri.lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        cargo(["miri", "setup", "-q", *manifest], env, log)
    with open(os.path.join(target, "ndv.lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        r = subprocess.run(["cargo", "miri", "run", "-q", *manifest, "--", "--version"], cwd="/", env=env, stdin=subprocess.DEVNULL, capture_output=True)
        with open(log, "ab") as f:
            f.write(r.stdout + r.stderr)
        js = os.path.join(target, TRIPLE, "debug", "nd")
        js2 = os.path.join(target, "miri", TRIPLE, "debug", "nd")
        if not os.path.exists(js) and os.path.exists(js2):
            js = js2
        if r.returncode != 0 or not os.path.exists(js):
            raise BuildError("cargo miri failed:\n%s" % r.stderr.decode(errors="replace")[-3000:])
        # this file only says how to interpret the sources
        os.makedirs(os.path.join(OUT, "bin"), exist_ok=True)
        dst = os.path.join(OUT, "bin", "nd-%s-%s-miri%s" % (cpu, bs, cfg))
        shutil.copy2(js, dst + ".new")
        os.replace(dst + ".new", dst)
        js = dst
    env["MIRI_SYSROOT"] = os.path.join(OUT, "miri-cache", "miri")
    return (cpu, str(bs), "miri" + cfg), (["cargo-miri", "runner", js], env)


def ensure_miri(want, cfg=""):
    """-> {variant: (command prefix, environment)}: the interpreter reads the sources of the working tree at every run"""
    os.makedirs(OUT, exist_ok=True)
    with concurrent.futures.ThreadPoolExecutor(4) as ex:
        return dict(ex.map(lambda w: miri_build(*w, cfg), [w for w in want if w[0] in CPUS]))
