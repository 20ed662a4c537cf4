#!/usr/bin/env python3
"""Driver of the checks of /verif.

  check.py --prop C01 [--tier quick|thorough] [--seed N]   run one check
  check.py --setup                                         build everything once
  check.py --replay FILE                                   run a recorded violation again

Builds the harness (and with it /repo's working tree) in several
configurations, runs the monitors in them, compares what they observed where
the property is about different builds, processes or threads, and writes
evidence/<id>.json.  Exit 0: held; 1: a VIOLATION line was printed; anything
else: the check itself failed.
"""
import argparse
import concurrent.futures as cf
import fcntl
import glob
import hashlib
import json
import os
import re
import resource
import shutil
import signal
import subprocess
import sys
import threading
import time

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.path.join(os.path.dirname(V), "repo")
B = os.path.join(V, "build")
HARNESS = os.path.join(V, "harness")
WASM = os.path.join(V, "wasm")
KNOWN = os.path.join(V, "known-findings.txt")
NCPU = max(2, min(8, os.cpu_count() or 2))
T0 = time.time()
HOST = "x86_64-unknown-linux-gnu"
ARM = "aarch64-unknown-linux-gnu"
BIG = "s390x-unknown-linux-gnu"  # big-endian

print_lock = threading.Lock()


def log(*a):
    with print_lock:
        print(f"[{time.time() - T0:6.1f}]", *a, file=sys.stderr, flush=True)


class CheckError(Exception):
    """The check could not be carried out."""


# --------------------------------------------------------------------- running

procs = set()


def sh(cmd, env=None, cwd=None, timeout=None, mem_gb=None):
    """(rc, stdout, stderr); rc None on timeout."""
    e = dict(os.environ)
    for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "MIRIFLAGS", "CARGO_TARGET_DIR", "RUSTUP_TOOLCHAIN"):
        e.pop(k, None)
    e.update(env or {})

    def pre():
        os.setsid()
        if mem_gb:
            resource.setrlimit(resource.RLIMIT_AS, (mem_gb << 30, mem_gb << 30))

    p = subprocess.Popen(cmd, env=e, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, preexec_fn=pre)
    procs.add(p)
    try:
        o, r = p.communicate(timeout=timeout)
        rc = p.returncode
    except subprocess.TimeoutExpired:
        rc = None
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        o, r = p.communicate()
    finally:
        procs.discard(p)
    return rc, o.decode("utf-8", "replace"), r.decode("utf-8", "replace")


def tree_hash():
    h = hashlib.sha256()
    files = []
    for root in (REPO + "/src", REPO + "/examples", REPO + "/Cargo.toml", HARNESS, V + "/example", WASM, V + "/neon", V + "/preload", V + "/check.py"):
        if os.path.isfile(root):
            files.append(root)
        for d, dirs, fs in os.walk(root):
            dirs[:] = [x for x in dirs if x not in ("target", ".git")]
            files += [os.path.join(d, f) for f in fs]
    for f in sorted(files):
        h.update(f.encode() + b"\0")
        with open(f, "rb") as fh:
            h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()


# --------------------------------------------------------------------- building

HASH = None


def fresh(tdir):
    """Cargo trusts time stamps; where the sources' contents changed, so that
    stamps may have gone back (a checkout, a copy), drop what it believes."""
    mark = os.path.join(tdir, "vp-tree-hash")
    old = open(mark).read() if os.path.exists(mark) else ""
    if old != HASH:
        for pat in ("yasai-*", "vh-*", "vhwasm-*", "perft-example-*"):
            for d in glob.glob(os.path.join(tdir, "**", ".fingerprint", pat), recursive=True):
                shutil.rmtree(d, ignore_errors=True)
    return mark


def cargo(config, args, env, tdir, cwd=HARNESS, toolchain=None, sub="build"):
    os.makedirs(tdir, exist_ok=True)
    with open(tdir + "/vp-lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        mark = fresh(tdir)
        cmd = ["cargo"] + ([toolchain] if toolchain else []) + sub.split() + ["--offline", "--target-dir", tdir] + args
        t = time.time()
        rc, o, e = sh(cmd, env=env, cwd=cwd, timeout=800)
        if rc != 0:
            raise CheckError(f"building {config} failed: {' '.join(cmd)}\n{(o + e)[-4000:]}")
        with open(mark, "w") as f:
            f.write(HASH)
    log(f"built {config} in {time.time() - t:.1f}s")


X86 = {"RUSTFLAGS": "-C target-cpu=x86-64"}
V3 = {"RUSTFLAGS": "-C target-cpu=x86-64-v3"}
memo = {}
memo_lock = threading.Lock()


def build(config):
    with memo_lock:
        lk = memo.setdefault(config, [threading.Lock(), None, None])
    with lk[0]:
        if lk[2] is not None:
            raise CheckError(lk[2])
        if lk[1] is None:
            try:
                lk[1] = build_(config)
            except CheckError as e:
                lk[2] = str(e)
                raise
        return lk[1]


def build_(config):
    t = os.path.join(B, config)
    if config == "default":
        cargo(config, ["--release", "--bin", "vh"], X86, t)
        return t + "/release/vh"
    if config == "simd":
        cargo(config, ["--release", "--bin", "vh", "--features", "simd"], V3, t)
        return t + "/release/vh"
    if config == "simdbase":
        # the feature asked for, on a processor without AVX2
        cargo(config, ["--release", "--bin", "vh", "--features", "simd"], X86, t)
        return t + "/release/vh"
    if config == "plain":
        cargo(config, ["--profile", "plain", "--bin", "vh"], X86, t)
        return t + "/plain/vh"
    if config == "plainsimd":
        cargo(config, ["--profile", "plain", "--bin", "vh", "--features", "simd"], V3, t)
        return t + "/plain/vh"
    if config in ("asan", "asansimd"):
        f = (["--features", "simd"], V3) if config == "asansimd" else ([], X86)
        env = {"RUSTFLAGS": f[1]["RUSTFLAGS"] + " -Zsanitizer=address"}
        cargo(config, ["--profile", "san", "--bin", "vh", "--target", HOST] + f[0], env, t, toolchain="+nightly")
        return f"{t}/{HOST}/san/vh"
    if config == "tsan":
        env = {"RUSTFLAGS": "-C target-cpu=x86-64-v3 -Zsanitizer=thread"}
        cargo(
            config,
            ["--profile", "san", "--bin", "vh", "--features", "simd", "--target", HOST, "-Zbuild-std"],
            env,
            t,
            toolchain="+nightly",
        )
        return f"{t}/{HOST}/san/vh"
    if config in ("example", "examplesimd"):
        f = (["--features", "simd"], V3) if config == "examplesimd" else ([], X86)
        cargo(config, ["--release"] + f[0], f[1], t, cwd=V + "/example")
        return t + "/release/perft"
    if config == "neon":
        return build_neon(t)
    if config in ("wasm", "wasmplain"):
        return build_wasm(config, t)
    if config.startswith("miri"):
        return build_miri(config, t)
    raise CheckError("no configuration " + config)


def build_neon(t):
    """The AArch64 bitboard as a native program: the sources as they are, with
    std::arch::aarch64 replaced by portable definitions of the intrinsics
    (neon/arch.rs) and the conditions on the target taken as true."""
    src = t + "-src"
    shutil.rmtree(src, ignore_errors=True)
    os.makedirs(src)
    shutil.copy(REPO + "/Cargo.toml", src)
    for d, _, fs in os.walk(REPO + "/src"):
        o = src + d[len(REPO) :]
        os.makedirs(o, exist_ok=True)
        for f in fs:
            x = open(f"{d}/{f}", "rb").read()
            if f.endswith(".rs"):
                x = re.sub(rb"\b(std|core)(\s*::\s*arch\s*::\s*)aarch64\b", rb"crate::vp_arch::aarch64", x)
                x = re.sub(rb'target_arch\s*=\s*"aarch64"', b"all()", x)
                x = re.sub(rb'target_feature\s*=\s*"neon"', b"all()", x)
                x = re.sub(rb'target_arch\s*=\s*"x86_64"', b"any()", x)
            if f == "lib.rs" and d == REPO + "/src":
                x += b"\n#[allow(unused_unsafe)]\nmod vp_arch;\n"
            with open(f"{o}/{f}", "wb") as fh:
                fh.write(x)
    shutil.copy(V + "/neon/arch.rs", src + "/src/vp_arch.rs")
    # bench and example targets are not wanted here
    m = re.sub(r"(?ms)^\[\[(bench|example|test)\]\].*?(?=^\[|\Z)", "", open(src + "/Cargo.toml").read())
    with open(src + "/Cargo.toml", "w") as f:
        f.write(m + ("" if "[workspace]" in m else "\n[workspace]\n"))
    h = t + "-harness"
    shutil.rmtree(h, ignore_errors=True)
    shutil.copytree(HARNESS, h, ignore=shutil.ignore_patterns("target"))
    c = open(h + "/Cargo.toml").read().replace('path = "../../repo"', f'path = "{src}"')
    with open(h + "/Cargo.toml", "w") as f:
        f.write(c)
    cargo("neon", ["--release", "--bin", "vh", "--features", "simd"], X86, t, cwd=h)
    return t + "/release/vh"


def rust_src():
    rc, o, e = sh(["rustc", "+nightly", "--print", "sysroot"])
    d = o.strip() + "/lib/rustlib/src/rust/library"
    if rc != 0 or not os.path.isdir(d):
        raise CheckError("no rust-src: " + e)
    return d


def build_wasm(config, t):
    """-Zbuild-std resolves the standard library's dependencies too, and there
    is no network: put its vendored crates and ours into one directory."""
    src = rust_src()
    vend = t + "-vendor"
    if not os.path.exists(vend + "/done"):
        shutil.rmtree(vend, ignore_errors=True)
        os.makedirs(vend)
        for d in sorted(os.listdir(src + "/vendor")):
            os.symlink(f"{src}/vendor/{d}", f"{vend}/{d}")
        lock = open(WASM + "/Cargo.lock").read()
        reg = glob.glob(os.path.expanduser("~/.cargo/registry/src/*/"))
        for m in re.finditer(
            r'\[\[package\]\]\nname = "(.*?)"\nversion = "(.*?)"\nsource = .*?\nchecksum = "(.*?)"', lock
        ):
            n, v, c = m.groups()
            for r in reg:
                s, d = f"{r}/{n}-{v}", f"{vend}/{n}-{v}"
                if os.path.isdir(s) and not os.path.lexists(d):
                    os.makedirs(d)
                    for e in os.listdir(s):
                        if e != ".cargo-checksum.json":
                            os.symlink(f"{s}/{e}", f"{d}/{e}")
                    with open(d + "/.cargo-checksum.json", "w") as f:
                        json.dump({"files": {}, "package": c}, f)
        open(vend + "/done", "w").close()
    cfg = t + ".toml"
    with open(cfg, "w") as f:
        f.write(f'[source.crates-io]\nreplace-with = "vp"\n[source.vp]\ndirectory = "{vend}"\n')
    simd = config == "wasm"
    env = {"RUSTFLAGS": "-C target-feature=+simd128"} if simd else {}
    cargo(
        config,
        ["--config", cfg, "--release", "--target", "wasm32-unknown-unknown", "-Zbuild-std=std,panic_abort"]
        + (["--features", "simd"] if simd else []),
        env,
        t,
        cwd=WASM,
        toolchain="+nightly",
    )
    return t + "/wasm32-unknown-unknown/release/vhwasm.wasm"


def miri_env(config):
    arm = "arm" in config
    simd = "simd" in config
    env = {
        "XDG_CACHE_HOME": f"{B}/xdg-arm" if arm else f"{B}/xdg-big" if "big" in config else f"{B}/xdg",
        "MIRIFLAGS": "-Zmiri-disable-isolation",
    }
    if arm:
        env["MIRI_LIB_SRC"] = f"{B}/rs-arm/library"
    elif "big" not in config:
        env["RUSTFLAGS"] = (V3 if simd else X86)["RUSTFLAGS"]
    return env


miri_setup_lock = {ARM: threading.Lock(), HOST: threading.Lock(), BIG: threading.Lock()}


def miri_target(config):
    return ARM if "arm" in config else BIG if "big" in config else HOST


def build_miri(config, t):
    arm = "arm" in config
    env = miri_env(config)
    target = miri_target(config)
    with miri_setup_lock[target]:
        if arm and not os.path.exists(f"{B}/rs-arm/done"):
            # Miri does not know the instruction behind vqmovn_u64 (which the
            # NEON bitboard uses): give it the portable definition.
            src = rust_src()
            shutil.rmtree(f"{B}/rs-arm", ignore_errors=True)
            os.makedirs(f"{B}/rs-arm")
            shutil.copytree(src, f"{B}/rs-arm/library", symlinks=True)
            p = f"{B}/rs-arm/library/stdarch/crates/core_arch/src/arm_shared/neon/generated.rs"
            s = open(p).read()
            i = s.index("pub fn vqmovn_u64(")
            j = s.index("\n}\n", i)
            body = """pub fn vqmovn_u64(a: uint64x2_t) -> uint32x2_t {
    unsafe {
        let v: [u64; 2] = crate::mem::transmute(a);
        let m = u32::MAX as u64;
        crate::mem::transmute([
            (if v[0] > m { m } else { v[0] }) as u32,
            (if v[1] > m { m } else { v[1] }) as u32,
        ])
    }"""
            with open(p, "w") as f:
                f.write(s[:i] + body + s[j:])
            open(f"{B}/rs-arm/done", "w").close()
        os.makedirs(env["XDG_CACHE_HOME"], exist_ok=True)
        rc, o, e = sh(["cargo", "+nightly", "miri", "setup", "--target", target], env=env, cwd=HARNESS, timeout=600)
        if rc != 0:
            raise CheckError("miri setup failed: " + (o + e)[-3000:])
    # compiles; running it on nothing checks that
    os.makedirs(t, exist_ok=True)
    empty = t + "/empty"
    open(empty, "w").close()
    cargo(
        config,
        ["--bin", "replay", "--target", target] + (["--features", "simd"] if "simd" in config else []) + ["--", empty],
        env,
        t,
        toolchain="+nightly",
        sub="miri run",
    )
    return t


def miri_cmd(config, args):
    return (
        ["cargo", "+nightly", "miri", "run", "--offline", "-q", "--bin", "replay", "--target-dir", os.path.join(B, config)]
        + ["--target", miri_target(config)]
        + (["--features", "simd"] if "simd" in config else [])
        + ["--"]
        + args
    )


# --------------------------------------------------------------------- results


class Violation(Exception):
    def __init__(self, what, signature, **more):
        super().__init__(what)
        self.what, self.signature, self.more = what, signature, more


class Run:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.thorough = tier == "thorough"
        self.lock = threading.Lock()
        self.builds = {}  # config -> what was observed there
        self.evaluations = 0
        self.distinct = 0
        self.samples = []
        self.notes = []
        self.known_hits = []
        self.extra = {}
        self.scratch = os.path.join(B, f"run-{prop}-{os.getpid()}")
        shutil.rmtree(self.scratch, ignore_errors=True)
        os.makedirs(self.scratch)
        self.known = {}
        if os.path.exists(KNOWN):
            for l in open(KNOWN):
                m = re.match(r"finding: property=(\S+) signature=(.*)$", l.strip())
                if m and m.group(1) == prop:
                    self.known[m.group(2)] = l.strip()

    def note(self, s):
        with self.lock:
            if s not in self.notes:
                self.notes.append(s)
        log("note:", s)

    def add(self, config, **kw):
        with self.lock:
            d = self.builds.setdefault(config, {})
            for k, v in kw.items():
                if isinstance(v, (int, float)) and not k.startswith("max"):
                    d[k] = d.get(k, 0) + v
                else:
                    d[k] = v


# Of each check: the counter that says how many cases were evaluated, and what
# makes one of them distinct and non-trivial.
RULES = {
    "C01": (["positions"], "one case is one position whose returned moves were all judged by the rules model; non-trivial: positions with at least one pseudo-legal move that is illegal, distinct by board, hands and side"),
    "C02": (["positions"], "one case is one position whose returned moves were compared with those of the rules model; non-trivial: positions with at least 10 legal moves or in check, distinct by board, hands and side"),
    "C03": (["positions"], "one case is one position; non-trivial: positions with the player to move in check (or without a legal move), distinct by board, hands and side"),
    "C04": (["positions"], "one case is one position with its set of drops; non-trivial: positions with pieces in hand and a drop forbidden by a rule other than vacancy or forced by a check, distinct by board, hands and side"),
    "C05": (["pawn drops that mate", "pawn drops with a reply"], "one case is one pawn drop giving check, judged by whether the opponent has a reply; distinct by board, hands and side"),
    "C06": (["moves with both forms", "moves with promotion forced", "moves outside the zone", "moves in the zone of pieces that do not promote"], "one case is one move (without its promotion choice); non-trivial: positions offering a move into, within or out of the zone, distinct by board, hands and side"),
    "C07": (["positions"], "one case is one position; non-trivial: positions with a shielding piece or a king move into an attack, distinct by board, hands and side"),
    "C08": (["occupancy patterns"], "one case is one slider on one square with one pattern of occupied squares on its lines; every one is distinct (square, side, kind, pattern)"),
    "C09": (["plain moves made", "promotions made", "drops made", "captures made"], "one case is one move made and its result compared; non-trivial: captures, promotions and drops, distinct by the position before and the move"),
    "C10": (["moves undone"], "one case is one move taken back and the position compared with what it was; distinct by the position reached in between"),
    "C11": (["states after a move", "positions"], "one case is one state whose in_check was asked; non-trivial: states in check or reached by a move that gives or blocks a check, distinct by board, hands and side"),
    "C12": (["moves asked"], "one case is one legal move whose is_check_move was compared with the attack on the king afterwards; non-trivial: moves that do give check, distinct by the position and the move"),
    "C13": (["played positions compared with new ones", "there-and-back loops", "transposed move orders"], "one case is one comparison of two ways to the same position; distinct by board, hands and side of positions reached by playing"),
    "C14": (["keys recorded"], "one case is one position whose key was entered into a table of all keys seen; distinct by board, hands and side"),
    "C15": (["keys() recorded"], "one case is one position whose key components were entered into tables by board-and-side and by hands; distinct by board, hands and side"),
    "C16": (["positions x processes"], "one case is the key and keys of one position in one process; non-trivial: distinct positions of the sample, the same in every process"),
    "C17": (["states compared with new positions", "later states compared"], "one case is one state reached by playing compared with a newly constructed one; distinct by board, hands and side"),
    "C18": (["queries repeated"], "one case is one query asked again after other queries; distinct states by board, hands and side"),
    "C19": (["full comparisons"], "one case is one full comparison of a position while others cloned from it were changed or dropped; distinct states by board, hands and side"),
    "C20": (["images compared"], "one case is one position compared with one of its images; non-trivial: positions in check or with checking moves, distinct by board, hands and side"),
    "C21": (["observations"], "one case is one full observation (board, hands, side, ply, key, keys, in_check, moves, is_check_move of each) in one build, compared with the portable build; non-trivial: distinct states by board, hands and side"),
    "C22": (["api calls under concurrency"], "one case is one library call made while other threads were calling it; non-trivial: distinct concurrent runs (process, seed, thread count, start pattern)"),
    "C23": (["moves made", "moves undone", "is_check_move calls", "moves returned"], "one case is one call of the library under a checked build; non-trivial: distinct states visited, by board, hands and side"),
    "C24": (["leaves compared"], "one case is one leaf of a game tree walked by do and undo; non-trivial: distinct roots searched to depth 2 or more"),
    "C25": (["positions created"], "one case is one position created and read back; distinct by board, hands, side and ply"),
    "C27": (["operations"], "one case is one round of library use (new positions, do and undo, clones, long games, queries) whose heap memory was measured over four equal repetitions; one evaluation is one operation in it; distinct starting positions by board, hands and side"),
    "C28": (["operations timed"], "one case is one operation (do and undo, each query, creation, a stretch of a game) whose processor time on the same board was compared between a short game and a game of up to 64000 moves or a crowd of other positions; distinct by the board"),
    "C30": (["positions looked at afterwards"], "one case is one position observed in full after a call that makes no sense was made on another one; distinct by board, hands and side"),
    "C29": ([], "one evaluation is one library call made in a process whose outside effects were being watched; non-trivial: distinct states visited by one such process, by board, hands and side"),
    "C26": (["moves played", "states passed on the way back"], "one case is one state passed forwards or backwards in a long game; distinct states by board, hands and side"),
}

# The part of a check's budget that goes with a property in quick runs.
SCALE = {"C05": 1.2, "C10": 1.0, "C13": 1.5, "C09": 1.5, "C08": 1.0, "C27": 1.0, "C26": 1.0, "C25": 2.0, "C24": 1.5}


def native(run, config, seed, threads=NCPU, scale=None, extra=None, prop=None, timeout=None, env=None, mem=None):
    """One run of the monitors of run.prop in one build."""
    prop = prop or run.prop
    exe = build(config)
    if scale is None:
        scale = SCALE.get(prop, 2.0) if not run.thorough else 1.0
    out = f"{run.scratch}/{config}-{seed}.json"
    cmd = [exe, "check", "--prop", prop, "--seed", str(seed), "--tier", run.tier, "--threads", str(threads)]
    cmd += ["--scale", str(scale), "--out", out] + (extra or [])
    if run.known:
        kf = f"{run.scratch}/known"
        with open(kf, "w") as f:
            f.write("\n".join(run.known) + "\n")
        cmd += ["--known", kf]
    t = time.time()
    rc, o, e = sh(cmd, timeout=timeout or (400 if not run.thorough else 5000), env=env)
    more = dict(build=config, seed=seed, check=prop, scale=scale)
    if "AddressSanitizer" in e or "ThreadSanitizer" in e:
        raise Violation("a sanitizer reports: " + sanitizer_summary(e), sanitizer_summary(e), log=e[-6000:], **more)
    if rc == 3 or (rc is not None and rc < 0):
        m = re.search(r"(CRASH signal=(\d+) in_api=(\d) family=(\d+) idx=(\d+))", o)
        if m:
            fam, idx = int(m.group(4)), int(m.group(5))
            p = re.findall(r"PANIC (.*)", e)
            what = f"the library crashed (signal {m.group(2)})" + (": " + p[-1] if p else "")
            if m.group(3) == "1":
                raise Violation(what, f"family {fam} item {idx} of seed {seed}", family=fam, idx=idx, log=e[-3000:], **more)
            raise CheckError("the harness crashed: " + o[-500:] + e[-3000:])
        m = re.search(r"HANG family=(\d+) idx=(\d+)", o)
        if m:
            raise Violation(
                "the library does not return", f"family {m.group(1)} item {m.group(2)} of seed {seed}",
                family=int(m.group(1)), idx=int(m.group(2)), **more
            )
        if rc is not None and rc < 0 and rc != -9:
            raise Violation(f"the process died of signal {-rc}", f"signal {-rc}: {e[-300:]}", log=e[-3000:], **more)
        raise CheckError(f"{config}: {rc} {o[-1000:]} {e[-3000:]}")
    if rc is None:
        raise CheckError(f"{config}: no answer in time")
    if rc not in (0, 1):
        raise CheckError(f"{config}: exit {rc}: {o[-1000:]} {e[-3000:]}")
    d = json.load(open(out))
    log(f"{config} seed {seed}: rc {rc}, {time.time() - t:.1f}s, {d['distinct']} distinct")
    with run.lock:
        b = run.builds.setdefault(config, {"api_calls": 0, "distinct_nontrivial": 0, "distinct_states": 0, "counts": {}})
        b["api_calls"] += d["api_calls"]
        b["distinct_nontrivial"] = max(b["distinct_nontrivial"], d["distinct"])
        b["distinct_states"] = max(b["distinct_states"], d["distinct_states"])
        for k, v in d["counts"].items():
            b["counts"][k] = max(b["counts"].get(k, 0), v) if k.startswith("max ") else b["counts"].get(k, 0) + v
        if prop == run.prop:
            run.evaluations += sum(d["counts"].get(k, 0) for k in RULES[prop][0])
            # the largest of the runs: they are different seeds, but may overlap
            run.distinct = max(run.distinct, d["distinct"])
        run.samples += d["samples"][:3]
        run.known_hits += d["known"]
    v = d["violation"]
    if v:
        raise Violation(v["what"], v["signature"], family=v["family"], idx=v["idx"], **more)
    if rc == 1:
        raise CheckError(f"{config}: exit 1 without a violation: {o[-1000:]}")


def sanitizer_summary(e):
    m = re.search(r"SUMMARY: (.*)", e)
    if m:
        return re.sub(r"0x[0-9a-f]+", "0x..", m.group(1))[:300]
    m = re.search(r"(ERROR: AddressSanitizer.*|WARNING: ThreadSanitizer.*)", e)
    return m.group(1)[:300] if m else e[-300:]


def prebuild(configs):
    with cf.ThreadPoolExecutor(len(configs)) as ex:
        for f in [ex.submit(build, c) for c in configs]:
            f.result()


def neon(run):
    """Whether the AArch64 bitboard can be run natively here.  Should a change
    use an intrinsic that neon/arch.rs lacks, Miri is left to observe it."""
    try:
        build("neon")
        return True
    except CheckError as e:
        log(str(e)[-1500:])
        run.note("the AArch64 bitboard could not be built with the portable intrinsics: " + str(e)[-200:])
        return False


def seeds(run, n):
    return [(run.seed * 1000003 + 7919 * k) & 0x7FFFFFFF if k else run.seed for k in range(n)]


def check_native(run):
    """The monitors in the portable and in the AVX2 build, on different seeds,
    and as a user would build it (without debug assertions and overflow
    checks)."""
    cfgs = ["default", "simd", "plain"] + (["plainsimd"] if run.thorough else [])
    prebuild(cfgs)
    if (run.prop in ("C01", "C02", "C04", "C08") or run.thorough) and neon(run):
        cfgs.append("neon")
    for c, s in zip(cfgs, seeds(run, len(cfgs))):
        native(run, c, s, scale=None if run.thorough or c != "plain" else 0.6 * SCALE.get(run.prop, 2.0))


# ----------------------------------------------------------------- C16


def check_keys(run):
    wcfgs = ["wasm"] + (["wasmplain"] if run.thorough else [])
    cfgs = ["default", "simd", "plain"] + (["plainsimd"] if run.thorough else [])
    with cf.ThreadPoolExecutor(2) as ex:
        w = ex.submit(prebuild, wcfgs)
        prebuild(cfgs)
        try:
            w.result()
            cfgs += wcfgs
        except CheckError as e:
            log(str(e)[-1500:])
            run.note("not built for WebAssembly: " + str(e)[-200:])
            wcfgs = []
    so = f"{run.scratch}/elsewhen.so"
    rc, o, e = sh(["gcc", "-O1", "-shared", "-fPIC", "-o", so, V + "/preload/elsewhen.c"], timeout=60)
    if rc != 0:
        run.note("the clock cannot be shifted here: " + e[-200:])
        so = None
    if neon(run):
        cfgs.append("neon")
    count = 4096 + 20000 * (10 if run.thorough else 1)
    nproc = 24 if not run.thorough else 200
    jobs = []
    for k in range(nproc):
        for c in [c for c in cfgs if not c.startswith("wasm")]:
            jobs.append((c, k))
    ref = None
    bare = {"PATH": "/usr/bin:/bin"}
    if so and anyenv(run):
        so += ":" + anyenv(run)

    def one(job):
        c, k = job
        exe = build(c)
        cmd = [exe, "keydigest", "--seed", str(run.seed), "--count", str(count), "--how", str(k)]
        if k % 2:
            cmd += ["--reverse", "1"]
        if k % 4 == 1 and so:
            # another day, process id, user
            cmd = ["env", "LD_PRELOAD=" + so, f"VP_DAYS={(k - 11) * 397}"] + cmd
        elif k % 4 == 3:
            # fewer processors
            cmd = ["taskset", "-c", ",".join(str(x) for x in sorted(os.sched_getaffinity(0))[: 1 + k % 3])] + cmd
        elif k % 6 == 4:
            # from elsewhere, under another name
            cmd = [f"{run.scratch}/elsewhere/{c}-{k}"] + cmd[1:]
            os.makedirs(os.path.dirname(cmd[0]), exist_ok=True)
            os.link(exe, cmd[0])
        elif k % 3 == 1:
            cmd = ["env", "-i"] + cmd
        elif k % 3 == 2:
            cmd = ["env", f"LC_ALL=C{k}", f"TZ=UTC+{k % 12}", f"RUST_BACKTRACE={k % 2}", f"SEED={k}", f"PAD={'x' * (37 * k)}"] + cmd
        rc, o, e = sh(cmd, timeout=200, env=bare, cwd="/" if k % 2 else V)
        if rc is None:
            raise Violation("a process computing keys does not end", f"build {c} how {k}", build=c, how=k)
        if rc != 0:
            raise Violation(f"a process computing keys died ({rc}): {e[-500:]}", f"build {c} how {k}", build=c, how=k, log=o[-500:] + e[-2000:])
        return c, k, o.split()

    res = []
    with cf.ThreadPoolExecutor(NCPU) as ex:
        for c, k, d in ex.map(one, jobs):
            res.append((c, k, d))
    wres = []
    n = len(res[0][2])
    for c in wcfgs:
        got = wasm_run(run, c, {"mode": "keys", "seed": run.seed, "count": count}, 0, n)
        wres.append((c, 0, [got[i] for i in range(n)]))
    ref = res[0]
    for c, k, d in res[1:] + wres:
        if len(d) != len(ref[2]):
            raise CheckError("keydigest printed too little")
        for i, (a, b) in enumerate(zip(ref[2], d)):
            if a != b:
                raise key_difference(run, ref, (c, k), i, count)
    for c in cfgs:
        n = sum(1 for r in res + wres if r[0] == c)
        run.add(c, processes=n, positions=count)
    run.evaluations += count * len(res + wres)
    run.extra["positions x processes"] = count * len(res + wres)
    run.extra["ways to use the library first"] = nproc
    run.distinct = distinct_keys(run)
    run.samples += [f"{c} how {k}: chunk digests {' '.join(d[:3])} ..." for c, k, d in res[:3]]


def distinct_keys(run):
    exe = build("default")
    rc, o, e = sh([exe, "keydump", "--seed", str(run.seed), "--chunk", "0", "--chunks", "370"], timeout=100)
    lines = [l for l in o.splitlines() if "|" in l]
    n = len({l.split("|")[0] for l in lines})
    return n


def key_difference(run, ref, other, chunk, count):
    def dump(c, how):
        if c.startswith("wasm"):
            return None
        cmd = [build(c), "keydump", "--seed", str(run.seed), "--chunk", str(chunk), "--how", str(how)]
        rc, o, e = sh(cmd, timeout=60)
        return o.splitlines()

    a, b = dump(ref[0], ref[1]), dump(*other)
    what = f"the keys of build {ref[0]} (process {ref[1]}) and build {other[0]} (process {other[1]}) differ"
    sig = f"chunk {chunk} of seed {run.seed}"
    if a and b:
        for x, y in zip(a, b):
            if x != y:
                sig = x.split(" | ")[0]
                what += f": {x.split(' | ')[-1]} and {y.split(' | ')[-1]}"
                break
    return Violation(what, sig, build=other[0], how=other[1], ref=[ref[0], ref[1]], chunk=chunk)


# ----------------------------------------------------------------- C18


def check_orders(run):
    """The monitors, then the same positions asked in different orders by
    different processes."""
    check_native(run)
    cfgs = ["default", "simd"]
    count = 4096 if not run.thorough else 32768
    norders = 6 if not run.thorough else 24
    jobs = [(c, o) for o in range(norders) for c in cfgs]

    def one(j):
        c, order = j
        more = dict(build=c, order=order, count=count, seed=run.seed)
        rc, o, e = sh([build(c), "orderdigest", "--seed", str(run.seed), "--count", str(count), "--order", str(order)], timeout=300 if not run.thorough else 2000)
        if rc is None:
            raise Violation("queries do not end", f"order {order} in build {c}", **more)
        if rc != 0:
            m = re.search(r"panicked at ([^\n]*)\n([^\n]*)", e)
            if m and "/repo/src" not in m.group(1):
                raise CheckError(f"orderdigest: {rc} {o[-500:]} {e[-2000:]}")
            raise Violation(f"a process asking queries died ({rc}): {e[-400:]}", f"order {order} in build {c}", log=e[-3000:], **more)
        return c, order, o.split()

    with cf.ThreadPoolExecutor(NCPU) as ex:
        res = list(ex.map(one, jobs))
    ref = res[0][2]
    if len(ref) != count:
        raise CheckError("orderdigest printed too little")
    for c, order, d in res[1:]:
        for i, (a, b) in enumerate(zip(ref, d)):
            if a != b:
                rc, o, e = sh([build("default"), "orderdump", "--seed", str(run.seed), "--index", str(i)], timeout=60)
                raise Violation(
                    f"the answers about a position depend on what was asked before: it answers differently in build {c} when asked in order {order} and in build default in order 0",
                    o.strip(), build=c, order=order, count=count, seed=run.seed, index=i,
                )
    for c in cfgs:
        run.add(c, **{"processes asking in different orders": norders, "positions asked in each order": count})
    run.evaluations += 3 * count * len(res)


# ----------------------------------------------------------------- wasm


def wasm_run(run, config, job, lo, hi, items=None):
    """Run a job in node, in several processes; {index: digest}."""
    mod = build(config)
    got = {}
    stats = []

    def part(k):
        j = dict(job)
        if items is not None:
            j["items"] = items[k::NCPU]
        else:
            j.update({"from": lo + k, "to": hi, "step": NCPU})
        jf = f"{run.scratch}/{config}-{job['mode']}-{k}.json"
        with open(jf, "w") as f:
            json.dump(j, f)
        rc, o, e = sh(["node", WASM + "/run.mjs", mod, jf], timeout=600 if not run.thorough else 3000)
        lines = []
        for l in o.splitlines():
            try:
                lines.append(json.loads(l))
            except ValueError:
                pass
        for x in lines:
            if "viol" in x:
                m = re.match(r"(.*) \[(.*)\]$", x["viol"], re.S)
                raise Violation("in WebAssembly: " + (m.group(1) if m else x["viol"]), m.group(2) if m else x["viol"], build=config, family=x["family"], idx=x["idx"], seed=job["seed"])
            if "trap" in x:
                if x["in_api"]:
                    raise Violation(f"in WebAssembly the library trapped: {x['trap']} {x['text'][:600]}", x["text"][:600] or x["now"], build=config, at=x["now"], seed=job["seed"])
                raise CheckError("the harness trapped in WebAssembly: " + json.dumps(x)[:2000])
        if rc is None:
            raise CheckError("node did not end in time")
        if rc != 0:
            raise CheckError(f"node: exit {rc}: {o[-500:]} {e[-2000:]}")
        for x in lines:
            if "d" in x:
                got[x["i"]] = x["d"]
            if "done" in x:
                stats.append(x)

    with cf.ThreadPoolExecutor(NCPU) as ex:
        list(ex.map(part, range(NCPU)))
    run.add(
        config,
        jobs_done=sum(s["done"] for s in stats),
        observations=sum(s["observations"] for s in stats),
        moves=sum(s["moves"] for s in stats),
        in_check=sum(s["in_check"] for s in stats),
        api_calls=sum(s["api_calls"] for s in stats),
    )
    return got


# ----------------------------------------------------------------- Miri


def miri_scripts(run, config, part, lines, timeout, tail=0, flags=""):
    """Replay script lines under Miri; [(line, digest)], stopping at the time limit."""
    build(config)
    f = f"{run.scratch}/{config}-{part}.txt"
    with open(f, "w") as fh:
        fh.write("\n".join(lines) + "\n")
    env = miri_env(config)
    env["MIRIFLAGS"] += " " + flags
    t = time.time()
    rc, o, e = sh(miri_cmd(config, [f, "--tail", str(tail)]), env=env, cwd=HARNESS, timeout=timeout)
    out = []
    cur = None
    nobs = 0
    for l in o.splitlines():
        if l.startswith("begin "):
            cur = l[6:]
        m = re.match(r"digest ([0-9a-f]{16}) (\d+)$", l)
        if m:
            out.append((cur, m.group(1)))
            nobs += int(m.group(2))
            cur = None
    miri_verdict(run, config, rc, e, cur, part)
    run.add(config, scripts=len(out), observations=nobs, seconds=round(time.time() - t, 1))
    log(f"{config}/{part}: {len(out)} of {len(lines)} scripts, {nobs} observations, {time.time() - t:.1f}s")
    return out


def miri_verdict(run, config, rc, e, cur, part):
    """What Miri's ending means."""
    if rc is None or rc == 0:
        return
    m = re.search(r"error: (unsupported operation[^\n]*)", e)
    if m:
        run.note(f"{config}: Miri cannot run this: {m.group(1)[:200]}")
        return
    m = re.search(r"error: (Undefined Behavior[^\n]*|[^\n]*[Dd]ata race[^\n]*|the evaluated program deadlocked[^\n]*|memory leaked[^\n]*)", e)
    where = re.findall(r"--> ([^\n]*)", e)
    at = where[0] if where else ""
    if m:
        if "memory leaked" in m.group(1):
            run.note(f"{config}: Miri: {m.group(1)[:200]}")
            return
        raise Violation(
            f"Miri ({config}) reports: {m.group(1)[:400]} at {at}",
            cur or m.group(1)[:200],
            build=config,
            log=e[-6000:],
            miri=True,
        )
    m = re.search(r"thread '[^\n]*panicked at ([^\n]*)\n([^\n]*)", e)
    if m:
        # a panic of the library, or of the harness?
        if "/harness/" in m.group(1) or m.group(1).startswith("src/"):
            if "/repo/src" not in m.group(1):
                raise CheckError(f"{config}: {e[-3000:]}")
        raise Violation(f"under Miri ({config}) the library panicked: {m.group(2)} at {m.group(1)}", cur or m.group(1), build=config, log=e[-6000:], miri=True)
    raise CheckError(f"{config}: Miri: exit {rc}: {e[-3000:]}")


def scripts(run, seed, count, length, frm=0):
    rc, o, e = sh([build("default"), "scripts", "--seed", str(seed), "--count", str(count), "--len", str(length), "--from", str(frm)], timeout=100)
    if rc != 0:
        raise CheckError("scripts: " + e[-2000:])
    return o.splitlines()


def small_scripts(run, seed, want):
    """Short scripts with few moves to look at, for the slow interpreters."""
    lines = scripts(run, seed, want * 6, 3)
    lines = [l for l in lines if " moves " in l + " "]

    def weight(l):
        board, side, hand = l.split()[:3]
        return sum(c.isalpha() for c in board) + (12 if hand != "-" and any(c.isupper() == (side == "b") for c in hand if c.isalpha()) else 0)

    # keep the order (it cycles through the families), drop the heavy half
    ws = sorted(weight(l) for l in lines)
    cut = ws[len(ws) // 2]
    light = [l for l in lines if weight(l) <= cut][:want]
    return light


def native_digests(run, config, lines, tail=0):
    """Digests of given lines in a native build."""
    f = f"{run.scratch}/lines-{config}-{hashlib.sha256(chr(10).join(lines).encode()).hexdigest()[:12]}.txt"
    with open(f, "w") as fh:
        fh.write("\n".join(lines) + "\n")
    rc, o, e = sh([build(config), "linedigest", "--file", f, "--tail", str(tail)], timeout=200)
    if rc != 0:
        m = re.search(r"FOUND (.*)", o)
        if m:
            raise Violation(m.group(1), m.group(1)[-300:], build=config)
        raise CheckError("linedigest: " + o[-500:] + e[-2000:])
    return o.split()


def compare_miri(run, config, got):
    if not got:
        return
    want = native_digests(run, "default", [l for l, _ in got])
    for (l, d), w in zip(got, want):
        if d != w:
            raise Violation(f"the build {config} (under Miri) and the portable build answer differently", l, build=config, line=l, miri=True)


# ----------------------------------------------------------------- C21


def obs_digests(run, config, count, length, tail):
    out = f"{run.scratch}/obs-{config}"
    rc, o, e = sh(
        [build(config), "obsdigest", "--seed", str(run.seed), "--count", str(count), "--len", str(length), "--tail", str(tail)]
        + ["--threads", str(NCPU), "--out", out],
        timeout=600 if not run.thorough else 3000,
    )
    if rc != 0:
        m = re.search(r"FOUND (.*)", o)
        if m:
            raise Violation(f"build {config}: " + m.group(1), m.group(1)[-600:], build=config)
        m = re.search(r"CRASH signal=(\d+) in_api=1", o)
        if m:
            raise Violation(f"build {config}: crashed (signal {m.group(1)}) {e[-300:]}", f"signal {m.group(1)}", build=config)
        raise CheckError(f"obsdigest {config}: {rc} {o[-500:]} {e[-2000:]}")
    st = json.loads(o.strip().splitlines()[-1])
    run.add(config, **{k: v for k, v in st.items() if k != "states"}, scripts=count)
    with run.lock:
        run.builds[config]["distinct_states"] = max(run.builds[config].get("distinct_states", 0), st["states"])
    return open(out).read().split(), st


def backend_difference(run, config, seed, i, length, tail):
    line = scripts(run, seed, 1, length, frm=i)[0]

    def dump(c):
        if c.startswith("wasm"):
            jf = f"{run.scratch}/dump.json"
            with open(jf, "w") as f:
                json.dump({"mode": "dump", "seed": seed, "from": i, "len": length, "tail": tail}, f)
            rc, o, e = sh(["node", WASM + "/run.mjs", build(c), jf], timeout=60)
            for l in o.splitlines():
                x = json.loads(l)
                if "dump" in x:
                    return x["dump"].splitlines()
            return []
        rc, o, e = sh([build(c), "obsdump", "--line", line, "--tail", str(tail)], timeout=60)
        return o.splitlines()

    what = f"builds default and {config} answer differently"
    for x, y in zip(dump("default"), dump(config)):
        if x != y:
            what += f": default: {x[:1500]} ; {config}: {y[:1500]}"
            break
    return Violation(what, line, build=config, line=line)


def check_backends(run):
    ncount = 20000 if not run.thorough else 400000
    length, tail = 20, 6
    nat = ["default", "simd", "plain", "simdbase"] + (["plainsimd"] if run.thorough else [])
    with cf.ThreadPoolExecutor(8) as ex:
        w = ex.submit(build, "wasm")
        w2 = ex.submit(build, "wasmplain") if run.thorough else None
        arm = ex.submit(build, "miri-arm-simd")
        prebuild(nat)
        if neon(run):
            nat.append("neon")
        # Miri on AArch64 goes on beside everything else
        lines = small_scripts(run, run.seed, 400)
        budget = 75 if not run.thorough else 1500
        nm = 2 if not run.thorough else 5
        arm.result()
        mjobs = [ex.submit(miri_scripts, run, "miri-arm-simd", k, lines[k::nm], budget) for k in range(nm)]
        if run.thorough:
            for c in ("miri-arm", "miri-big"):
                build(c)
                mjobs.append(ex.submit(miri_scripts, run, c, 0, lines, budget))
        ref, st = obs_digests(run, "default", ncount, length, tail)
        run.distinct = st["states"]
        run.evaluations += st["observations"]
        for c in nat[1:]:
            # (simdbase is the portable code again, or should be)
            d, st = obs_digests(run, c, ncount // 4 if c == "simdbase" else ncount, length, tail)
            run.evaluations += st["observations"]
            for i, (a, b) in enumerate(zip(ref, d)):
                if a != b:
                    raise backend_difference(run, c, run.seed, i, length, tail)
        w.result()
        if w2:
            w2.result()
        for c in ["wasm"] + (["wasmplain"] if run.thorough else []):
            n = 4000 if not run.thorough else 60000
            got = wasm_run(run, c, {"mode": "digest", "seed": run.seed, "len": length, "tail": tail}, 0, n)
            run.evaluations += run.builds[c]["observations"]
            for i in range(n):
                if got.get(i) != ref[i]:
                    raise backend_difference(run, c, run.seed, i, length, tail)
            # long-range movement, every pattern, against the rules model
            items = [[8, 30, i] for i in range(0, 810, 1 if run.thorough else 9)]
            items += [[2, f, i] for f in (1, 2, 3, 5, 6, 7, 8, 11, 13) for i in range(20 if not run.thorough else 400)]
            wasm_run(run, c, {"mode": "items", "seed": run.seed}, 0, 0, items=items)
        for j in mjobs:
            got = j.result()
            cfg = "miri-arm-simd" if j in mjobs[:nm] else ["miri-arm", "miri-big"][mjobs.index(j) - nm]
            compare_miri(run, cfg, got)
            run.evaluations += len(got)
    if run.builds.get("miri-arm-simd", {}).get("scripts", 0) == 0:
        run.note("the NEON build was not observed in this run")
    run.samples += lines[:3]


# ----------------------------------------------------------------- C22


def check_threads(run):
    nproc = 240 if not run.thorough else 4000
    nats = ["default", "simd", "plain"] + (["plainsimd"] if run.thorough else [])
    with cf.ThreadPoolExecutor(6) as ex:
        tsan = ex.submit(build, "tsan")
        miri = ex.submit(build, "miri")
        prebuild(nats)
        lines = small_scripts(run, run.seed, 60)
        lines = sorted(lines, key=lambda l: sum(c.isalpha() for c in l.split()[0]))[:30]
        miri.result()
        nm = 3 if not run.thorough else 5
        mfs = [ex.submit(miri_race, run, k, lines[3 * k : 3 * k + 2]) for k in range(nm)]
        race_many(run, nats, race_jobs(run, nats, nproc), 4 if not run.thorough else 8)
        tsan.result()
        race_tsan(run, 16 if not run.thorough else 300)
        for f in mfs:
            f.result()
        # with all processors to themselves
        race_many(run, nats, crowd_jobs(run, nats, nproc // 12), 2)
    run.samples += [f"race seed {run.seed} threads 8 start pattern 0", f"miri, 3 threads: {lines[0]}"]


def race_cmd(exe, seed, threads, how, alone=False, small=False):
    c = [exe, "race", "--seed", str(seed), "--threads", str(threads), "--how", str(how)]
    if small:
        c += ["--items", "2", "--len", "4", "--rounds", "12"]
    elif threads > 16:
        # a crowd: little work of each kind, much about the same few positions
        c += ["--items", "1", "--len", "4", "--rounds", "8", "--hot", "400"]
    return c + (["--alone", "1"] if alone else [])


def race_result(rc, o, e, cfg, seed, threads, how):
    tag = f"build {cfg} seed {seed} threads {threads} start pattern {how}"
    more = dict(build=cfg, seed=seed, threads=threads, how=how, race=True)
    if "ThreadSanitizer" in e:
        raise Violation("ThreadSanitizer reports: " + sanitizer_summary(e), sanitizer_summary(e), log=e[-8000:], **more)
    if rc is None:
        raise Violation("threads using the library at once never finish", tag, **more)
    m = re.search(r"send (\w+) sync (\w+)", o)
    if m and (m.group(1), m.group(2)) != ("true", "true"):
        raise Violation(f"Position is not usable from several threads: Send {m.group(1)}, Sync {m.group(2)}", "Send/Sync", **more)
    d = re.search(r"digests (.*)", o)
    if rc != 0 or not d:
        if rc in (2,):
            raise CheckError(f"race: {o[-500:]}{e[-2000:]}")
        raise Violation(f"threads using the library at once end with {rc}: {(o + e)[-600:]}", tag, log=(o + e)[-4000:], **more)
    c = re.search(r"calls (\d+)", o)
    return d.group(1).split(), int(c.group(1)) if c else 0


def race_jobs(run, cfgs, nproc):
    nseeds = max(8, nproc // 20)
    for k in range(nproc):
        s = run.seed * 7919 + k % nseeds
        t = [8, 3, 5, 16, 2, 12][k // nseeds % 6]
        yield cfgs[k % len(cfgs)], s, t, k


def crowd_jobs(run, cfgs, nproc):
    """More threads than processors, than bits in a word, than numbers in a byte."""
    for k in range(nproc):
        yield cfgs[k % len(cfgs)], run.seed * 7919 + 1 + k // 12, [40, 70, 100, 140, 70, 270][k % 6], 5000 + k


def race_many(run, cfgs, jobs, par):
    alone = {}
    jobs = list(jobs)
    lock = threading.Lock()
    calls = [0]

    def one(j):
        cfg, s, t, how = j
        key = (s, t)
        with lock:
            a = alone.get(key)
        if a is None:
            rc, o, e = sh(race_cmd(build(cfgs[0]), s, t, 0, alone=True), timeout=120)
            if rc is None:
                raise Violation("the library does not return", f"seed {s}, one thread", build=cfgs[0], seed=s, threads=t, race=True)
            if rc == 101 and "/harness/src" in e and "/repo/src" not in e:
                raise CheckError("race --alone: " + e[-2000:])
            a, _ = race_result(rc, o, e, cfgs[0], s, t, -1)
            with lock:
                alone[key] = a
        rc, o, e = sh(race_cmd(build(cfg), s, t, how), timeout=90)
        d, c = race_result(rc, o, e, cfg, s, t, how)
        if d != a:
            n = sum(x != y for x, y in zip(a, d)) + abs(len(a) - len(d))
            raise Violation(
                f"{n} of {len(a)} pieces of work by {t} threads at once give other answers than one thread alone",
                f"seed {s} threads {t}", build=cfg, seed=s, threads=t, how=how, race=True,
            )
        with lock:
            calls[0] += c

    with cf.ThreadPoolExecutor(par) as ex:
        list(ex.map(one, jobs))
    for c in cfgs:
        run.add(c, processes=sum(1 for j in jobs if j[0] == c))
    run.evaluations += calls[0]
    run.distinct += len(set((j[1], j[2], j[3]) for j in jobs))
    run.extra["single-threaded references"] = run.extra.get("single-threaded references", 0) + len(alone)
    run.extra["concurrent processes"] = run.extra.get("concurrent processes", 0) + len(jobs)
    run.extra["most threads at once"] = max([run.extra.get("most threads at once", 0)] + [j[2] for j in jobs])


def race_tsan(run, n):
    exe = build("tsan")
    lock = threading.Lock()
    tot = [0]

    def one(k):
        s = run.seed * 104729 + k
        t = [4, 8, 3][k % 3]
        # a report makes the exit code 66; the first one ends the process
        rc, o, e = sh(race_cmd(exe, s, t, k, small=True), timeout=240, env={"TSAN_OPTIONS": "halt_on_error=1 second_deadlock_stack=1"})
        if "unexpected memory mapping" in e:
            rc, o, e = sh(["setarch", "-R"] + race_cmd(exe, s, t, k, small=True), timeout=240, env={"TSAN_OPTIONS": "halt_on_error=1"})
            if "unexpected memory mapping" in e:
                return None
        d, c = race_result(rc, o, e, "tsan", s, t, k)
        rc, o, e = sh(race_cmd(build("default"), s, t, 0, alone=True, small=True), timeout=120)
        a, _ = race_result(rc, o, e, "default", s, t, -1)
        if a != d:
            raise Violation("threads at once give other answers than one thread alone", f"seed {s} threads {t}", build="tsan", seed=s, threads=t, how=k, race=True)
        with lock:
            tot[0] += c
        return c

    with cf.ThreadPoolExecutor(4) as ex:
        r = list(ex.map(one, range(n)))
    if None in r:
        run.note("ThreadSanitizer cannot map its shadow memory here")
    run.add("tsan", processes=sum(x is not None for x in r), api_calls=tot[0])
    run.evaluations += tot[0]
    run.distinct += sum(x is not None for x in r)


def miri_race(run, k, lines):
    build("miri")
    f = f"{run.scratch}/race-{k}.txt"
    with open(f, "w") as fh:
        fh.write("\n".join(lines) + "\n")
    env = miri_env("miri")
    env["MIRIFLAGS"] += f" -Zmiri-seed={run.seed * 31 + k} -Zmiri-preemption-rate={[0.01, 0.05, 0.2][k % 3]} -Zmiri-ignore-leaks"
    t = time.time()
    rc, o, e = sh(miri_cmd("miri", [f, "--threads", "3"]), env=env, cwd=HARNESS, timeout=400 if not run.thorough else 2400)
    m = re.search(r"RACE (.*)", o)
    if m:
        raise Violation(f"under Miri: {m.group(1)}", "; ".join(lines), build="miri", race=True, miri=True)
    miri_verdict(run, "miri", rc, e, "; ".join(lines), f"race {k}")
    if rc is None:
        run.note("a Miri race run was cut off by its time limit")
    log(f"miri race {k}: rc {rc} {time.time() - t:.1f}s")
    run.add("miri", schedules=1 if rc == 0 else 0, seconds=round(time.time() - t, 1))
    run.distinct += rc == 0


# ----------------------------------------------------------------- C23


def check_ub(run):
    nat = ["default", "simd", "plain"] + (["plainsimd"] if run.thorough else [])
    asan = ["asan", "asansimd"] if run.thorough else ["asansimd"]
    miri = ["miri", "miri-simd", "miri-arm-simd"] + (["miri-arm"] if run.thorough else [])
    with cf.ThreadPoolExecutor(10) as ex:
        fb = {c: ex.submit(build, c) for c in nat + asan + miri}
        wb = ex.submit(build, "wasm") if run.thorough else None
        for c in nat:
            fb[c].result()
        if neon(run):
            nat.append("neon")
        lines = small_scripts(run, run.seed, 600)
        budget = 80 if not run.thorough else 1500
        per = 1 if not run.thorough else 2
        jobs = []
        for c in miri:
            fb[c].result()
        n = len(miri) * per
        for i, c in enumerate(miri):
            for k in range(per):
                w = i * per + k
                jobs.append((c, ex.submit(miri_scripts, run, c, k, lines[w::n], budget, 1, "-Zmiri-symbolic-alignment-check")))
        for c, s in zip(nat, seeds(run, len(nat))):
            native(run, c, s, threads=max(2, NCPU - 2), scale=1.0 if c == "plain" and not run.thorough else None)
        for c in asan:
            fb[c].result()
            native(run, c, run.seed + 77, threads=max(2, NCPU - 2), scale=0.5 if not run.thorough else 0.3, env={"ASAN_OPTIONS": "detect_leaks=0"})
        if wb:
            items = [[23, 60, i] for i in range(800)]
            wasm_run(run, "wasm", {"mode": "items", "seed": run.seed}, 0, 0, items=items)
        for c, j in jobs:
            got = j.result()
            if c != "miri":
                pass
            compare_miri_tail(run, c, got)
    for c in miri:
        if run.builds.get(c, {}).get("scripts", 0) == 0:
            run.note(f"{c}: nothing was observed under Miri in this run")


def compare_miri_tail(run, config, got):
    """Under Miri the answers must be the native ones too (else something read
    what it should not have)."""
    if not got:
        return
    want = native_digests(run, "default", [l for l, _ in got], tail=1)
    for (l, d), w in zip(got, want):
        if d != w:
            raise Violation(f"{config}: under Miri the library answers differently", l, build=config, line=l, miri=True)


# ----------------------------------------------------------------- C24

def check_trees(run):
    """Trees from many roots, and what the repository's own perft program
    prints for the initial position."""
    cfgs = ["example", "examplesimd"]
    with cf.ThreadPoolExecutor(2) as ex:
        jobs = {c: ex.submit(build, c) for c in cfgs}
        depth = 5 if run.thorough else 4
        rc, o, e = sh([build("default"), "divide", "--depth", str(depth)], timeout=800)
        if rc != 0:
            raise CheckError("divide: " + e[-1000:])
        want = [dict((m, int(n)) for m, n in (x.split(":") for x in l.split())) for l in o.splitlines()]
        for c in cfgs:
            try:
                exe = jobs[c].result()
            except CheckError as x:
                log(str(x)[-1500:])
                run.note("examples/perft.rs does not build on its own: " + str(x)[-200:])
                continue
            for d in range(1, depth + 1):
                rc, o, e = sh([exe, str(d)], timeout=600)
                line = f"examples/perft {d}"
                if rc is None:
                    raise CheckError(line + ": no answer in time")
                if rc != 0:
                    raise Violation(f"{line} fails: {(o + e)[-300:]}", line, build=c, perft=d)
                got = dict((m, int(n)) for m, n in re.findall(r"^((?:\d[a-i]|[PLNSGBR]\*)\d[a-i]\+?): (\d+)$", o, re.M))
                tot = re.search(r"Searched: (\d+) nodes", o)
                if not got or not tot:
                    run.note(f"{line} prints something else than it did; not compared")
                    break
                w = want[d - 1]
                bad = [f"{m}: {got.get(m)} instead of {w.get(m)}" for m in sorted(set(got) | set(w)) if got.get(m) != w.get(m)]
                if bad or int(tot.group(1)) != sum(w.values()):
                    raise Violation(f"{line} counts {', '.join(bad[:4]) or tot.group(0)}", line, build=c, perft=d)
                with run.lock:
                    b = run.builds.setdefault(c, {"leaves counted by the example program": 0, "deepest": 0})
                    b["leaves counted by the example program"] += int(tot.group(1))
                    b["deepest"] = d
    check_native(run)


# ----------------------------------------------------------------- C29


def anyenv(run):
    """A library to preload, under which every environment variable is set."""
    so = f"{B}/anyenv.so"
    tmp = f"{run.scratch}/anyenv.so"
    rc, o, e = sh(["gcc", "-O1", "-shared", "-fPIC", "-o", tmp, V + "/preload/anyenv.c"], timeout=60)
    if rc != 0:
        run.note("environment variables cannot be pretended here: " + e[-200:])
        return None
    os.replace(tmp, so)
    return so


def check_quiet(run):
    """Processes that use the library under a system call filter."""
    cfgs = ["default", "simd", "plain"] + (["plainsimd"] if run.thorough else [])
    prebuild(cfgs)
    if neon(run):
        cfgs.append("neon")
    per = 1536 if not run.thorough else 60000
    jobs = [(c, s, k * per) for c, s in zip(cfgs, seeds(run, len(cfgs))) for k in range(NCPU)]
    so = anyenv(run)

    def one(job):
        c, s, at = job
        env = {"LD_PRELOAD": so} if so and (at // per) % 2 else None
        rc, o, e = sh([build(c), "quiet", "--seed", str(s), "--from", str(at), "--count", str(per)], timeout=600, env=env)
        m = re.search(r"^confined (\d) items (\d+) states (\d+) calls (\d+)", o, re.M)
        if rc not in (0, 1) or not m:
            raise CheckError(f"quiet {c}: {rc} {o[-500:]} {e[-2000:]}")
        n = dict(zip(("confined", "items", "states", "calls"), map(int, m.groups())))
        if not n["confined"]:
            run.note("system calls cannot be filtered here: only output, environment, floating point state and panic hook were watched")
        m = re.search(r"^FOUND (.*) \[(.*)\]$", o, re.M | re.S)
        if m:
            raise Violation(m.group(1), m.group(2), build=c, seed=s, quiet=at + n["items"], anyenv=bool(env))
        return c, n

    with cf.ThreadPoolExecutor(NCPU) as ex:
        for c, n in ex.map(one, jobs):
            run.add(c, processes=1, filtered=n["confined"], api_calls=n["calls"], items=n["items"], states=n["states"])
            run.evaluations += n["calls"]
            run.distinct = max(run.distinct, n["states"])
    run.samples.append(f"{len(jobs)} processes, {per} items each (walks of 14 families, do and undo, clones, Debug output)")


# ----------------------------------------------------------------- main

SPECIAL = {"C29": check_quiet, "C24": check_trees, "C18": check_orders, "C16": check_keys, "C21": check_backends, "C22": check_threads, "C23": check_ub}


def write_evidence(run, violations, wall):
    cov = {
        "evaluations": int(run.evaluations),
        "distinct_nontrivial": int(run.distinct),
        "rule": RULES[run.prop][1],
        "samples": run.samples[:8],
        "observed": run.builds,
    }
    cov.update(run.extra)
    if run.notes:
        cov["notes"] = run.notes
    ev = {
        "property": run.prop,
        "tier": run.tier,
        "seed": run.seed,
        "level": "exploration",
        "coverage": cov,
        "assumptions": [
            "the rules model of /verif/harness/src/model.rs states the rules of shogi (checked on every run against published perft counts)",
            "positions are valid: at most 2 pawns-per-file rules etc. as in_domain says; boards without the opponent's king have at most 593 moves; ply stays within u16",
        ],
        "wall_s": round(wall, 2),
        "violations": violations,
    }
    os.makedirs(V + "/evidence", exist_ok=True)
    tmp = f"{V}/evidence/.{run.prop}.tmp"
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, f"{V}/evidence/{run.prop}.json")


def kill_all():
    for p in list(procs):
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except (ProcessLookupError, PermissionError):
            pass


def main():
    global HASH
    ap = argparse.ArgumentParser()
    ap.add_argument("--prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or 1))
    ap.add_argument("--setup", action="store_true")
    ap.add_argument("--replay")
    a = ap.parse_args()
    os.makedirs(B, exist_ok=True)
    HASH = tree_hash()
    if a.setup:
        prebuild(["default", "simd"])
        rc, o, e = sh([build("default"), "selftest"], timeout=120)
        print("self test of the rules model:", o.strip(), e.strip())
        return 0 if rc == 0 else 2
    if a.replay:
        return replay(a.replay)
    run = Run(a.prop, a.tier, a.seed)
    t = time.time()
    try:
        SPECIAL.get(a.prop, check_native)(run)
        found = None
    except Violation as v:
        found = v
    finally:
        kill_all()
    wall = time.time() - t
    shutil.rmtree(run.scratch, ignore_errors=True)
    for s in sorted(set(run.known_hits)):
        print(f"KNOWN-FINDING: property={run.prop} {run.known.get(s, s)}")
    if found is not None and found.signature in run.known:
        print(f"KNOWN-FINDING: property={run.prop} {run.known[found.signature]}")
        found = None
    write_evidence(run, 0 if found is None else 1, wall)
    if found is None:
        print(f"{run.prop} held: {run.evaluations} evaluations, {run.distinct} distinct, {wall:.1f}s")
        return 0
    os.makedirs(B + "/replay", exist_ok=True)
    rf = f"{B}/replay/{run.prop}-{run.tier}-{run.seed}.json"
    with open(rf, "w") as f:
        json.dump(
            dict(property=run.prop, tier=run.tier, seed_of_run=run.seed, what=found.what, signature=found.signature, **found.more),
            f,
            indent=1,
        )
    print(found.what[:3000])
    print("at:", found.signature[:3000])
    print(f"VIOLATION property={run.prop} replay={rf}")
    return 1


def replay(path):
    """Run what a violation recorded, again."""
    d = json.load(open(path))
    cfg = d.get("build", "default")
    print(json.dumps({k: v for k, v in d.items() if k != "log"}, indent=1))
    if d.get("race"):
        if d.get("miri"):
            print("run the check again with the same seed")
            return 2
        bad = 0
        rc, o, e = sh(race_cmd(build("default"), d["seed"], d["threads"], 0, alone=True), timeout=120)
        for _ in range(20):
            rc2, o2, e2 = sh(race_cmd(build(cfg), d["seed"], d["threads"], d.get("how", 0)), timeout=120)
            bad += rc2 != 0 or o.split("digests")[-1] != o2.split("digests")[-1]
        print(f"{bad} of 20 runs show it")
        return 1 if bad else 0
    if d.get("miri"):
        run = Run(d["property"], d["tier"], d["seed_of_run"])
        try:
            compare_miri(run, cfg, miri_scripts(run, cfg, 0, [d["signature"]], 900))
        except Violation as v:
            print("again:", v.what)
            return 1
        return 0
    if "order" in d:
        q = ["orderdigest", "--seed", str(d["seed"]), "--count", str(d["count"]), "--order"]
        x, y = (sh([build(c)] + q + [str(o)], timeout=2000)[1].split() for c, o in (("default", 0), (cfg, d["order"])))
        n = sum(a != b for a, b in zip(x, y)) + abs(len(x) - len(y))
        print(f"{n} of {len(x)} positions answer differently")
        return 1 if n else 0
    if "line" in d:
        x = sh([build("default"), "obsdump", "--line", d["line"]])[1]
        y = sh([build(cfg), "obsdump", "--line", d["line"]])[1] if not cfg.startswith("wasm") else "(WebAssembly)"
        print("default:\n" + x + cfg + ":\n" + y)
        return 1 if x != y else 0
    if "quiet" in d:
        rc, o, e = sh([build(cfg), "quiet", "--seed", str(d["seed"]), "--from", str(d["quiet"]), "--count", "1"], timeout=600, env={"LD_PRELOAD": B + "/anyenv.so"} if d.get("anyenv") else None)
        print(o + e)
        return 1 if rc == 1 else 0
    if "perft" in d:
        o = sh([build("default"), "divide", "--depth", str(d["perft"])], timeout=800)[1].splitlines()[-1]
        rc, o2, e = sh([build(cfg), str(d["perft"])], timeout=600)
        print("the rules model:\n" + o + "\nthe program:\n" + o2 + e)
        got = dict(re.findall(r"^(\S+): (\d+)$", o2, re.M))
        return 1 if rc != 0 or any(got.get(m) != n for m, n in (x.split(":") for x in o.split())) else 0
    if "family" in d:
        c = [build(cfg), "item", "--prop", d.get("check", d["property"]), "--seed", str(d["seed"]), "--family", str(d["family"]), "--idx", str(d["idx"])]
        c += ["--tier", d["tier"]]
        rc, o, e = sh(c, timeout=600)
        print(o + e)
        if rc == 0 and re.match(r"^\S+ [bw] \S+ \d+", d["signature"]):
            rc, o, e = sh([build(cfg), "replay", "--prop", d.get("check", d["property"]), "--line", d["signature"]], timeout=600)
            print(o + e)
        return 1 if rc in (1, 3) or (rc is not None and rc < 0) else 0
    return 2


if __name__ == "__main__":
    try:
        code = main()
    except CheckError as e:
        kill_all()
        print(f"the check could not be carried out: {e}", file=sys.stderr)
        code = 2
    sys.stdout.flush()
    os._exit(code)
