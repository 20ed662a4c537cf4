#!/usr/bin/env python3
"""Systematic small changes of /repo/src, to look for gaps in the checks.

  mutate.py list                     how many there are, per file
  mutate.py run SEED COUNT OUT.jsonl [FILE-REGEX]
Each mutant is built in a copy under /tmp/mut (the AArch64 backend natively,
with neon/arch.rs).  For each: which property's monitor (at a small scale)
notices first, and if none, whether the repository's tests do.  Survivors are either
equivalent or gaps."""
import json, os, random, re, shutil, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = "/repo"
W = "/tmp/mut"
FILES = ["src/position.rs", "src/movegen.rs", "src/tables.rs", "src/zobrist.rs", "src/bitboard.rs", "src/bitboard/core.rs", "src/bitboard/x86_64.rs", "src/bitboard/aarch64.rs"]
KINDS = "Pawn Lance Knight Silver Gold Bishop Rook King ProPawn ProLance ProKnight ProSilver ProBishop ProRook".split()
SUB = [
    (r" & ", [" | ", " ^ "]), (r" \| ", [" & ", " ^ "]), (r" \^ ", [" | ", " & "]),
    (r" \^= ", [" |= ", " &= "]), (r" \|= ", [" ^= ", " = "]), (r" &= ", [" |= ", " = "]),
    (r"==", ["!="]), (r"!=", ["=="]), (r" > ", [" >= ", " < "]), (r" < ", [" <= "]), (r" <= ", [" < "]), (r" >= ", [" > "]),
    (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]), (r"\.flip\(\)", [""]), (r"&& ", ["|| "]), (r"\|\| ", ["&& "]),
    (r"(?<=[\s(&|])!(?=[a-zA-Z(])", [""]), (r"Some\((\w+)\)(?= =>)", []), (r"unpromote", ["promote"]),
    (r"\bopp\b", ["opp.flip()"]), (r"\+= 1", ["+= 2", "-= 1"]), (r"-= 1", ["+= 1"]),
    (r"leading_zeros", ["trailing_zeros"]), (r"trailing_zeros", ["leading_zeros"]),
    (r"_mm(256)?_or_", [r"_mm\1_and_"]), (r"_mm(256)?_and_", [r"_mm\1_or_"]), (r"slli", ["srli"]), (r"srli", ["slli"]),
    (r"shift_up", ["shift_down"]), (r"shift_down", ["shift_up"]), (r"\.shl\(\)", [".shr()"]), (r"\.shr\(\)", [".shl()"]),
    (r"vorrq", ["vandq"]), (r"vandq", ["vorrq"]), (r"veorq", ["vorrq"]),
    (r"positive", ["negative"]), (r"negative", ["positive"]),
    (r"\.fu\b", [".gi"]), (r"\.gi\b", [".ki"]), (r"\.ki\b", [".gi", ".ou"]), (r"\.ou\b", [".ki"]), (r"\.ka\b", [".hi"]), (r"\.hi\b", [".ka"]),
    (r"Delta::(N|E|S|W|NE|SE|SW|NW|NNE|NNW|SSE|SSW)\b(?! )", ["Delta::N", "Delta::SE", "Delta::SSW"]),
    (r"Color::Black", ["Color::White"]), (r"Color::White", ["Color::Black"]),
    (r"\bfrom\b(?=[.,)])", ["to"]), (r"\bto\b(?=[.,)])", ["from"]), (r"captured", ["last_moved"]),
    (r"\.0\b", [".1"]), (r"\.1\b", [".0"]), (r"\[0\]", ["[1]"]), (r"\[1\]", ["[0]"]),
]


def mutants():
    out = []
    for f in FILES:
        s = open(f"{R}/{f}").read()
        code = s[: s.find("#[cfg(test)]\nmod tests")] if "#[cfg(test)]\nmod tests" in s else s
        pos = 0
        for line in code.split("\n"):
            st = line.strip()
            skip = st.startswith(("//", "use ", "#[", "pub(crate) use", "mod ")) or not st
            if not skip:
                body = line.split("//")[0]
                for pat, reps in SUB:
                    for m in re.finditer(pat, body):
                        for r in reps:
                            r = m.expand(r)
                            if r != m.group(0):
                                out.append((f, pos + m.start(), pos + m.end(), r))
                for m in re.finditer(r"(?<![\w.])(0x[0-9a-f_]+|\d+)(?![\w.])", body):
                    t = m.group(1)
                    v = int(t.replace("_", ""), 0)
                    if t.startswith("0x"):
                        n = v.bit_length()
                        for b in {0, n // 2, n - 1}:
                            out.append((f, pos + m.start(), pos + m.end(), hex(v ^ (1 << b))))
                    else:
                        out.append((f, pos + m.start(), pos + m.end(), str(v + 1)))
                        if v > 0:
                            out.append((f, pos + m.start(), pos + m.end(), str(v - 1)))
                for m in re.finditer(r"PieceKind::(\w+)", body):
                    if m.group(1) in KINDS:
                        k = KINDS[(KINDS.index(m.group(1)) + 1) % 14]
                        out.append((f, pos + m.start(), pos + m.end(), "PieceKind::" + k))
                if st.endswith(";") and not st.startswith(("let ", "const ", "pub ", "static ", "return", "}", "break", "continue")) and "(" in st or re.match(r"^(keys|self)\..*;$", st):
                    out.append((f, pos, pos + len(line), ""))
                if re.match(r"^\| \(", st):
                    out.append((f, pos, pos + len(line), ""))
            pos += len(line) + 1
    return out


def sh(cmd, cwd, env=None, timeout=300):
    e = dict(os.environ); e.update(env or {})
    try:
        p = subprocess.run(cmd, cwd=cwd, env=e, capture_output=True, text=True, timeout=timeout)
        return p.returncode, p.stdout, p.stderr
    except subprocess.TimeoutExpired as x:
        return None, "", ""


ORDER = ["C02", "C24", "C17", "C12", "C10", "C05", "C03", "C11", "C14", "C15", "C13", "C06", "C08", "C09", "C04", "C07", "C01", "C20", "C18", "C19", "C25", "C23", "C26"]


def main():
    ms = mutants()
    if sys.argv[1] == "list":
        from collections import Counter
        print(len(ms), Counter(m[0] for m in ms))
        return
    seed, count, out = int(sys.argv[2]), int(sys.argv[3]), sys.argv[4]
    if len(sys.argv) > 5:
        ms = [m for m in ms if re.search(sys.argv[5], m[0])]
    random.Random(seed).shuffle(ms)
    if not os.path.exists(W + "/repo"):
        os.makedirs(W, exist_ok=True)
        subprocess.run(["git", "clone", "-q", R, W + "/repo"], check=True)
        shutil.copy(R + "/Cargo.lock", W + "/repo/Cargo.lock") if os.path.exists(R + "/Cargo.lock") else None
    shutil.rmtree(W + "/verif", ignore_errors=True)
    os.makedirs(W + "/verif")
    for x in ("harness", "neon", "wasm", "check.py", "preload"):
        (shutil.copytree if os.path.isdir(f"{V}/{x}") else shutil.copy)(f"{V}/{x}", f"{W}/verif/{x}")
    sys.path.insert(0, W + "/verif")
    import check  # the copy's
    with open(out, "a") as fo:
        for f, a, b, r in ms[:count]:
            orig = open(f"{R}/{f}").read()
            mut = orig[:a] + r + orig[b:]
            ln = orig.count("\n", 0, a) + 1
            rec = dict(file=f, line=ln, text=orig.split("\n")[ln - 1].strip()[:120], old=orig[a:b].strip()[:60], new=r)
            open(f"{W}/repo/{f}", "w").write(mut)
            t = time.time()
            try:
                cfgs = ["neon"] if "aarch64" in f else ["simd"] if "x86" in f else ["default"] if "core" in f else ["default", "simd"]
                check.HASH = check.tree_hash()
                check.memo.clear()
                try:
                    exes = {c: check.build(c) for c in cfgs}
                except check.CheckError:
                    rec["result"] = "does not build"
                    continue
                caught = []
                for p in ORDER:
                    for c in cfgs:
                        rc, o, e = sh([exes[c], "check", "--prop", p, "--seed", "1", "--tier", "quick", "--threads", "8", "--scale", "0.2", "--out", W + "/o.json"], W, None, 120)
                        if rc != 0:
                            caught.append((p, c, rc))
                            break
                    if caught:
                        break
                rec["result"] = "caught" if caught else "SURVIVED"
                rec["by"] = caught
                if not caught and "aarch64" not in f:
                    env = {"RUSTFLAGS": "-C target-cpu=x86-64-v3"}
                    for feat in ([], ["--features", "simd"]):
                        rc, o, e = sh(["cargo", "test", "--offline", "-q", "--lib", "--tests", "--target-dir", W + "/t"] + feat, W + "/repo", env, 200)
                        if rc != 0:
                            rec["tests"] = "fail"
            finally:
                open(f"{W}/repo/{f}", "w").write(orig)
                rec["s"] = round(time.time() - t, 1)
                fo.write(json.dumps(rec) + "\n")
                fo.flush()


main()
