#!/usr/bin/env python3
"""Make or re-confirm planted bugs.

  plant.py make SPEC.py    SPEC defines bugs = [dict(id, property, needs, what_it_breaks, edits=[(file, old, new)], main, simd=False)]
  plant.py confirm [ID..]  re-confirm /verif/seeded/*: applies, builds, stable tests pass, demo 0 without and nonzero with it
  plant.py catch [ID..]    apply each to /repo, run its property's check, undo
"""
import json, os, re, subprocess, sys, shutil, runpy, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = V + "/seeded"
W = "/tmp/plant"

DEMO = """#!/bin/sh
# Run in the root of the repository.
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
tmp=$(mktemp -d) || exit 99
trap 'rm -rf "$tmp"' EXIT
mkdir -p "$tmp/src"
cp "$here/main.rs" "$tmp/src/main.rs"
[ -f "$here/Cargo.lock" ] && cp "$here/Cargo.lock" "$tmp/Cargo.lock"
cat > "$tmp/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[features]
simd = ["yasai/simd"]
[dependencies]
yasai = { path = "$repo" }
shogi_core = "0.1.4"
shogi_usi_parser = "0.1.0"
[profile.dev]
opt-level = 1
EOF
cd "$tmp" || exit 99
CARGO_TARGET_DIR="$tmp/target" @ENV@ cargo @TC@ @SUB@ --offline -q @FLAGS@ || exit 1
"""
HEAD = """#![allow(dead_code, unused_imports, unused_mut)]
use shogi_core::{Color, Hand, Move, PartialPosition, Piece, PieceKind, Square};
use shogi_usi_parser::FromUsi;
use yasai::Position;

fn pos(sfen: &str) -> Position {
    Position::new(PartialPosition::from_usi(&format!("sfen {sfen}")).expect("sfen"))
}
fn sq(s: &str) -> Square {
    let b = s.as_bytes();
    Square::new(b[0] - b'0', b[1] - b'a' + 1).unwrap()
}
fn mv(p: &Position, s: &str) -> Move {
    if s.as_bytes()[1] == b'*' {
        let pk = match s.as_bytes()[0] {
            b'P' => PieceKind::Pawn,
            b'L' => PieceKind::Lance,
            b'N' => PieceKind::Knight,
            b'S' => PieceKind::Silver,
            b'G' => PieceKind::Gold,
            b'B' => PieceKind::Bishop,
            _ => PieceKind::Rook,
        };
        Move::Drop { to: sq(&s[2..4]), piece: Piece::new(pk, p.side_to_move()) }
    } else {
        Move::Normal { from: sq(&s[0..2]), to: sq(&s[2..4]), promote: s.ends_with('+') }
    }
}
fn go(p: &mut Position, s: &str) {
    for m in s.split_whitespace() {
        let m = mv(p, m);
        assert!(p.legal_moves().contains(&m), "{m:?} is not offered");
        p.do_move(m);
    }
}
fn has(p: &Position, s: &str) -> bool {
    p.legal_moves().contains(&mv(p, s))
}
/// The same position, newly made.
fn again(p: &Position) -> Position {
    let mut q = PartialPosition::empty();
    for s in Square::all() {
        q.piece_set(s, p.piece_at(s));
    }
    for c in Color::all() {
        *q.hand_of_a_player_mut(c) = p.hand(c);
    }
    q.side_to_move_set(p.side_to_move());
    let _ = q.ply_set(p.ply());
    Position::new(q)
}
fn sorted(p: &Position) -> Vec<String> {
    let mut v: Vec<String> = p.legal_moves().iter().map(|m| format!("{m:?}")).collect();
    v.sort();
    v
}
"""


def run(cmd, cwd=None, env=None, timeout=600):
    e = dict(os.environ)
    e.update(env or {})
    e["RUST_BACKTRACE"] = "0"
    try:
        p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        return p.returncode, p.stdout.decode("utf-8", "replace")
    except subprocess.TimeoutExpired:
        return None, "timeout"


def copy():
    shutil.rmtree(W, ignore_errors=True)
    os.makedirs(W)
    subprocess.check_call(["cp", "-a", "/repo", W + "/repo"])


def brief(o):
    return " / ".join(l.strip()[:150] for l in o.splitlines() if any(w in l for w in ("panicked", "assert", "error", "left:", "right:", "FAILED", "Undefined", "WARNING: Thread")))[:700]


def stable():
    return json.load(open("/opt/vp/BASELINE.json"))


def tests(d):
    # as /opt/vp does: default, simd and the benchmarks (each run once)
    out = []
    for fl, env in (([], "-C target-cpu=x86-64"), (["--features", "simd"], "-C target-cpu=x86-64-v3")):
        rc, o = run(["cargo", "test", "--offline", "--lib", "--target-dir", f"{W}/t{len(fl)}"] + fl, cwd=d, env={"RUSTFLAGS": env})
        out.append((rc, o))
    out.append(run(["cargo", "+nightly", "test", "--features", "simd", "--release", "--bench", "*", "--offline", "--target-dir", f"{W}/t9"], cwd=d, env={"RUSTFLAGS": "-C target-cpu=x86-64-v3"}))
    return all(r == 0 for r, _ in out), "\n".join(brief(o) for r, o in out if r != 0)


def confirm(i, wt=W + "/repo"):
    d = f"{S}/{i}"
    run(["git", "checkout", "-q", "--", "."], cwd=wt)
    rc0, o0 = run(["sh", d + "/demo.sh"], cwd=wt, timeout=300)
    rc, o = run(["git", "apply", d + "/patch.diff"], cwd=wt)
    if rc != 0:
        return f"does not apply: {o}"
    ok, t = tests(wt)
    rc1, o1 = run(["sh", d + "/demo.sh"], cwd=wt, timeout=300)
    run(["git", "checkout", "-q", "--", "."], cwd=wt)
    bad = []
    if rc0 != 0:
        bad.append(f"demo fails on the unchanged tree: {rc0} {brief(o0)}")
    if not ok:
        bad.append("tests fail: " + t)
    if rc1 == 0:
        bad.append("demo passes with the change")
    return "; ".join(bad) or ("ok: " + brief(o1))


def main():
    what, args = sys.argv[1], sys.argv[2:]
    if what == "make":
        copy()
        for spec in args:
            for b in runpy.run_path(spec)["bugs"]:
                d = f"{S}/{b['id']}"
                wt = W + "/repo"
                run(["git", "checkout", "-q", "--", "."], cwd=wt)
                for f, old, new in b["edits"]:
                    p = f"{wt}/{f}"
                    s = open(p).read()
                    if s.count(old) != 1:
                        print(b["id"], "EDIT matches", s.count(old), "times:", old[:60])
                        break
                    open(p, "w").write(s.replace(old, new))
                else:
                    shutil.rmtree(d, ignore_errors=True)
                    os.makedirs(d)
                    diff = subprocess.check_output(["git", "diff"], cwd=wt)
                    open(d + "/patch.diff", "wb").write(diff)
                    simd = b.get("simd")
                    demo = b.get("demo") or (
                        DEMO.replace("@ENV@", b.get("env", "RUSTFLAGS='-C target-cpu=x86-64-v3'" if simd else "RUSTFLAGS='-C target-cpu=x86-64'"))
                        .replace("@TC@", b.get("toolchain", ""))
                        .replace("@SUB@", b.get("sub", "run"))
                        .replace("@FLAGS@", b.get("flags", "--features simd" if simd else ""))
                    )
                    if b.get("shim"):
                        # run another architecture's bitboard here, with portable intrinsics
                        shutil.copy(b["shim"], d + "/arch.rs")
                        a, f = b["arch"]
                        demo = demo.replace('cd "$tmp" || exit 99\n', f"""mkdir "$tmp/lib"
cp -r "$repo/src" "$repo/Cargo.toml" "$tmp/lib/" || exit 99
sed -i '/^\\[\\[bench\\]\\]/,$d' "$tmp/lib/Cargo.toml"
cp "$here/arch.rs" "$tmp/lib/src/vp_arch.rs"
echo 'mod vp_arch;' >> "$tmp/lib/src/lib.rs"
find "$tmp/lib/src" -name '*.rs' ! -name vp_arch.rs -exec sed -i -e 's/std::arch::{a}/crate::vp_arch::{a}/g' -e 's/target_arch = "{a}"/all()/' -e 's/target_feature = "{f}"/all()/' {{}} +
sed -i "s#path = .*/\\?\\"#path = \\"$tmp/lib\\"#" "$tmp/Cargo.toml"
cd "$tmp" || exit 99
""")
                    if b.get("two"):
                        # the same program built with the feature, for comparison
                        demo = demo.replace('cd "$tmp" || exit 99\n', """cd "$tmp" || exit 99
CARGO_TARGET_DIR="$tmp/other" RUSTFLAGS='-C target-cpu=x86-64-v3' cargo build --offline -q --features simd || exit 1
OTHER="$tmp/other/debug/demo"
export OTHER
""")
                    open(d + "/demo.sh", "w").write(demo)
                    open(d + "/main.rs", "w").write(HEAD + b["main"])
                    shutil.copy(V + "/tools/demo.lock", d + "/Cargo.lock")
                    json.dump({k: b[k] for k in ("property", "needs", "what_it_breaks")}, open(d + "/meta.json", "w"), indent=1)
                    print(b["id"], confirm(b["id"]), flush=True)
        shutil.rmtree(W, ignore_errors=True)
    elif what == "confirm":
        copy()
        for i in args or sorted(os.listdir(S)):
            print(i, confirm(i), flush=True)
        shutil.rmtree(W, ignore_errors=True)
    elif what == "catch":
        # on copies, side by side as /repo and /verif are
        C = os.environ.get("PLANT_DIR", "/tmp/plantc")
        os.makedirs(C, exist_ok=True)
        run(["rsync", "-a", "--delete", "/repo/", C + "/repo/"]) if shutil.which("rsync") else (shutil.rmtree(C + "/repo", ignore_errors=True), subprocess.check_call(["cp", "-a", "/repo", C + "/repo"]))
        run(["git", "-C", C + "/repo", "checkout", "-q", "--", "."])
        os.makedirs(C + "/verif", exist_ok=True)
        for x in os.listdir(V):
            if x in ("build", ".git", "seeded", "evidence", "__pycache__"):
                continue
            d = C + "/verif/" + x
            shutil.rmtree(d) if os.path.isdir(d) else os.path.exists(d) and os.unlink(d)
            (shutil.copytree if os.path.isdir(f"{V}/{x}") else shutil.copy)(f"{V}/{x}", d)
        got = {}
        R = V + "/tools/caught.json"
        for i in args or sorted(os.listdir(S)):
            p = json.load(open(f"{S}/{i}/meta.json"))["property"]
            rc, o = run(["git", "-C", C + "/repo", "apply", f"{S}/{i}/patch.diff"])
            if rc != 0:
                print(i, "does not apply", o)
                continue
            t = time.time()
            try:
                rc, o = run([sys.executable, C + "/verif/check.py", "--prop", p], cwd=C + "/verif", timeout=900, env={"VERIF_SEED": os.environ.get("VERIF_SEED", "1"), "VERIF_TIER": "quick"})
            finally:
                run(["git", "-C", C + "/repo", "checkout", "-q", "--", "."])
            lines = [l for l in o.splitlines() if not l.startswith("[")]
            print(i, p, "rc", rc, f"{time.time() - t:.0f}s", " | ".join(l[:160] for l in lines[-3:]), flush=True)
            what = ([l for l in lines if "VIOLATION" not in l and l.strip()] or [""])[-1]
            what = re.sub(r"\s*\[[^\]]{40,}.*$", "", what).replace("|", "/")[:150]
            got[i] = f"{p}: {what}" if rc == 1 and any("VIOLATION property=" + p in l for l in lines) else "MISSED"
            old = json.load(open(R)) if os.path.exists(R) else {}
            old.update(got)
            json.dump({k: old[k] for k in sorted(old) if os.path.exists(f"{S}/{k}")}, open(R, "w"), indent=1)


main()
