#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
V = os.path.dirname(os.path.abspath(__file__))
MODEL = "online monitor comparing the real library with an independently written rules model"
T = {
    "C01": "soundness monitor: every returned move judged by an executable rules model, on generated positions and walks; portable and AVX2 builds with debug assertions",
    "C02": "completeness and no-duplicates monitor against an executable rules model on generated positions and walks",
    "C03": "online monitor of check evasions (model of attacks through the vacated square) on check-heavy workloads",
    "C04": "online monitor of drop sets, with all pawn-file patterns enumerated",
    "C05": "online monitor of pawn-drop mates: reply existence by the rules model, on mating-net workloads",
    "C06": "online monitor of promotion choices per (piece, from, to)",
    "C07": "online monitor of king exposure and of line moves of pinned pieces",
    "C08": "exhaustive occupancy-pattern workload for every slider and square with a ray-walking oracle",
    "C09": "conservation and successor-state monitor after every do_move",
    "C10": "snapshot/restore monitor over nested do/undo sequences",
    "C11": "attack oracle on in_check after construct, do and undo",
    "C12": "attack oracle on the successor compared with is_check_move for every legal move",
    "C13": "path-independence monitor: keys of transpositions, loops, undos and new constructions compared online",
    "C14": "global key table over all positions seen plus systematic feature-difference workloads; collisions judged at the rate of a 63-bit hash; rank over GF(2)",
    "C15": "online tables from (board, side) and hands to key components",
    "C16": "offline comparison of key logs recorded by many processes and builds with different first uses, environments, clocks and CPU sets",
    "C17": "online comparison of played positions with newly constructed ones, and of both under the same further moves",
    "C18": "repeat-query monitor with interleaved work on other positions",
    "C19": "shadow-state monitor over trees of clones with random drops",
    "C20": "metamorphic monitor: rotation with colour exchange, and mirror",
    "C21": "offline comparison of observation logs of portable, AVX2, wasm32 simd128 (node) and AArch64 NEON (Miri) builds, plus monitors inside wasm",
    "C22": "ThreadSanitizer, Miri's race detector over several schedules, and offline comparison of concurrent with single-threaded answers; Send/Sync probe",
    "C23": "panic/overflow/precondition monitors, AddressSanitizer and Miri (x86-64, AVX2, NEON) over fuzzed legal use",
    "C24": "perft monitor: do/undo tree search counted against the rules model per root move",
    "C25": "read-back monitor over generated and systematic partial positions, all ply numbers",
    "C26": "shadow-stack monitor over games up to ply 65535 and all the way back",
    "C27": "allocator monitor: live heap memory over repeated equal use, per thread, and over threads that end",
    "C28": "cost monitor: least thread processor time of every operation on the same board in short and very long games and among many other positions",
    "C30": "fault injection: calls with moves that do not exist, some in other threads, panics caught; all other positions observed before and after and against the rules model",
    "C29": "system call monitor (seccomp filter with trap) in processes that use the library, plus output, environment, floating point state and panic hook compared",
}
NOTE = "Dynamic observation only: holds on everything executed (counts in the evidence file). Trusts the rules model (self-tested against published perft counts), the compiler and the sanitizers. "
N2 = {
    "C08": "All occupancy patterns of a slider's lines are run for lances, rooks and bishops; a seed-chosen part of them for horses and dragons in quick, all in thorough. ",
    "C16": "Compares 24 (thorough 200) differently started processes of several builds (wasm32 under node among them), some with a shifted clock, process id, user and host name, or on fewer CPUs. ",
    "C21": "NEON runs under Miri (standard library's vqmovn_u64 replaced by its portable definition) only for some dozens of observations in quick; at full speed the same AArch64 source runs natively over plain-Rust definitions of its intrinsics. ",
    "C22": "Schedules are sampled, not enumerated. ",
    "C28": "Times are the least of many tries and must be exceeded twelvefold: growth in proportion to the length of the game is seen, a constant factor is not. ",
    "C23": "Miri sees some dozens of observations per backend in quick; the checked and ASan builds see millions. ",
}
checks = []
for p, t in T.items():
    checks.append(
        {
            "property": p,
            "quick_cmd": f"python3 check.py --prop {p} --tier quick",
            "thorough_cmd": f"python3 check.py --prop {p} --tier thorough",
            "evidence_file": f"evidence/{p}.json",
            "technique": "runtime monitoring: " + t,
            "level": "exploration",
            "level_note": NOTE + N2.get(p, ""),
        }
    )
m = {
    "version": 1,
    "setup_cmd": "python3 check.py --setup",
    "checks": checks,
    "not_applicable": [],
    "notes": "No hooks in /repo: everything is observed through the public interface. Known findings: known-findings.txt.",
}
with open(V + "/MANIFEST.json", "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
