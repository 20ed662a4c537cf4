//! replay FILE [--tail N] [--threads N]
//!
//! Replays script lines against the real library and prints one digest each.
//! Small enough for Miri.

use vh::special::*;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let num = |k: &str, d: usize| {
        args.iter()
            .position(|a| a == k)
            .and_then(|i| args.get(i + 1))
            .and_then(|v| v.parse().ok())
            .unwrap_or(d)
    };
    let text = std::fs::read_to_string(&args[1]).expect("script file");
    let (skip, take) = (num("--skip", 0), num("--take", usize::MAX));
    let lines: Vec<&str> = text.lines().filter(|l| !l.is_empty()).skip(skip).take(take).collect();
    let threads = num("--threads", 0);
    if threads > 0 {
        let h: Vec<_> = lines.iter().map(|l| parse_line(l).expect("line")).collect();
        match vh::multi::race_lines(&h, threads) {
            Ok(()) => println!("held"),
            Err(e) => {
                println!("RACE {e}");
                std::process::exit(1);
            }
        }
        return;
    }
    let tail = num("--tail", 0);
    for l in lines {
        println!("begin {l}");
        let h = parse_line(l).expect("line");
        let mut n = 0;
        let d = replay_digest(&h, tail, |_, _, _| n += 1);
        println!("digest {d:016x} {n}");
    }
}
