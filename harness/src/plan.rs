//! Which items a check consists of, and how each is run.

use crate::check::*;
use crate::engine::*;
use crate::special::*;

/// The items of a run: (family, how many).
pub fn plan(prop: &str, thorough: bool, scale: f64) -> Vec<(usize, u64)> {
    let t = if thorough { 25.0 } else { 1.0 } * scale;
    let n = |x: f64| (x * t).ceil().max(1.0) as u64;
    // weights of the walk families, per property
    let walks = |total: f64, w: &[(usize, f64)]| -> Vec<(usize, u64)> {
        let mut base: Vec<(usize, f64)> = (0..14).map(|f| (f, 1.0)).collect();
        for &(f, x) in w {
            base[f].1 = x;
        }
        let sum: f64 = base.iter().map(|b| b.1).sum();
        base.into_iter()
            .filter(|b| b.1 > 0.0)
            .map(|(f, x)| (f, n(total * x / sum)))
            .collect()
    };
    let mut v = match prop {
        "C01" | "C02" => walks(70000.0, &[(0, 0.3), (9, 0.5)]),
        "C03" => walks(
            90000.0,
            &[(0, 0.2), (5, 12.0), (4, 0.0), (2, 0.1), (9, 0.1)],
        ),
        "C04" => walks(70000.0, &[(0, 0.3), (7, 2.0), (8, 2.0), (5, 2.0)]),
        "C05" => walks(
            150000.0,
            &[(0, 0.05), (7, 45.0), (3, 0.0), (4, 0.0), (9, 0.1)],
        ),
        "C06" => walks(70000.0, &[(0, 0.3), (13, 4.0)]),
        "C07" => walks(
            90000.0,
            &[(0, 0.2), (6, 10.0), (2, 0.1), (4, 0.0), (5, 3.0)],
        ),
        "C09" => walks(28000.0, &[(0, 0.4)]),
        "C10" => walks(1800.0, &[(0, 0.4)]),
        "C11" => walks(50000.0, &[(0, 0.3), (5, 3.0), (10, 4.0), (6, 3.0)]),
        "C12" => walks(
            50000.0,
            &[(0, 0.3), (10, 6.0), (6, 3.0), (4, 0.2), (3, 0.2)],
        ),
        "C13" => walks(20000.0, &[(0, 0.6), (12, 3.0)]),
        "C14" => walks(4000.0, &[(0, 0.6)]),
        "C15" => walks(12000.0, &[(0, 0.6)]),
        "C17" => walks(30000.0, &[(0, 0.5)]),
        "C18" => walks(20000.0, &[(0, 0.5)]),
        "C20" => walks(40000.0, &[(0, 0.5), (4, 0.5)]),
        _ => vec![],
    };
    if matches!(
        prop,
        "C02"
            | "C03"
            | "C04"
            | "C07"
            | "C09"
            | "C10"
            | "C11"
            | "C12"
            | "C13"
            | "C15"
            | "C17"
            | "C18"
            | "C20"
    ) {
        v.push((
            53,
            n(if matches!(prop, "C13" | "C17" | "C18" | "C10") {
                600.0
            } else {
                300.0
            }),
        ));
    }
    if matches!(prop, "C01" | "C02" | "C03" | "C04" | "C07" | "C11" | "C12") {
        v.push((54, n(60.0)));
    }
    match prop {
        "C01" | "C02" | "C03" | "C07" | "C11" | "C12" | "C20" => {
            v.push((20, 162));
            v.push((21, 162));
        }
        "C04" => v.push((22, 512)),
        "C06" => v.push((20, 162)),
        "C08" => v.push((30, 810)),
        "C14" => {
            v.push((40, 81 * 28));
            v.push((41, 200));
            v.push((42, n(1200.0)));
        }
        "C15" => {
            v.push((41, 200));
            v.push((43, n(2500.0)));
        }
        "C10" => {
            v.push((52, n(60.0)));
            v.push((62, n(1500.0)));
        }
        "C18" => v.push((51, n(100.0))),
        "C19" => v.push((50, n(6000.0))),
        "C23" => {
            v.push((60, n(2600.0)));
            v.push((61, n(16.0)));
            v.push((62, n(4000.0)));
        }
        "C24" => {
            v.extend([0usize, 1, 2, 3, 5, 6, 7, 8, 10, 11, 12, 13].map(|f| (70 + f, n(400.0))))
        }
        "C25" => v.push((90, 131 + n(2500.0))),
        "C27" => v.push((110, n(if thorough { 500.0 } else { 1000.0 }))),
        "C30" => v.push((116, n(8000.0))),
        "C28" => v.push((115, n(if thorough { 160.0 } else { 480.0 }))),
        "C26" => v.push((100, if thorough { 256 } else { 48 })),
        _ => {}
    }
    v
}

pub fn dispatch(cx: &mut Cx, sh: &Shared, family: usize, idx: u64) -> Res {
    match family {
        0..=13 => walk_item(cx, sh, family),
        20 => duel_item(cx, sh, idx),
        21 => line_item(cx, sh, idx),
        22 => files_item(cx, sh, idx),
        30 => {
            // quick: one side of each square in full for the plain pieces, a
            // part of the patterns for the rest; thorough: everything
            let k = idx / 162 % 5;
            let full = cx.thorough || k == 2 || (k < 2 && (idx + idx / 2 + cx.seed) % 2 == 0);
            slider_item(cx, idx, if full { 1 } else { 8 })
        }
        40 => two_piece_item(cx, sh, idx),
        41 => hands_item(cx, sh, idx),
        42 => neighbours_item(cx, sh),
        43 => cross_item(cx, sh),
        50 => clone_item(cx),
        51 => repeat_item(cx, idx),
        52 => again_item(cx, idx),
        53 => loop_item(cx, sh, idx),
        54 => steady_item(cx, idx),
        60 => {
            let plies = cx.rng.range(200, 900);
            fuzz_item(cx, plies)
        }
        61 => marathon_item(cx),
        62 => late_item(cx),
        70..=83 => {
            let budget = match (cx.thorough, idx % 16) {
                (false, 0) => 400000,
                (false, _) => 20000,
                (true, 0) => 3000000,
                (true, _) => 100000,
            };
            perft_item(cx, family - 70, budget)
        }
        90 => construct_item(cx, idx),
        100 => {
            let plies = if cx.thorough {
                if idx < 2 {
                    65534
                } else {
                    [30000, 33000, 40000, 65534][idx as usize % 4]
                }
            } else {
                [65534, 9000, 20000, 32800][(idx / 4) as usize % 4]
            };
            long_item(cx, idx, plies, if cx.thorough { 200 } else { 60 })
        }
        110 => mem_item(cx, idx),
        116 => abuse_item(cx, idx),
        115 => crate::cost::cost_item(cx, idx),
        _ => panic!("no family {family}"),
    }
}

/// Script number i of the seed.
pub fn script_no(seed: u64, i: u64, len: usize) -> String {
    let mut cx = Cx::new("scripts", seed, false);
    cx.rng = item_rng("scripts", seed, 0, i);
    script_line(&mut cx, (i % 14) as usize, len)
}
