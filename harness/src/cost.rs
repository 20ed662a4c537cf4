//! C28: what an operation costs must not depend on how long the game is or how
//! many other positions there are.  Time is the processor time of this thread,
//! the least of many tries, for the very same work on the very same board.

use crate::engine::*;
use crate::gen::start;
use crate::model::*;
use crate::real;
use yasai::Position;

#[cfg(target_os = "linux")]
fn cpu_ns() -> u64 {
    extern "C" {
        fn clock_gettime(c: i32, t: *mut [i64; 2]) -> i32;
    }
    let mut t = [0i64; 2];
    unsafe {
        clock_gettime(3, &mut t);
    }
    t[0] as u64 * 1_000_000_000 + t[1] as u64
}
#[cfg(not(target_os = "linux"))]
fn cpu_ns() -> u64 {
    0
}

/// At least a linear cost over tens of thousands of moves exceeds this by far;
/// no disturbance of the least of many tries reaches it.
const FACTOR: u64 = 12;
const FLOOR_NS: u64 = 4000;
const NAMES: [&str; 6] = [
    "legal_moves",
    "is_check_move",
    "in_check, key and keys",
    "piece_at, hand, side_to_move and ply",
    "Position::new and drop",
    "clone of a short game and drop",
];

struct Probe {
    moves: Vec<shogi_core::Move>,
    board: Pos,
    fresh: Position,
    sink: u64,
}
impl Probe {
    /// One go at operation k.
    #[inline(never)]
    fn go(&mut self, k: usize, pos: &mut Position) {
        match k {
            0 => self.sink ^= real::api(|| pos.legal_moves().len()) as u64,
            1 => {
                for &m in &self.moves {
                    self.sink ^= real::api(|| pos.is_check_move(m)) as u64;
                }
            }
            2 => self.sink ^= real::in_check(pos) as u64 ^ real::key(pos) ^ real::keys(pos).0,
            3 => {
                self.sink ^= real::state(pos).ply as u64;
            }
            4 => {
                let p = real::new(&self.board);
                self.sink ^= real::key(&p);
                real::api(|| drop(p));
            }
            5 => real::api(|| drop(std::hint::black_box(self.fresh.clone()))),
            _ => {
                let k = k - NAMES.len();
                let m = self.moves[k / 2];
                real::api(|| pos.do_move(m));
                if k % 2 == 1 {
                    self.sink ^= real::in_check(pos) as u64 ^ real::api(|| pos.legal_moves().len()) as u64;
                }
                real::api(|| pos.undo_move(m));
            }
        }
    }
    fn name(&self, k: usize) -> String {
        match NAMES.get(k) {
            Some(s) => s.to_string(),
            None => {
                let k = k - NAMES.len();
                format!("do_move{} and undo_move ({:?})", ["", ", legal_moves"][k % 2], self.moves[k / 2])
            }
        }
    }
    /// The least time of `tries` tries of a few goes, per go.
    fn least(&mut self, k: usize, pos: &mut Position, tries: usize) -> u64 {
        const GOES: u64 = 4;
        let mut best = u64::MAX;
        for _ in 0..tries {
            let t = cpu_ns();
            for _ in 0..GOES {
                self.go(k, pos);
            }
            best = best.min((cpu_ns() - t) / GOES);
        }
        best
    }
}

/// A loop of four moves that comes back to the same board.
fn find_loop(rng: &mut Rng, p: &Pos) -> Option<[Mv; 4]> {
    for _ in 0..40 {
        let mut q = p.clone();
        let mut way = vec![];
        for _ in 0..2 {
            let l: Vec<Mv> = q
                .legal_moves()
                .into_iter()
                .filter(|m| m.from < 81 && !m.promo && q.board[m.to as usize] == 0)
                .collect();
            if l.is_empty() {
                break;
            }
            let m = *rng.pick(&l);
            q.apply(m);
            way.push(m);
        }
        if way.len() < 2 {
            continue;
        }
        for i in 0..2 {
            let m = way[i];
            let b = Mv { from: m.to, to: m.from, promo: false };
            if !q.legal_moves().contains(&b) {
                break;
            }
            q.apply(b);
            way.push(b);
        }
        if way.len() == 4 && q.ident() == p.ident() {
            return Some([way[0], way[1], way[2], way[3]]);
        }
    }
    None
}

pub fn cost_item(cx: &mut Cx, idx: u64) -> Res {
    let (p, way) = loop {
        let fam = [0, 1, 5, 6, 7, 7, 7, 8, 10, 11, 12, 13][cx.rng.below(12)];
        let mut p = if idx % 8 == 0 { Pos::startpos() } else { start(&mut cx.rng, fam) };
        p.ply = 1;
        if p.king(0).is_none() || p.king(1).is_none() {
            continue;
        }
        if let Some(w) = find_loop(&mut cx.rng, &p) {
            break (p, w);
        }
    };
    let h = Hist::new(&p);
    set_cur(&h);
    let mut pos = real::new(&p);
    let mut moves = real::moves_raw(&pos);
    if moves.is_empty() {
        return Ok(());
    }
    // some of each kind of move
    let (mut plain, mut rest): (Vec<_>, Vec<_>) = moves.into_iter().partition(|m| {
        let capture = real::api(|| pos.piece_at(m.to())).is_some();
        m.is_drop() || !capture && !matches!(m, shogi_core::Move::Normal { promote: true, .. })
    });
    while plain.len() > 24 {
        plain.swap_remove(cx.rng.below(plain.len()));
    }
    while rest.len() > 24 {
        rest.swap_remove(cx.rng.below(rest.len()));
    }
    rest.append(&mut plain);
    moves = rest;
    let mut pr = Probe { moves, fresh: real::new(&p), board: p.clone(), sink: 0 };
    let round = |pos: &mut Position| {
        let mut s = p.side;
        for &m in &way {
            real::domv(pos, m, s);
            s = 1 - s;
        }
    };
    let back = |pos: &mut Position| {
        let mut s = p.side;
        for &m in way.iter().rev() {
            s = 1 - s;
            real::undo(pos, m, s);
        }
    };
    for _ in 0..4 {
        round(&mut pos);
    }
    const TRIES: usize = 10;
    let ops = NAMES.len() + 2 * pr.moves.len();
    let base: Vec<u64> = (0..ops).map(|k| pr.least(k, &mut pos, TRIES)).collect();
    // far away
    let far: usize = if idx % 2 == 0 { 16000 } else { 8000 };
    let mut others = vec![];
    let what;
    let mut chunk = [u64::MAX; 4]; // 25 rounds: early on, late, going back late, going back early
    let timed = |best: &mut u64, f: &mut dyn FnMut()| {
        let t = cpu_ns();
        for _ in 0..25 {
            f();
        }
        *best = (*best).min((cpu_ns() - t) / 25);
    };
    let long = idx % 4 != 3;
    if long {
        what = format!("after {} moves", 4 * (far + 4));
        for i in 0..far / 25 {
            if i % 64 == 0 {
                beat();
            }
            let slot = if i < 40 { 0 } else { 1 };
            let mut c = u64::MAX;
            timed(&mut c, &mut || round(&mut pos));
            if slot == 0 || i + 40 >= far / 25 {
                chunk[slot] = chunk[slot].min(c);
            }
        }
    } else {
        // other positions, many of them alive
        let mut n = 0u64;
        let rounds = if cx.thorough { 3000 } else { 700 };
        for g in 0..rounds {
            if g % 16 == 0 {
                beat();
            }
            let mut q = if g % 3 == 0 { real::api(|| pos.clone()) } else { real::new(&p) };
            for _ in 0..60 {
                let l = real::moves_raw(&q);
                if l.is_empty() {
                    break;
                }
                let m = l[cx.rng.below(l.len())];
                real::api(|| q.do_move(m));
                n += 1;
            }
            if others.len() < 600 {
                others.push(q);
            }
        }
        if idx % 8 == 3 {
            // very many, of short games
            for g in 0..50000 {
                if g % 4096 == 0 {
                    beat();
                }
                others.push(if g % 2 == 0 { real::api(|| pr.fresh.clone()) } else { real::new(&p) });
            }
        }
        if idx % 8 == 7 {
            // the copy of a copy of a copy
            let m = pr.moves[0];
            for g in 0..20000 {
                if g % 1024 == 0 {
                    beat();
                }
                if g % 2 == 0 {
                    real::api(|| pos.do_move(m));
                }
                let c = real::api(|| pos.clone());
                real::api(|| drop(std::mem::replace(&mut pos, c)));
                if g % 2 == 0 {
                    real::api(|| pos.undo_move(m));
                }
            }
            cx.count("copies of copies of 20000 generations");
        }
        cx.add("moves in other positions", n);
        what = format!("with {} other positions in use and {n} moves made in them", others.len());
    }
    let judge = |cx: &mut Cx, pr: &mut Probe, pos: &mut Position, what: &str| -> Res {
        for k in 0..ops {
            let mut t = pr.least(k, pos, TRIES);
            if t > FACTOR * base[k] + FLOOR_NS {
                // to be sure
                t = t.min(pr.least(k, pos, 20 * TRIES));
            }
            cx.count("operations timed");
            cx.max("max cost in percent of that at the beginning", t * 100 / base[k].max(20));
            if t > FACTOR * base[k] + FLOOR_NS {
                return viol(
                    &Hist { start: p.clone(), moves: way.to_vec() },
                    format!("{} costs {t} ns of processor time {what}, {} ns on the same board in the beginning", pr.name(k), base[k]),
                );
            }
        }
        Ok(())
    };
    judge(cx, &mut pr, &mut pos, &what)?;
    real::api(|| others.clear());
    if long {
        for i in 0..far / 25 {
            if i % 64 == 0 {
                beat();
            }
            let mut c = u64::MAX;
            timed(&mut c, &mut || back(&mut pos));
            if i < 40 {
                chunk[2] = chunk[2].min(c);
            } else if i + 40 >= far / 25 {
                chunk[3] = chunk[3].min(c);
            }
        }
        for (a, b, w) in [(0, 1, "making moves"), (3, 2, "taking moves back")] {
            cx.count("operations timed");
            if chunk[b] > FACTOR * chunk[a] + FLOOR_NS {
                return viol(
                    &Hist { start: p.clone(), moves: way.to_vec() },
                    format!("{w} costs {} ns per four moves in a game of {} moves, {} ns in a short one", chunk[b], 4 * far, chunk[a]),
                );
            }
        }
        judge(cx, &mut pr, &mut pos, "after a long game was taken back")?;
        cx.add("moves made and taken back", 4 * far as u64);
    }
    std::hint::black_box(pr.sink);
    cx.count(if long { "long games" } else { "crowds of positions" });
    cx.nontrivial(p.ident().0);
    cx.sample(|| format!("{}: {} ns {:?}", p.sfen(), what, base));
    Ok(())
}
