//! Comparisons between processes, threads and builds: everything here prints
//! digests of what was observed, for somebody outside to compare.

use crate::engine::*;
use crate::gen::*;
use crate::model::*;
use crate::real;
use crate::special::*;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{mpsc, Arc, Barrier};
use yasai::Position;

// ------------------------------------------------------------- C16

/// Position number i of the key sample: all single pieces, all hand counts,
/// then random positions.
pub fn key_sample(seed: u64, i: u64) -> Pos {
    let mut p = Pos::empty();
    if i < 81 * 28 {
        let (s, k) = ((i % 81) as u8, (i / 81) as u8);
        let c = cell(k % 14 + 1, k / 14);
        if may_stand(&p, c, s) {
            p.board[s as usize] = c;
        }
        return p;
    }
    let j = i - 81 * 28;
    if j < 2 * 7 * 19 {
        let (c, k, n) = (j % 2, j / 2 % 7 + 1, j / 14);
        p.hands[c as usize][k as usize] = (n as u8).min(SET[k as usize]);
        return p;
    }
    let mut rng = Rng::new(seed, 1616, i);
    let fam = rng.range(1, 13);
    start(&mut rng, fam)
}
pub const CHUNK: u64 = 64;

/// What the process does before anything else, so that the first use of the
/// library differs from process to process.
pub fn first_use(seed: u64, how: u64) {
    if how / 12 % 2 == 1 {
        // in a thread of some name, number and stack size
        for k in 0..how % 5 {
            std::thread::Builder::new().name(format!("x{k}")).spawn(|| ()).unwrap().join().unwrap();
        }
        let name = ["a", "io", "worker", "search-1", "main", "background", "x".repeat(40).as_str()][(how / 2 % 7) as usize].to_string();
        std::thread::Builder::new()
            .name(name)
            .stack_size((1 << 20) << (how % 4))
            .spawn(move || first_use_here(seed, how))
            .unwrap()
            .join()
            .unwrap();
    } else {
        first_use_here(seed, how)
    }
}
fn first_use_here(seed: u64, how: u64) {
    let mut rng = Rng::new(seed, 17, how);
    let p = start(&mut rng, 1 + (how % 13) as usize);
    match how % 12 {
        // hands only, then boards only: whatever is set up on demand is wanted
        // in another order
        8 | 9 => {
            let mut q = Pos::empty();
            let side = (how / 12 % 2) as usize;
            for k in 1..8 {
                q.hands[(side + k * (how % 2) as usize) % 2][k] = rng.below(SET[k] as usize + 1) as u8;
            }
            q.hands[side][1] = 1;
            let pos = real::new(&q);
            let _ = if how % 2 == 0 { real::key(&pos) } else { real::keys(&pos).1 };
        }
        10 => {
            let mut q = p.clone();
            q.hands = [[0; 8]; 2];
            let pos = real::new(&q);
            let _ = real::in_check(&pos);
            let _ = real::moves_raw(&pos);
        }
        11 => {
            // the first piece on the board is a dropped one
            let mut q = Pos::empty();
            q.hands[0][rng.range(1, 7)] = 1;
            let mut pos = real::new(&q);
            let m = q.legal_moves()[0];
            real::domv(&mut pos, m, 0);
            real::undo(&mut pos, m, 0);
        }
        0 => {
            let _ = Position::default().key();
        }
        1 => {
            let _ = Position::default().legal_moves();
        }
        2 => {
            let pos = real::new(&p);
            for m in real::moves(&pos, p.side) {
                let _ = real::is_check(&pos, m, p.side);
            }
        }
        3 => {
            std::thread::spawn(move || {
                let _ = real::obs(&real::new(&p));
            })
            .join()
            .unwrap();
        }
        4 => {
            let b = Arc::new(Barrier::new(6));
            let hs: Vec<_> = (0..6)
                .map(|t| {
                    let (b, p) = (b.clone(), p.clone());
                    std::thread::spawn(move || {
                        b.wait();
                        if t % 2 == 0 {
                            let _ = real::obs(&real::new(&p));
                        } else {
                            let _ = Position::default().keys();
                        }
                    })
                })
                .collect();
            for h in hs {
                h.join().unwrap();
            }
        }
        5 => {
            let mut pos = Position::default();
            let m = pos.legal_moves()[how as usize / 8 % 30];
            pos.do_move(m);
            pos.undo_move(m);
        }
        6 => {
            let _ = format!("{:?}", real::new(&p)).len();
            std::thread::sleep(std::time::Duration::from_millis(how * 7 % 40));
        }
        _ => {
            // burn some randomness, allocate, look at the clock
            let v: Vec<u64> = (0..1000 * (how + 1)).map(|x| mix(x)).collect();
            std::hint::black_box(v);
            let _ = std::time::SystemTime::now();
        }
    }
}

pub fn key_chunk(seed: u64, c: u64, count: u64) -> u64 {
    let mut h = H2::new();
    for i in c * CHUNK..((c + 1) * CHUNK).min(count) {
        let p = key_sample(seed, i);
        let pos = real::new(&p);
        let (a, b) = real::keys(&pos);
        h.add(real::key(&pos));
        h.add(a);
        h.add(b);
    }
    h.get().0
}
/// One digest per chunk of positions.
pub fn key_digests(seed: u64, count: u64, how: u64, reverse: bool) -> Vec<u64> {
    first_use(seed, how);
    let n = count.div_ceil(CHUNK);
    let mut out = vec![0; n as usize];
    let order: Vec<u64> = if reverse { (0..n).rev().collect() } else { (0..n).collect() };
    for c in order {
        out[c as usize] = key_chunk(seed, c, count);
    }
    out
}

// ------------------------------------------------------------- C18

/// Position number i: groups of 8 that have much in common with each other.
pub fn kin_sample(seed: u64, i: u64) -> Pos {
    let mut rng = Rng::new(seed, 1818, i / 8);
    let fam = rng.below(14);
    let mut v = vec![start(&mut rng, fam)];
    for _ in 0..i % 8 {
        let from = v[if rng.pct(60) { 0 } else { rng.below(v.len()) }].clone();
        let q = relative(&mut rng, &from);
        v.push(q);
    }
    v.pop().unwrap()
}

/// What each of the positions answers when they are asked in a certain order:
/// 0 forwards, 1 backwards, 2 group by group in shuffled order, 3 all of them
/// in shuffled order, each with something else asked before it or not.
pub fn order_digests(seed: u64, count: u64, order: u64) -> Vec<u64> {
    let mut rng = Rng::new(seed, 1819, order);
    let mut v: Vec<u64> = (0..count).collect();
    match order % 4 {
        0 => {}
        1 => v.reverse(),
        2 => {
            let mut g: Vec<u64> = (0..count / 8).collect();
            for i in (1..g.len()).rev() {
                g.swap(i, rng.below(i + 1));
            }
            v.clear();
            for x in g {
                let mut h: Vec<u64> = (0..8).map(|k| x * 8 + k).collect();
                for i in (1..8).rev() {
                    h.swap(i, rng.below(i + 1));
                }
                v.extend(h);
            }
        }
        _ => {
            for i in (1..v.len()).rev() {
                v.swap(i, rng.below(i + 1));
            }
        }
    }
    let mut out = vec![0; count as usize];
    for i in v {
        let p = kin_sample(seed, i);
        let mut pos = real::new(&p);
        if order % 3 == 1 {
            let _ = real::moves_raw(&Position::default());
        }
        let o = real::obs(&pos);
        let mut h = H2::new();
        h.add(o.digest());
        // and one step further
        if !o.moves.is_empty() {
            let m = o.moves[i as usize % o.moves.len()];
            if m != real::BAD_MOVE && in_domain(&p.make(m)) {
                real::domv(&mut pos, m, p.side);
                h.add(real::obs(&pos).digest());
                real::undo(&mut pos, m, p.side);
                h.add(real::obs(&pos).digest());
            }
        }
        out[i as usize] = h.get().0;
    }
    out
}

// ------------------------------------------------------------- C22

struct Probe<T>(std::marker::PhantomData<T>);
#[allow(dead_code)]
trait NotShareable {
    fn shareable(&self) -> bool {
        false
    }
}
impl<T> NotShareable for &Probe<T> {}
struct ProbeSend<T>(std::marker::PhantomData<T>);
#[allow(dead_code)]
trait NotSendable {
    fn sendable(&self) -> bool {
        false
    }
}
impl<T> NotSendable for &ProbeSend<T> {}
impl<T: Send> ProbeSend<T> {
    fn sendable(&self) -> bool {
        true
    }
}
impl<T: Sync> Probe<T> {
    fn shareable(&self) -> bool {
        true
    }
}
/// (Send, Sync) of Position, without failing to compile if it is neither.
#[allow(clippy::needless_borrow)]
pub fn send_sync() -> (bool, bool) {
    (
        (&ProbeSend::<Position>(std::marker::PhantomData)).sendable(),
        (&Probe::<Position>(std::marker::PhantomData)).shareable(),
    )
}
struct Force<T>(T);
unsafe impl<T> Send for Force<T> {}
unsafe impl<T> Sync for Force<T> {}
impl<T> Force<T> {
    fn get(&self) -> &T {
        &self.0
    }
    fn take(self) -> T {
        self.0
    }
}

fn spin(n: usize) {
    for i in 0..n {
        std::hint::black_box(i);
        std::hint::spin_loop();
    }
}

/// Thread t's own work: games of its own.  Depends on (seed, t) only.
fn own_work(seed: u64, t: usize, items: u64, len: usize) -> u64 {
    let mut d = H2::new();
    for i in 0..items {
        let mut cx = Cx::new("race", seed, false);
        cx.rng = item_rng("race", seed, t, i);
        let fam = cx.rng.below(14);
        let fam = if fam == 0 { 12 } else { fam };
        let line = script_line(&mut cx, fam, len);
        d.add(replay_digest(&parse_line(&line).unwrap(), 4, |_, _, _| {}));
    }
    d.get().0
}
/// Thread t's queries on shared positions.
fn shared_work(seed: u64, t: usize, shared: &[(Force<Position>, u8)], rounds: u64) -> u64 {
    let mut rng = Rng::new(seed, 2222, t as u64);
    let mut d = H2::new();
    for _ in 0..rounds {
        let (p, side) = &shared[rng.below(shared.len())];
        let p = p.get();
        match rng.below(5) {
            0 => d.add(real::obs(p).digest()),
            1 => {
                for m in real::moves(p, *side) {
                    d.add(real::is_check(p, m, *side) as u64);
                }
            }
            2 => {
                d.add(real::key(p));
                d.add(real::in_check(p) as u64);
            }
            3 => {
                let mut c = real::api(|| p.clone());
                let l = real::moves(&c, *side);
                if !l.is_empty() {
                    let m = *rng.pick(&l);
                    if m != real::BAD_MOVE {
                        real::domv(&mut c, m, *side);
                        d.add(real::obs(&c).digest());
                        real::undo(&mut c, m, *side);
                        d.add(real::obs(&c).digest());
                    }
                }
            }
            _ => d.add(real::state(p).ident().0),
        }
    }
    d.get().0
}
/// A few positions that have much in common, where a pawn drop may mate, a
/// king is in check, pieces are pinned: what a hidden cache would mix up.
fn hot_positions(seed: u64) -> Vec<(Force<Position>, u8)> {
    let mut rng = Rng::new(seed, 3434, 0);
    let mut v = vec![];
    let mut add = |p: &Pos| v.push((Force(real::new(p)), p.side));
    for fam in [7, 7, 7, 5, 6] {
        let p = start(&mut rng, fam);
        add(&p);
        add(&relative(&mut rng, &p));
    }
    // a pawn drop that mates and one that does not
    let mut seen = [false; 2];
    for _ in 0..200 {
        let p = start(&mut rng, 7);
        if p.hands[p.side as usize][PAWN as usize] == 0 || p.in_check(p.side) {
            continue;
        }
        if let Some(k) = p.king(1 - p.side) {
            if let Some(t) = step(k, 0, if p.side == 0 { 1 } else { -1 }) {
                let m = Mv::drop(PAWN, t);
                let mates = p.drop_mates(m);
                if let Some(x) = mates {
                    if !seen[x as usize] {
                        seen[x as usize] = true;
                        add(&p);
                        if seen[0] && seen[1] {
                            break;
                        }
                    }
                }
            }
        }
    }
    v
}

/// Two of them in turn, as fast as possible; depends on (seed, t) only.
fn hot_work(seed: u64, t: usize, hot: &[(Force<Position>, u8)], rounds: u64, alone: bool) -> u64 {
    let mut rng = Rng::new(seed, 3535, t as u64);
    let mut d = H2::new();
    // (not by its number alone: a library may have something for every n-th thread)
    let t = (mix(t as u64 + 77) >> 20) as usize;
    for r in 0..rounds {
        // often the last two: a pawn drop that mates, one that does not
        let n = hot.len();
        if rounds > 100 && r % 8 != 0 {
            // one question over and over, while others ask the other one
            let (p, _) = &hot[n - 1 - (t + r as usize / 24) % 2];
            let p = p.get();
            let mut x = 0u64;
            let mut n = 0;
            for k in 0..150 {
                // alone, the answer is the same every time (C18)
                if k == 0 || !alone {
                    n = real::api(|| p.legal_moves().len()) as u64;
                }
                x = x.wrapping_mul(31).wrapping_add(n);
            }
            d.add(x);
            continue;
        }
        let (a, b) = if r % 2 == 0 { (n - 1, n - 2) } else { (rng.below(n), rng.below(n)) };
        for k in 0..24 {
            // most threads stay with one, so that different ones are asked at once
            let (p, _) = &hot[if (k + t) % 2 == 0 || k % 8 < 5 && t % 2 == 0 { a } else { b }];
            let p = p.get();
            let mut x = 0u64;
            let l = real::api(|| p.legal_moves());
            for m in &l {
                let v = match *m {
                    shogi_core::Move::Normal { from, to, promote } => from.index() as u64 | (to.index() as u64) << 8 | (promote as u64) << 16,
                    shogi_core::Move::Drop { piece, to } => 1 << 20 | piece.as_u8() as u64 | (to.index() as u64) << 8,
                };
                x = x.wrapping_add(mix(v));
            }
            d.add(x);
            d.add(l.len() as u64);
            d.add(real::in_check(p) as u64);
            if k % 4 == 0 && !l.is_empty() {
                let m = l.iter().copied().min_by_key(|m| mix(m.to().index() as u64 * 131 + m.from().map_or(0, |f| f.index() as u64))).unwrap();
                d.add(real::key(p));
                let mut c = real::api(|| p.clone());
                real::api(|| c.do_move(m));
                d.add(real::key(&c));
                d.add(real::in_check(&c) as u64);
                d.add(real::api(|| c.legal_moves().len()) as u64);
            }
        }
    }
    d.get().0
}

/// A game carried on by one thread after the other.
fn relay_step(pos: &mut Position, m: &mut Pos, rng: &mut Rng) -> u64 {
    let l = real::moves(pos, m.side);
    if l.is_empty() || l.contains(&real::BAD_MOVE) {
        return real::key(pos);
    }
    let mv = *rng.pick(&l);
    let n = m.make(mv);
    if !in_domain(&n) {
        return real::key(pos);
    }
    real::domv(pos, mv, m.side);
    *m = n;
    real::obs(pos).digest()
}

pub struct RaceOut {
    pub digests: Vec<u64>,
    pub calls: u64,
}

fn shared_positions(seed: u64) -> Vec<(Force<Position>, u8)> {
    (0..6)
        .map(|i| {
            let mut rng = Rng::new(seed, 333, i);
            let fam = [5, 6, 7, 8, 1, 10][i as usize];
            let mut p = start(&mut rng, fam);
            let mut pos = real::new(&p);
            for _ in 0..rng.below(8) {
                relay_step(&mut pos, &mut p, &mut rng);
            }
            (Force(pos), p.side)
        })
        .collect()
}

/// The answers of single-threaded use.
pub fn race_alone(seed: u64, threads: usize, items: u64, len: usize, rounds: u64, hot_rounds: u64) -> RaceOut {
    let mut d = vec![];
    for t in 0..threads {
        d.push(own_work(seed, t, items, len));
    }
    let sh = shared_positions(seed);
    for t in 0..threads {
        d.push(shared_work(seed, t, &sh, rounds));
    }
    for t in 0..threads {
        let mut rng = Rng::new(seed, 555, t as u64);
        let mut p = start(&mut rng, 12);
        p.ply = 1;
        let mut pos = real::new(&p);
        let mut h = H2::new();
        for _ in 0..threads * 2 {
            h.add(relay_step(&mut pos, &mut p, &mut rng));
        }
        d.push(h.get().0);
    }
    let hot = hot_positions(seed);
    for t in 0..threads {
        d.push(hot_work(seed, t, &hot, hot_rounds, true));
    }
    RaceOut {
        digests: d,
        calls: real::API_CALLS.with(|c| c.get()),
    }
}

/// The same work by many threads at once; the very first uses of the library
/// in this process happen together.
pub fn race_together(seed: u64, threads: usize, items: u64, len: usize, rounds: u64, hot_rounds: u64, how: u64) -> RaceOut {
    let barrier = Arc::new(Barrier::new(threads));
    // prepared without touching the library
    let firsts: Vec<Pos> = (0..threads)
        .map(|t| {
            let mut rng = Rng::new(seed, 444 + how, t as u64);
            start(&mut rng, 1 + (t + how as usize) % 13)
        })
        .collect();
    let started = Arc::new(AtomicUsize::new(0));
    let mut d = vec![];
    let mut calls = 0;
    std::thread::scope(|sc| {
        let mut hs = vec![];
        for t in 0..threads {
            let (b, p, started) = (barrier.clone(), firsts[t].clone(), started.clone());
            hs.push(sc.spawn(move || {
                let mut rng = Rng::new(seed, 888 + how, t as u64);
                let delay = if how % 3 == 0 { 0 } else { rng.below(4000) };
                let what = (t as u64 + how) % 6;
                b.wait();
                spin(delay);
                started.fetch_add(1, Ordering::Relaxed);
                // different functions first, so that the tables are wanted in different orders
                match what {
                    0 => {
                        let _ = Position::default().key();
                    }
                    1 => {
                        let _ = real::moves_raw(&real::new(&p));
                    }
                    2 => {
                        let _ = real::key(&real::new(&Pos::empty()));
                    }
                    3 => {
                        let _ = real::in_check(&real::new(&p));
                    }
                    4 => {
                        let _ = Position::default().legal_moves();
                    }
                    _ => {
                        let _ = real::obs(&real::new(&p));
                    }
                }
                (own_work(seed, t, items, len), real::API_CALLS.with(|c| c.get()))
            }));
        }
        for h in hs {
            let (x, c) = h.join().unwrap_or((0, 0));
            d.push(x);
            calls += c;
        }
    });
    let sh = shared_positions(seed);
    let barrier = Barrier::new(threads);
    std::thread::scope(|sc| {
        let (sh, b) = (&sh, &barrier);
        let hs: Vec<_> = (0..threads)
            .map(|t| {
                sc.spawn(move || {
                    b.wait();
                    (shared_work(seed, t, sh, rounds), real::API_CALLS.with(|c| c.get()))
                })
            })
            .collect();
        for h in hs {
            let (x, c) = h.join().unwrap_or((0, 0));
            d.push(x);
            calls += c;
        }
    });
    // relay: positions travel through a ring of threads
    type Parcel = (Force<Position>, Pos, Rng, H2, usize, usize);
    let (res_tx, res_rx) = mpsc::channel::<(usize, u64)>();
    std::thread::scope(|sc| {
        let chans: Vec<_> = (0..threads).map(|_| mpsc::channel::<Parcel>()).collect();
        let txs: Vec<_> = chans.iter().map(|c| c.0.clone()).collect();
        let mut rxs: Vec<_> = chans.into_iter().map(|c| c.1).collect();
        for t in 0..threads {
            let mut rng = Rng::new(seed, 555, t as u64);
            let mut p = start(&mut rng, 12);
            p.ply = 1;
            let pos = real::new(&p);
            txs[t].send((Force(pos), p, rng, H2::new(), t, 0)).unwrap();
        }
        for t in 0..threads {
            let rx = rxs.remove(0);
            let next = txs[(t + 1) % threads].clone();
            let res = res_tx.clone();
            sc.spawn(move || {
                // each parcel makes two rounds: two steps at every thread
                for _ in 0..threads * 2 {
                    let Ok(x) = rx.recv() else { return };
                    let (f, mut p, mut rng, mut h, id, n) = x;
                    let mut pos = f.take();
                    h.add(relay_step(&mut pos, &mut p, &mut rng));
                    if n + 1 == threads * 2 {
                        let _ = res.send((id, h.get().0));
                    } else {
                        let _ = next.send((Force(pos), p, rng, h, id, n + 1));
                    }
                }
            });
        }
        drop(txs);
    });
    drop(res_tx);
    let mut r: Vec<(usize, u64)> = res_rx.iter().collect();
    r.sort_unstable();
    d.extend(r.into_iter().map(|x| x.1));
    let hot = hot_positions(seed);
    let barrier = Barrier::new(threads);
    std::thread::scope(|sc| {
        let (hot, b) = (&hot, &barrier);
        let hs: Vec<_> = (0..threads)
            .map(|t| {
                sc.spawn(move || {
                    b.wait();
                    (hot_work(seed, t, hot, hot_rounds, false), real::API_CALLS.with(|c| c.get()))
                })
            })
            .collect();
        for h in hs {
            let (x, c) = h.join().unwrap_or((0, 0));
            d.push(x);
            calls += c;
        }
    });
    calls += real::API_CALLS.with(|c| c.get());
    RaceOut { digests: d, calls }
}

/// Threads replaying the same scripts on their own positions while querying a
/// shared one; small, for Miri.
pub fn race_lines(lines: &[Hist], threads: usize) -> Result<(), String> {
    let (send, sync) = send_sync();
    if !send || !sync {
        return Err(format!("Position: Send {send}, Sync {sync}"));
    }
    let b = Barrier::new(threads);
    let mut all: Vec<Vec<u64>> = vec![];
    // first uses together
    std::thread::scope(|sc| {
        let b = &b;
        let hs: Vec<_> = (0..threads)
            .map(|t| {
                sc.spawn(move || {
                    b.wait();
                    if t % 2 == 1 {
                        let _ = real::key(&real::new(&Pos::empty()));
                    }
                    lines.iter().map(|h| replay_digest(h, 0, |_, _, _| {})).collect::<Vec<u64>>()
                })
            })
            .collect();
        for h in hs {
            all.push(h.join().unwrap());
        }
    });
    for a in &all[1..] {
        if *a != all[0] {
            return Err("threads see different answers".into());
        }
    }
    let alone: Vec<u64> = lines.iter().map(|h| replay_digest(h, 0, |_, _, _| {})).collect();
    if alone != all[0] {
        return Err("threads and single-threaded use see different answers".into());
    }
    let shared = Force(real::new(&lines[0].start));
    let want = real::obs(shared.get()).digest();
    std::thread::scope(|sc| {
        let s = &shared;
        let hs: Vec<_> = (0..threads).map(|_| sc.spawn(move || real::obs(s.get()).digest())).collect();
        for h in hs {
            if h.join().unwrap() != want {
                return Err("a shared position answers differently".to_string());
            }
        }
        Ok(())
    })
}
