//! Workloads with a structure of their own.

use crate::check::*;
use crate::engine::*;
use crate::gen::*;
use crate::model::*;
use crate::real::{self, diff, list, Obs};
use shogi_core::Move;
use std::collections::HashMap;
use yasai::Position;

// ------------------------------------------------------------- geometry

/// Family 20: one king and one other piece, everywhere (idx = king square and
/// colour, 162 items).  Every monitor of single positions sees them.
pub fn duel_item(cx: &mut Cx, sh: &Shared, idx: u64) -> Res {
    let k = (idx / 2 % 81) as u8;
    let kc = (idx % 2) as u8;
    for kind in 1..=14u8 {
        if kind == KING {
            continue;
        }
        for s in 0..81u8 {
            if s == k {
                continue;
            }
            for owner in 0..2u8 {
                for side in 0..2u8 {
                    // quick: only the two combinations that matter most
                    if !cx.thorough && owner == kc && side == kc && !cx.rng.pct(25) {
                        continue;
                    }
                    let mut p = Pos::empty();
                    p.board[k as usize] = cell(KING, kc);
                    if !may_stand(&p, cell(kind, owner), s) {
                        continue;
                    }
                    p.board[s as usize] = cell(kind, owner);
                    p.side = side;
                    if cx.rng.pct(30) {
                        let t = cx.rng.below(81) as u8;
                        if p.board[t as usize] == 0 {
                            p.board[t as usize] = cell(KING, 1 - kc);
                        }
                    }
                    if cx.rng.pct(3) {
                        for h in 1..8 {
                            if h != basic(kind) as usize {
                                p.hands[side as usize][h] = cx.rng.below(SET[h] as usize + 1) as u8;
                            }
                        }
                    }
                    if !in_domain(&p) {
                        continue;
                    }
                    cx.count("duels");
                    walk_from(cx, sh, p, 0)?;
                }
            }
        }
    }
    Ok(())
}

/// Family 21: a king, a slider on each of its lines at each distance and no,
/// one or two pieces of either colour between at each place (162 items).
pub fn line_item(cx: &mut Cx, sh: &Shared, idx: u64) -> Res {
    let k = (idx / 2 % 81) as u8;
    let kc = (idx % 2) as u8;
    let by = 1 - kc;
    for &(df, dr) in DIRS8 {
        let mut ray = vec![];
        let mut cur = step(k, df, dr);
        while let Some(s) = cur {
            ray.push(s);
            cur = step(s, df, dr);
        }
        for far in 0..ray.len() {
            let mut blockers: Vec<Vec<u8>> = vec![vec![]];
            for i in 0..far {
                blockers.push(vec![ray[i]]);
                for j in 0..i {
                    blockers.push(vec![ray[i], ray[j]]);
                }
            }
            for bl in blockers {
                let diag = df != 0 && dr != 0;
                let mut sliders: Vec<u8> = if diag {
                    vec![BISHOP, HORSE]
                } else {
                    vec![ROOK, DRAGON]
                };
                if df == 0 {
                    sliders.push(LANCE); // also when it looks the other way
                }
                let reps = if cx.thorough { 12 } else { 1 };
                for _ in 0..reps {
                    for &sl in &sliders {
                        if !cx.thorough && sliders.len() > 1 && cx.rng.pct(40) {
                            continue;
                        }
                        let mut p = Pos::empty();
                        let mut bx = Box40::new();
                        p.board[k as usize] = cell(KING, kc);
                        bx.take(KING);
                        if !put(&mut p, &mut bx, cell(sl, by), ray[far]) {
                            continue;
                        }
                        let mut ok = true;
                        for &b in &bl {
                            let mut done = false;
                            for _ in 0..8 {
                                let kind = cx.rng.range(1, 14) as u8;
                                let col = cx.rng.below(2) as u8;
                                if kind != KING && put(&mut p, &mut bx, cell(kind, col), b) {
                                    done = true;
                                    break;
                                }
                            }
                            ok &= done;
                        }
                        if !ok {
                            continue;
                        }
                        // something to take off the line
                        for _ in 0..cx.rng.below(4) {
                            let s = cx.rng.below(81) as u8;
                            if ray.contains(&s) {
                                continue;
                            }
                            let kind = cx.rng.range(1, 14) as u8;
                            let col = cx.rng.below(2) as u8;
                            if kind == KING {
                                if p.king(by).is_none() && p.board[s as usize] == 0 {
                                    p.board[s as usize] = cell(KING, by);
                                }
                            } else {
                                put(&mut p, &mut bx, cell(kind, col), s);
                            }
                        }
                        for side in 0..2 {
                            p.side = side;
                            if in_domain(&p) {
                                cx.count("line geometries");
                                walk_from(cx, sh, p.clone(), 0)?;
                            }
                        }
                    }
                }
            }
        }
    }
    Ok(())
}

/// Family 22: pawns on every set of files, hands of every composition.
pub fn files_item(cx: &mut Cx, sh: &Shared, idx: u64) -> Res {
    let set = idx % 512;
    for side in 0..2u8 {
        for rep in 0..if cx.thorough { 24 } else { 3 } {
            let mut p = Pos::empty();
            let mut bx = Box40::new();
            p.side = side;
            for f in 1..=9i8 {
                if set >> (f - 1) & 1 == 1 {
                    for _ in 0..20 {
                        let s = sq(f, cx.rng.range(1, 9) as i8);
                        if put(&mut p, &mut bx, cell(PAWN, side), s) {
                            break;
                        }
                    }
                }
                // decoys: the other side's pawns, promoted pawns, anything
                for _ in 0..cx.rng.below(4) {
                    let s = sq(f, cx.rng.range(1, 9) as i8);
                    let c = match cx.rng.below(4) {
                        0 => cell(PAWN, 1 - side),
                        1 => cell(PRO_PAWN, side),
                        2 => cell(PRO_PAWN, 1 - side),
                        _ => cell(
                            *cx.rng.pick(&[LANCE, KNIGHT, SILVER, GOLD]),
                            cx.rng.below(2) as u8,
                        ),
                    };
                    put(&mut p, &mut bx, c, s);
                }
            }
            for k in 1..8u8 {
                if cx.rng.pct(55) || (k == PAWN && cx.rng.pct(80)) {
                    let n = cx.rng.below(bx.n[k as usize] as usize + 1) as u8;
                    p.hands[side as usize][k as usize] = n;
                    bx.n[k as usize] -= n;
                    let n = cx.rng.below(bx.n[k as usize] as usize + 1) as u8;
                    p.hands[1 - side as usize][k as usize] = n;
                }
            }
            if rep % 3 == 2 {
                for c in 0..2 {
                    let s = cx.rng.below(81) as u8;
                    if p.board[s as usize] == 0 {
                        p.board[s as usize] = cell(KING, c);
                    }
                }
            }
            if !in_domain(&p) {
                continue;
            }
            cx.count("pawn file patterns");
            walk_from(cx, sh, p, 0)?;
        }
    }
    Ok(())
}

// ------------------------------------------------------------- C08

/// Family 30: one long-range piece, every pattern of occupied squares on its
/// lines.  idx = kind, side, square.
pub fn slider_item(cx: &mut Cx, idx: u64, frac: u64) -> Res {
    let kinds = [ROOK, BISHOP, LANCE, DRAGON, HORSE];
    let kind = kinds[(idx / 162) as usize % 5];
    let side = (idx % 2) as u8;
    let s0 = (idx / 2 % 81) as u8;
    if dead(kind, side, s0) {
        return Ok(());
    }
    let sg: i8 = if side == BLACK { 1 } else { -1 };
    let (steps, slides) = movement(kind);
    let mut rays: Vec<Vec<u8>> = vec![];
    for &(df, dr) in slides {
        let mut r = vec![];
        let mut cur = step(s0, df, sg * dr);
        while let Some(s) = cur {
            r.push(s);
            cur = step(s, df, sg * dr);
        }
        rays.push(r);
    }
    let mut near: Vec<u8> = vec![];
    for &(df, dr) in steps {
        if let Some(s) = step(s0, df, sg * dr) {
            near.push(s);
        }
    }
    let line: Vec<u8> = rays.iter().flatten().copied().collect();
    let n = line.len();
    let total = 1u64 << n;
    // own (1) or enemy (0) blockers, redrawn now and then
    let mut p = Pos::empty();
    p.side = side;
    p.board[s0 as usize] = cell(kind, side);
    let mut bx = Box40::new();
    bx.take(kind);
    bx.n[PAWN as usize] = 2; // sixteen are kept for the line
    let mut pp = to_partial(&p);
    let mut owner = cx.rng.next();
    let mut g = 0u64;
    // a random contiguous part of the Gray code when not everything
    let count = (total / frac).max(total.min(512));
    let first = if count == total {
        0
    } else {
        cx.rng.next() % (total - count + 1)
    };
    let set_bits =
        |p: &mut Pos, pp: &mut shogi_core::PartialPosition, i: usize, on: bool, owner: u64| {
            let s = line[i];
            // no promoted pawn is ever dead, so any square will do
            let c = if on {
                cell(
                    PRO_PAWN,
                    if owner >> (i * 3 % 61) & 3 == 3 {
                        side
                    } else {
                        1 - side
                    },
                )
            } else {
                0
            };
            p.board[s as usize] = c;
            pp.piece_set(to_sq(s), if c == 0 { None } else { Some(to_piece(c)) });
        };
    // noise off the lines
    let noise = |cx: &mut Cx, p: &mut Pos, pp: &mut shogi_core::PartialPosition, bx: &mut Box40| {
        for s in 0..81u8 {
            if s != s0 && !line.contains(&s) && p.board[s as usize] != 0 {
                bx.n[basic(kind_of(p.board[s as usize])) as usize] += 1;
                p.board[s as usize] = 0;
                pp.piece_set(to_sq(s), None);
            }
        }
        for _ in 0..cx.rng.below(21) {
            let s = cx.rng.below(81) as u8;
            if line.contains(&s) {
                continue;
            }
            let k = cx.rng.range(1, 14) as u8;
            if k == KING {
                continue;
            }
            let c = cell(k, if cx.rng.pct(15) { side } else { 1 - side });
            if put(p, bx, c, s) {
                pp.piece_set(to_sq(s), Some(to_piece(c)));
            }
        }
    };
    let start = first ^ first >> 1;
    for i in 0..n {
        if start >> i & 1 == 1 {
            set_bits(&mut p, &mut pp, i, true, owner);
        }
    }
    g = if start != 0 { start } else { g };
    let mut patterns = 0u64;
    let mut slides_seen = 0u64;
    for i in first..first + count {
        if i & 255 == 0 {
            noise(cx, &mut p, &mut pp, &mut bx);
            owner = cx.rng.next();
            beat();
        }
        // expected destinations: walk each ray
        let mut want = 0u128;
        for r in &rays {
            for &s in r {
                let c = p.board[s as usize];
                if c != 0 && color_of(c) == side {
                    break;
                }
                want |= 1 << s;
                if c != 0 {
                    break;
                }
            }
        }
        for &s in &near {
            let c = p.board[s as usize];
            if c == 0 || color_of(c) != side {
                want |= 1 << s;
            }
        }
        patterns += 1;
        slides_seen += want.count_ones() as u64;
        let pos = {
            let q = pp.clone();
            real::api(|| Position::new(q))
        };
        let mut got = 0u128;
        for m in real::api(|| pos.legal_moves()) {
            if let Some(m) = from_move(m, side) {
                if m.from == s0 {
                    got |= 1 << m.to;
                }
            }
        }
        if got != want {
            let show = |b: u128| {
                let v: Vec<Mv> = (0..81u8)
                    .filter(|s| b >> s & 1 == 1)
                    .map(|s| Mv::normal(s0, s, false))
                    .collect();
                list(&v)
            };
            return viol_at(
                &p,
                format!(
                    "destinations missing {} and in excess {}",
                    show(want & !got),
                    show(got & !want)
                ),
            );
        }
        if i + 1 < first + count {
            let ng = (i + 1) ^ (i + 1) >> 1;
            let bit = (ng ^ g).trailing_zeros() as usize;
            set_bits(&mut p, &mut pp, bit, ng >> bit & 1 == 1, owner);
            g = ng;
        }
    }
    cx.add("occupancy patterns", patterns);
    cx.add("destinations checked", slides_seen);
    cx.add(
        "slider placements with every pattern",
        (count == total) as u64,
    );
    // each pattern of this piece on this square is a distinct case
    for i in 0..patterns {
        cx.nontrivial(mix(idx << 32 | i));
    }
    cx.sample(|| p.sfen());
    Ok(())
}

// ------------------------------------------------------------- C14, C15

fn feature(i: u64) -> (u8, Cell) {
    let s = (i % 81) as u8;
    let k = (i / 81) as u8; // 0..28
    (s, cell(k % 14 + 1, k / 14))
}
const FEATURES: u64 = 81 * 28;

/// Family 40: boards of one and two pieces, all of them (idx = first piece).
pub fn two_piece_item(cx: &mut Cx, sh: &Shared, idx: u64) -> Res {
    let (s1, c1) = feature(idx % FEATURES);
    let mut p = Pos::empty();
    if !may_stand(&p, c1, s1) {
        return Ok(());
    }
    p.board[s1 as usize] = c1;
    let go = |cx: &mut Cx, p: &Pos| -> Res {
        let pos = real::new(p);
        let h = Hist::new(p);
        key_distinct(cx, sh, &h, real::key(&pos), p.ident())
    };
    for side in 0..2 {
        p.side = side;
        if p.valid() {
            go(cx, &p)?;
            cx.count("boards with one piece");
        }
    }
    p.side = BLACK;
    for j in idx + 1..FEATURES {
        let (s2, c2) = feature(j);
        if s2 == s1 || (kind_of(c1) == KING && c1 == c2) || !may_stand(&p, c2, s2) {
            continue;
        }
        p.board[s2 as usize] = c2;
        for side in 0..2 {
            p.side = side;
            if p.valid() {
                go(cx, &p)?;
                cx.count("boards with two pieces");
                break;
            }
        }
        p.board[s2 as usize] = 0;
        p.side = BLACK;
    }
    beat();
    Ok(())
}

/// Hands of one colour are numbered 0..106875.
fn hand_no(mut i: u64) -> [u8; 8] {
    let mut h = [0u8; 8];
    for k in 1..8 {
        let n = SET[k] as u64 + 1;
        h[k] = (i % n) as u8;
        i /= n;
    }
    h
}
pub const HANDS: u64 = 19 * 5 * 5 * 5 * 5 * 3 * 3;

/// Family 41: every hand of one player, and random pairs of hands.
pub fn hands_item(cx: &mut Cx, sh: &Shared, idx: u64) -> Res {
    let lo = idx * HANDS / 200;
    let hi = (idx + 1) * HANDS / 200;
    beat();
    for i in lo..hi {
        let one = hand_no(i);
        for c in 0..2usize {
            let mut p = Pos::empty();
            p.hands[c] = one;
            p.side = cx.rng.below(2) as u8;
            let mut both = p.clone();
            for k in 1..8 {
                both.hands[1 - c][k] = cx.rng.below((SET[k] - one[k]) as usize + 1) as u8;
            }
            let mut withb = p.clone();
            let s = cx.rng.below(81) as u8;
            let kd = *cx.rng.pick(&[1u8, 4, 5, 6, 7, 9, 12, 13, 14]);
            if one[basic(kd) as usize] < SET[basic(kd) as usize] && !dead(kd, 0, s) {
                withb.board[s as usize] = cell(kd, 0);
            }
            for q in [p, both, withb] {
                if !q.valid() {
                    continue;
                }
                let pos = real::new(&q);
                let h = Hist::new(&q);
                cx.count("hand compositions");
                if cx.prop == "C15" {
                    components(cx, sh, &pos, &q, &h)?;
                } else {
                    key_distinct(cx, sh, &h, real::key(&pos), q.ident())?;
                }
            }
        }
    }
    Ok(())
}

/// Family 42: one position and everything that differs from it in one feature.
pub fn neighbours_item(cx: &mut Cx, sh: &Shared) -> Res {
    let fam = *cx.rng.pick(&[1usize, 4, 8, 12, 13, 0]);
    let base = start(&mut cx.rng, fam);
    let mut seen: HashMap<u64, Pos> = HashMap::new();
    let mut all = vec![base.clone()];
    let bx = Box40::without(&base);
    for s in 0..81u8 {
        for k in 1..=14u8 {
            for c in 0..2 {
                let mut p = base.clone();
                p.board[s as usize] = 0;
                if may_stand(&p, cell(k, c), s) {
                    p.board[s as usize] = cell(k, c);
                    all.push(p);
                }
            }
        }
        let mut p = base.clone();
        p.board[s as usize] = 0;
        all.push(p);
    }
    for c in 0..2 {
        for k in 1..8usize {
            for d in 1..=bx.n[k] {
                let mut p = base.clone();
                p.hands[c][k] += d;
                all.push(p);
            }
            for d in 1..=base.hands[c][k] {
                let mut p = base.clone();
                p.hands[c][k] -= d;
                all.push(p.clone());
                p.hands[1 - c][k] += d;
                all.push(p);
            }
        }
    }
    let mut p = base.clone();
    p.side = 1 - p.side;
    all.push(p);
    for p in all {
        if !p.valid() {
            continue;
        }
        let pos = real::new(&p);
        let k = real::key(&pos);
        let mut q = p.clone();
        q.ply = 1;
        if let Some(o) = seen.get(&k) {
            if *o != q {
                return viol_at(&p, format!("key {k:#x} is also the key of [{}]", o.sfen()));
            }
        }
        seen.insert(k, q);
        cx.count("one-feature neighbours");
        key_distinct(cx, sh, &Hist::new(&p), k, p.ident())?;
        if cx.rng.pct(5) {
            let ks = real::keys(&pos);
            let mut g = sh.sample_keys.lock().unwrap();
            if g.len() < 40000 {
                g.push((k, ks.0, ks.1));
            }
        }
    }
    beat();
    Ok(())
}

/// Rank over GF(2) of the differences of the sampled keys: the number of bits
/// in which keys of different positions can really differ.
pub fn rank_of_keys(v: &[u64]) -> u32 {
    let mut basis = [0u64; 64];
    let mut r = 0;
    for &x in v {
        let mut x = x ^ v[0];
        while x != 0 {
            let b = 63 - x.leading_zeros() as usize;
            if basis[b] == 0 {
                basis[b] = x;
                r += 1;
                break;
            }
            x ^= basis[b];
        }
    }
    r
}

/// Family 43 (C15): some boards crossed with some hands.
pub fn cross_item(cx: &mut Cx, sh: &Shared) -> Res {
    let mut boards = vec![];
    let mut hands = vec![];
    for _ in 0..12 {
        let fam = cx.rng.range(1, 13);
        let mut p = start(&mut cx.rng, fam);
        // keep room for any of the hands below
        let cut = cx.rng.below(60);
        for s in 0..81 {
            if p.board[s] != 0 && kind_of(p.board[s]) != KING && cx.rng.pct(cut) {
                p.board[s] = 0;
            }
        }
        p.hands = [[0; 8]; 2];
        if p.valid() {
            let mut q = p.clone();
            q.side = 1 - q.side;
            if q.valid() {
                boards.push(q);
            }
            boards.push(p);
        }
    }
    for _ in 0..24 {
        let mut h = [[0u8; 8]; 2];
        for k in 1..8 {
            let mx = if cx.rng.pct(50) { 1 } else { SET[k] as usize };
            h[0][k] = cx.rng.below(mx + 1) as u8;
            h[1][k] = cx.rng.below(SET[k] as usize - h[0][k] as usize + 1) as u8;
            if cx.rng.pct(50) {
                h[1][k] = 0;
            }
            if cx.rng.pct(50) {
                h.swap(0, 1);
            }
        }
        hands.push(h);
    }
    let mut table: Vec<Vec<Option<(u64, u64, u64)>>> = vec![];
    for b in &boards {
        let mut row = vec![];
        for h in &hands {
            let mut p = b.clone();
            p.hands = *h;
            row.push(if p.valid() {
                let pos = real::new(&p);
                components(cx, sh, &pos, &p, &Hist::new(&p))?;
                let (x, y) = real::keys(&pos);
                Some((x, y, real::key(&pos)))
            } else {
                None
            });
        }
        table.push(row);
    }
    cx.count("boards crossed with hands");
    beat();
    // the rows share the first component, the columns the second (checked by
    // the maps); here: different hands differ in the second, boards in the first
    for (i, row) in table.iter().enumerate() {
        for a in 0..row.len() {
            for b in 0..a {
                if let (Some(x), Some(y)) = (row[a], row[b]) {
                    if hands[a] != hands[b] && (x.1 == y.1 || x.0 != y.0) {
                        return viol_at(
                            &boards[i],
                            format!(
                                "keys {x:x?} and {y:x?} for two different hands {:?} {:?}",
                                hands[a], hands[b]
                            ),
                        );
                    }
                    if hands[a] == hands[b] && x != y {
                        return viol_at(&boards[i], "two keys for the same position".to_string());
                    }
                }
            }
        }
    }
    Ok(())
}

// ------------------------------------------------------------- C19

struct Ent {
    pos: Box<Position>,
    m: Pos,
    stack: Vec<(Mv, Pos)>,
    obs: Obs,
    h: Hist,
}

/// One query asked again and again (C18).
pub fn repeat_item(cx: &mut Cx, idx: u64) -> Res {
    let fam = cx.rng.below(14);
    let p0 = start(&mut cx.rng, fam);
    let mut h = Hist::new(&p0);
    set_cur(&h);
    let mut pos = real::new(&p0);
    let mut m = p0.clone();
    for _ in 0..cx.rng.below(6) {
        let l = m.legal_moves();
        if l.is_empty() {
            break;
        }
        let mv = *cx.rng.pick(&l);
        let n = m.make(mv);
        if !in_domain(&n) {
            break;
        }
        h.moves.push(mv);
        set_cur(&h);
        real::domv(&mut pos, mv, m.side);
        m = n;
    }
    let first = real::obs(&pos);
    let many = [300, 1100, 4200, 70000][idx as usize % 4] + cx.rng.below(20);
    let what = cx.rng.below(6);
    for k in 0..many {
        if k % 512 == 0 {
            beat();
        }
        let same = match what {
            0 if k < 6000 => real::moves(&pos, m.side) == first.moves,
            1 | 0 => {
                let i = (k * 7 + k / 50) % first.moves.len().max(1);
                first.moves.is_empty()
                    || first.moves[i] == real::BAD_MOVE
                    || real::is_check(&pos, first.moves[i], m.side) == first.checks[i]
            }
            2 => real::in_check(&pos) == first.in_check,
            3 => real::key(&pos) == first.key && real::keys(&pos) == first.keys,
            4 => k % 8 != 0 || real::state(&pos) == first.st,
            _ => {
                let c = real::api(|| pos.clone());
                if k % 64 == 0 {
                    real::obs(&c) == first
                } else {
                    real::key(&c) == first.key
                }
            }
        };
        cx.count("queries repeated");
        if !same {
            return viol(
                &h,
                format!(
                    "{} answered differently the {}th time",
                    [
                        "legal_moves",
                        "is_check_move",
                        "in_check",
                        "key or keys",
                        "board, hands, side or ply",
                        "a clone"
                    ][what],
                    k + 1
                ),
            );
        }
    }
    cx.max("max repetitions of one query", many as u64);
    cx.nontrivial(m.ident().0);
    let last = real::obs(&pos);
    if last != first {
        return viol(
            &h,
            format!(
                "after {many} repetitions of one query: {}",
                first.diff(&last)
            ),
        );
    }
    Ok(())
}

/// The same question thousands of times: the answer of the rules each time.
pub fn steady_item(cx: &mut Cx, idx: u64) -> Res {
    let fam = cx.rng.below(14);
    let m = start(&mut cx.rng, fam);
    let h = Hist::new(&m);
    set_cur(&h);
    let pos = real::new(&m);
    let want = m.legal_moves();
    let l0 = real::moves_raw(&pos);
    let checks: Vec<(shogi_core::Move, bool)> = want
        .iter()
        .map(|&mv| {
            (to_move(mv, m.side), {
                let n = m.make(mv);
                n.in_check(n.side)
            })
        })
        .collect();
    let ic = m.in_check(m.side);
    let many = if idx % 4 == 0 { 20000 } else { 4500 } + cx.rng.below(20);
    for k in 0..many {
        if k % 512 == 0 {
            beat();
        }
        let l = real::moves_raw(&pos);
        if k == 0 || l != l0 {
            // (as a set: the order is the library's own affair)
            let mut g: Vec<Mv> = l
                .iter()
                .map(|&x| from_move(x, m.side).unwrap_or(real::BAD_MOVE))
                .collect();
            let mut w = want.clone();
            g.sort_unstable();
            w.sort_unstable();
            if g != w {
                let (e, mi) = diff(&g, &w);
                return viol(
                    &h,
                    format!(
                        "asked the {}th time: excess {} missing {}",
                        k + 1,
                        list(&e),
                        list(&mi)
                    ),
                );
            }
        }
        if !checks.is_empty() {
            let (mv, w) = checks[k % checks.len()];
            if real::api(|| pos.is_check_move(mv)) != w {
                return viol(
                    &h,
                    format!(
                        "asked the {}th time: is_check_move({mv:?}) is {}",
                        k + 1,
                        !w
                    ),
                );
            }
        }
        if real::in_check(&pos) != ic {
            return viol(
                &h,
                format!("asked the {}th time: in_check is {}", k + 1, !ic),
            );
        }
    }
    cx.add("questions asked again", 3 * many as u64);
    cx.nontrivial(m.ident().0);
    Ok(())
}

/// The same moves made and undone again and again (C10).
pub fn again_item(cx: &mut Cx, idx: u64) -> Res {
    if idx % 5 == 4 {
        return nest_item(cx, idx / 5);
    }
    let idx = idx - idx / 5;
    let fam = cx.rng.below(14);
    let mut p0 = start(&mut cx.rng, fam);
    p0.ply = p0.ply.min(u16::MAX - 200);
    let h = Hist::new(&p0);
    set_cur(&h);
    let mut pos = real::new(&p0);
    let l = p0.legal_moves();
    if l.is_empty() {
        return Ok(());
    }
    let before = real::obs(&pos);
    let mut line = vec![];
    let mut q = p0.clone();
    for _ in 0..cx.rng.range(1, 4) {
        let l = q.legal_moves();
        if l.is_empty() {
            break;
        }
        let mv = *cx.rng.pick(&l);
        let n = q.make(mv);
        if !in_domain(&n) {
            break;
        }
        line.push((mv, q.side));
        q = n;
    }
    let many = [300, 1100, 5000, 35000][idx as usize % 4] + cx.rng.below(20);
    let mut there = None;
    for k in 0..many {
        if k % 512 == 0 {
            beat();
        }
        for &(mv, s) in &line {
            real::domv(&mut pos, mv, s);
        }
        if k % 97 == 0 || k + 1 == many {
            let o = real::obs(&pos);
            match &there {
                None => there = Some(o),
                Some(t) => {
                    if *t != o {
                        return viol(
                            &h,
                            format!(
                                "made the {}th time, the same moves lead elsewhere: {}",
                                k + 1,
                                t.diff(&o)
                            ),
                        );
                    }
                }
            }
        }
        for &(mv, s) in line.iter().rev() {
            real::undo(&mut pos, mv, s);
        }
        cx.count("moves undone");
        if k % 101 == 0 || k + 1 == many || real::key(&pos) != before.key {
            let o = real::obs(&pos);
            if o != before {
                let t: Vec<String> = line.iter().map(|x| x.0.usi()).collect();
                return viol(
                    &h,
                    format!(
                        "making and undoing {} {} times changed: {}",
                        t.join(" "),
                        k + 1,
                        before.diff(&o)
                    ),
                );
            }
        }
    }
    cx.max("max repetitions of the same moves", many as u64);
    cx.nontrivial(q.ident().0);
    Ok(())
}

/// Thousands of moves made, all of them undone (C10): the position, the moves
/// and the keys of every state on the way out against the way back, everything
/// observable now and then.
fn nest_item(cx: &mut Cx, idx: u64) -> Res {
    let plies = [5000, 300, 9000, 1100, 2600, 17000][idx as usize % 6] + cx.rng.below(50);
    let fam = [0, 12, 8, 0, 10, 13][cx.rng.below(6)];
    let mut p0 = start(&mut cx.rng, fam);
    p0.ply = p0.ply.min(u16::MAX - plies as u16 - 10);
    let mut h = Hist::new(&p0);
    set_cur(&h);
    let mut pos = real::new(&p0);
    let mut m = p0.clone();
    let mut trace = vec![];
    let mut queue: Vec<Mv> = vec![];
    let policy = Policy {
        like: *cx.rng.pick(&[0, 2, 6, 1]),
        pct: 40,
    };
    while trace.len() < plies {
        if trace.len() % 64 == 0 {
            beat();
        }
        let got = real::moves(&pos, m.side);
        if got.is_empty() || got.contains(&real::BAD_MOVE) {
            break;
        }
        if queue.is_empty() && cx.rng.below(400) == 0 {
            let check = cx.rng.pct(50);
            if let Some(c) = crate::check::find_loop(&mut cx.rng, &m, check) {
                for _ in 0..cx.rng.range(3, 60) {
                    queue.extend(c.iter().rev());
                }
                cx.count("loops in nested games");
            }
        }
        let mv = match queue.pop() {
            Some(x) if got.contains(&x) => x,
            _ => {
                queue.clear();
                policy.choose(&mut cx.rng, &m, &got)
            }
        };
        let next = m.make(mv);
        if !in_domain(&next) {
            queue.clear();
            continue;
        }
        let full = if trace.len() % 64 == 0 || trace.len() + 2 > plies {
            Some(real::obs(&pos))
        } else {
            None
        };
        trace.push((
            m.clone(),
            (real::key(&pos), real::keys(&pos), real::in_check(&pos)),
            list_digest(&got),
            full,
        ));
        h.moves.push(mv);
        set_cur_quick(&h);
        real::domv(&mut pos, mv, m.side);
        m = next;
    }
    cx.max("max moves made before the first undo", trace.len() as u64);
    while let Some((prev, keys, moves, full)) = trace.pop() {
        if trace.len() % 64 == 0 {
            beat();
        }
        let mv = h.moves.pop().unwrap();
        real::undo(&mut pos, mv, prev.side);
        let now = (real::key(&pos), real::keys(&pos), real::in_check(&pos));
        if now != keys {
            return viol(
                &h,
                format!(
                    "undone to {} moves: (key, keys, in_check) {now:x?}, before {keys:x?}",
                    trace.len()
                ),
            );
        }
        let st = real::state(&pos);
        if st != prev {
            return viol(
                &h,
                format!(
                    "undone to {} moves: [{}], before [{}]",
                    trace.len(),
                    st.sfen(),
                    prev.sfen()
                ),
            );
        }
        if list_digest(&real::moves(&pos, prev.side)) != moves {
            return viol(
                &h,
                format!("undone to {} moves: other moves than before", trace.len()),
            );
        }
        if let Some(o) = full {
            let a = real::obs(&pos);
            if a != o {
                return viol(
                    &h,
                    format!("undone to {} moves: {}", trace.len(), o.diff(&a)),
                );
            }
        }
        cx.count("moves undone");
        cx.nontrivial(prev.ident().0);
    }
    Ok(())
}

pub fn clone_item(cx: &mut Cx) -> Res {
    let fam = cx.rng.below(14);
    let mut p0 = start(&mut cx.rng, fam);
    p0.ply = p0.ply.min(u16::MAX - 7000); // room for a long game
    let h = Hist::new(&p0);
    set_cur(&h);
    let pos = real::new(&p0);
    let o = real::obs(&pos);
    let mut v = vec![Ent {
        pos: Box::new(pos),
        m: p0,
        stack: vec![],
        obs: o,
        h,
    }];
    // some of them have a long game behind them
    let before = match cx.rng.below(40) {
        0 => cx.rng.range(1000, 6000),
        1..=4 => cx.rng.range(130, 1100),
        5..=12 => cx.rng.range(20, 140),
        _ => 0,
    };
    let deep = before > 100;
    for k in 0..before {
        if k % 64 == 0 {
            beat();
        }
        let e = &mut v[0];
        let l = e.m.legal_moves();
        if l.is_empty() {
            break;
        }
        let mv = *cx.rng.pick(&l);
        let next = e.m.make(mv);
        if !in_domain(&next) {
            continue;
        }
        e.h.moves.push(mv);
        real::domv(&mut e.pos, mv, e.m.side);
        e.stack.push((mv, e.m.clone()));
        e.m = next;
    }
    if before > 0 {
        v[0].obs = real::obs(&v[0].pos);
        cx.max("max moves before a clone", v[0].stack.len() as u64);
    }
    let ops = if deep {
        cx.rng.range(10, 30)
    } else {
        cx.rng.range(40, 160)
    };
    for _ in 0..ops {
        beat();
        let i = cx.rng.below(v.len());
        let was = v.len();
        match cx.rng.below(20) {
            0..=2 if v.len() < 7 => {
                let e = &v[i];
                let c = real::api(|| (*e.pos).clone());
                let ne = Ent {
                    pos: Box::new(c),
                    m: e.m.clone(),
                    stack: e.stack.clone(),
                    obs: e.obs.clone(),
                    h: e.h.clone(),
                };
                let at = cx.rng.below(v.len() + 1);
                v.insert(at, ne);
                if cx.rng.pct(3) {
                    // clones of clones, each original dropped
                    let n = cx.rng.range(10, 300);
                    for _ in 0..n {
                        let c = real::api(|| (*v[at].pos).clone());
                        real::api(|| *v[at].pos = c);
                    }
                    cx.count("chains of clones");
                }
                cx.count("clones made");
                cx.nontrivial(mix(v[at].m.ident().0 ^ v[at].stack.len() as u64));
            }
            3 if v.len() > 1 => {
                // clone over an existing position
                let j = (i + 1 + cx.rng.below(v.len() - 1)) % v.len();
                let (src_pos, m, stack, obs, h) = {
                    let e = &v[i];
                    (
                        (*e.pos).clone(),
                        e.m.clone(),
                        e.stack.clone(),
                        e.obs.clone(),
                        e.h.clone(),
                    )
                };
                let e = &mut v[j];
                real::api(|| (*e.pos).clone_from(&src_pos));
                e.m = m;
                e.stack = stack;
                e.obs = obs;
                e.h = h;
                cx.count("clones made over another position");
            }
            4 | 5 if v.len() > 1 => {
                let e = v.swap_remove(i);
                real::api(|| drop(e.pos));
                cx.count(if i == 0 {
                    "first one dropped"
                } else {
                    "another one dropped"
                });
            }
            6 => {
                // move it somewhere else in memory
                let e = &mut v[i];
                let b = std::mem::replace(&mut e.pos, Box::new(Position::default()));
                e.pos = Box::new(*b);
            }
            7..=11 => {
                let e = &mut v[i];
                let many = if deep && cx.rng.pct(40) {
                    1 + cx.rng.below(e.stack.len() + 1)
                } else {
                    1
                };
                for _ in 0..many {
                    if let Some((mv, prev)) = e.stack.pop() {
                        e.h.moves.pop();
                        set_cur_quick(&e.h);
                        let (pos, side) = (&mut e.pos, prev.side);
                        real::undo(pos, mv, side);
                        e.m = prev;
                        cx.count("moves undone");
                    }
                }
                e.obs = real::obs(&e.pos);
                let want = real::obs(&real::new(&e.m));
                if e.obs != want {
                    return viol(
                        &e.h,
                        format!(
                            "undone in a clone, differs from a new position: {}",
                            e.obs.diff(&want)
                        ),
                    );
                }
            }
            _ => {
                let e = &mut v[i];
                let l = e.m.legal_moves();
                if l.is_empty() {
                    continue;
                }
                let mv = *cx.rng.pick(&l);
                let next = e.m.make(mv);
                if !in_domain(&next) {
                    continue;
                }
                e.h.moves.push(mv);
                set_cur(&e.h);
                real::domv(&mut e.pos, mv, e.m.side);
                e.stack.push((mv, e.m.clone()));
                e.m = next;
                e.obs = real::obs(&e.pos);
                cx.count("moves made");
            }
        }
        cx.max("max positions alive together", v.len() as u64);
        // what the others show has not changed, and what each shows is its own state
        let full = cx.rng.below(v.len());
        for (j, e) in v.iter().enumerate() {
            let st = real::state(&e.pos);
            if st != e.m {
                return viol(
                    &e.h,
                    format!("one of {} related positions shows [{}]", was, st.sfen()),
                );
            }
            if real::keys(&e.pos) != e.obs.keys || real::in_check(&e.pos) != e.obs.in_check {
                return viol(&e.h, "work on a related position changed keys or in_check");
            }
            if j == full {
                let o = real::obs(&e.pos);
                if o != e.obs {
                    return viol(
                        &e.h,
                        format!("work on a related position changed: {}", e.obs.diff(&o)),
                    );
                }
                let want = real::obs(&real::new(&e.m));
                if o != want {
                    return viol(
                        &e.h,
                        format!("differs from a new position: {}", o.diff(&want)),
                    );
                }
                cx.count("full comparisons");
            }
        }
    }
    // take everything back, interleaved
    while v.iter().any(|e| !e.stack.is_empty()) {
        let i = cx.rng.below(v.len());
        let e = &mut v[i];
        if let Some((mv, prev)) = e.stack.pop() {
            e.h.moves.pop();
            set_cur(&e.h);
            real::undo(&mut e.pos, mv, prev.side);
            e.m = prev;
            let st = real::state(&e.pos);
            if st != e.m {
                return viol(&e.h, format!("undone in a clone: [{}]", st.sfen()));
            }
            cx.count("moves undone");
        }
    }
    for e in &v {
        let (a, b) = (real::obs(&e.pos), real::obs(&real::new(&e.m)));
        if a != b {
            return viol(&e.h, format!("everything undone: {}", a.diff(&b)));
        }
    }
    cx.sample(|| v[0].h.start.sfen());
    Ok(())
}

// ------------------------------------------------------------- C23

/// Fast games without the rules model: the library's own moves, everything
/// called, nothing expected but that it returns and comes back to the start.
pub fn fuzz_item(cx: &mut Cx, plies: usize) -> Res {
    let fam = cx.rng.below(14);
    let mut p0 = start(&mut cx.rng, fam);
    p0.ply = p0.ply.min(60000);
    let mut h = Hist::new(&p0);
    set_cur(&h);
    let mut pos = real::new(&p0);
    let first = real::obs(&pos);
    let mut side = p0.side;
    let mut buf: Vec<shogi_core::Move>;
    let greedy = cx.rng.below(4);
    let kingless = p0.king(0).is_none() || p0.king(1).is_none();
    for i in 0..plies {
        if i & 255 == 0 {
            beat();
        }
        buf = real::moves_raw(&pos);
        cx.max("max moves in one position", buf.len() as u64);
        cx.add("moves returned", buf.len() as u64);
        if buf.is_empty() || cx.rng.pct(10) && !h.moves.is_empty() {
            let n = if buf.is_empty() { 3 } else { 1 };
            for _ in 0..n {
                if let Some(mv) = h.moves.pop() {
                    side = 1 - side;
                    set_cur(&h);
                    real::undo(&mut pos, mv, side);
                    cx.count("moves undone");
                }
            }
            if h.moves.is_empty() && buf.is_empty() {
                break;
            }
            continue;
        }
        let mut raw = buf[cx.rng.below(buf.len())];
        if greedy > 0 {
            // prefer checks or captures, to get into the evasion code
            for _ in 0..6 {
                let c = buf[cx.rng.below(buf.len())];
                let hit = match greedy {
                    1 => real::api(|| pos.is_check_move(c)),
                    2 => real::api(|| pos.piece_at(c.to())).is_some(),
                    _ => matches!(c, shogi_core::Move::Normal { promote: true, .. }),
                };
                if hit {
                    raw = c;
                    break;
                }
            }
        }
        for &m in &buf {
            let _ = real::api(|| pos.is_check_move(m));
        }
        cx.add("is_check_move calls", buf.len() as u64);
        let Some(mv) = from_move(raw, side) else {
            return viol(&h, format!("{raw:?} is not a move"));
        };
        if cx.rng.pct(1) {
            let c = real::api(|| pos.clone());
            let t = real::api(|| format!("{c:?}"));
            cx.add("bytes of debug output", t.len() as u64);
            real::api(|| drop(c));
            cx.count("clones made and dropped");
        }
        h.moves.push(mv);
        set_cur(&h);
        real::api(|| pos.do_move(raw));
        side = 1 - side;
        cx.count("moves made");
        if real::in_check(&pos) {
            cx.count("states in check");
        }
        let k = real::key(&pos);
        cx.nontrivial(k);
        // without a king to bound it, keep the number of moves within the domain
        if kingless {
            let q = real::state(&pos);
            if !in_domain(&q) {
                let mv = h.moves.pop().unwrap();
                side = 1 - side;
                real::undo(&mut pos, mv, side);
            }
        }
    }
    while let Some(mv) = h.moves.pop() {
        side = 1 - side;
        set_cur(&h);
        real::undo(&mut pos, mv, side);
        cx.count("moves undone");
    }
    let last = real::obs(&pos);
    if last != first {
        return viol(&h, format!("everything undone, but: {}", first.diff(&last)));
    }
    cx.sample(|| p0.sfen());
    Ok(())
}

/// A game of tens of thousands of moves, copied and dropped where the stack is
/// what a thread usually has (C23).
pub fn marathon_item(cx: &mut Cx) -> Res {
    let plies = cx.rng.range(20000, 60000);
    let mut p0 = start(&mut cx.rng, 0);
    p0.ply = 1;
    let mut h = Hist::new(&p0);
    set_cur(&h);
    let mut pos = real::new(&p0);
    let mut side = p0.side;
    let mut made = vec![];
    for i in 0..plies {
        if i & 255 == 0 {
            beat();
        }
        let l = real::moves_raw(&pos);
        if l.is_empty() {
            for _ in 0..made.len().min(3) {
                let x = made.pop().unwrap();
                h.moves.pop();
                side = 1 - side;
                real::api(|| pos.undo_move(x));
            }
            continue;
        }
        let x = l[cx.rng.below(l.len())];
        let Some(mv) = from_move(x, side) else {
            return viol(&h, format!("{x:?} is not a move"));
        };
        made.push(x);
        h.moves.push(mv);
        set_cur_quick(&h);
        real::api(|| pos.do_move(x));
        side = 1 - side;
        cx.count("moves made");
    }
    cx.max("max plies of a game copied and dropped", made.len() as u64);
    cx.nontrivial(real::key(&pos));
    let ok = std::thread::scope(|sc| {
        std::thread::Builder::new()
            .stack_size(2 << 20)
            .spawn_scoped(sc, move || {
                let c = real::api(|| pos.clone());
                let d = real::api(|| c.clone());
                real::api(|| drop(pos));
                let mut c = c;
                for x in made.iter().rev() {
                    real::api(|| c.undo_move(*x));
                }
                real::api(|| drop(c));
                real::api(|| drop(d));
                // copies of copies, a move made in one and taken back in the next
                let mut e = real::new(&p0);
                let l = real::moves_raw(&e);
                for k in 0..40000 {
                    let Some(&m) = l.first() else { break };
                    if k % 256 == 0 {
                        beat();
                    }
                    if k % 3 == 1 {
                        real::api(|| e.do_move(m));
                    }
                    let f = real::api(|| e.clone());
                    real::api(|| drop(std::mem::replace(&mut e, f)));
                    if k % 3 == 1 {
                        real::api(|| e.undo_move(m));
                    }
                }
                let g = real::api(|| e.clone());
                real::api(|| drop(e));
                real::api(|| drop(g));
            })
            .unwrap()
            .join()
            .is_ok()
    });
    if !ok {
        return viol(&h, "a long game cannot be copied, taken back or dropped");
    }
    Ok(())
}

/// A game that is taken back while a panic of the program unwinds, and one that
/// is looked at, taken back and dropped when its thread's variables are
/// destroyed: all of it valid use.
pub fn late_item(cx: &mut Cx) -> Res {
    use std::sync::{Arc, Mutex};
    type Told = Arc<Mutex<Option<Option<String>>>>;
    struct Late {
        pos: Position,
        made: Vec<shogi_core::Move>,
        p: Pos,
        first: Obs,
        told: Told,
    }
    impl Late {
        fn look(&mut self) -> Option<String> {
            let a = real::obs(&self.pos);
            let b = real::obs(&real::api(|| self.pos.clone()));
            if a != b {
                return Some(format!("a copy differs: {}", a.diff(&b)));
            }
            for m in std::mem::take(&mut self.made).iter().rev() {
                real::api(|| self.pos.undo_move(*m));
            }
            let c = real::obs(&self.pos);
            if c != self.first {
                return Some(format!("everything undone, but: {}", self.first.diff(&c)));
            }
            let d = real::obs(&real::new(&self.p));
            if d != self.first {
                return Some(format!("newly made: {}", self.first.diff(&d)));
            }
            real::api(|| drop(Position::default()));
            None
        }
    }
    impl Drop for Late {
        fn drop(&mut self) {
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| self.look()));
            real::IN_API.with(|c| c.set(false));
            *self.told.lock().unwrap() = Some(r.unwrap_or_else(|_| Some("the library panicked".into())));
        }
    }
    thread_local! { static LATE: std::cell::RefCell<Option<Late>> = const { std::cell::RefCell::new(None) }; }
    let (p, line) = loop {
        let fam = cx.rng.below(14);
        let mut p = start(&mut cx.rng, fam);
        p.ply = p.ply.min(60000);
        if in_domain(&p) {
            break (p, cx.rng.below(40));
        }
    };
    let mut h = Hist::new(&p);
    set_cur(&h);
    let mut pos = real::new(&p);
    let mut q = p.clone();
    let mut made = vec![];
    for _ in 0..line {
        let l = q.legal_moves();
        if l.is_empty() {
            break;
        }
        let mv = *cx.rng.pick(&l);
        let m = to_move(mv, q.side);
        real::api(|| pos.do_move(m));
        q.apply(mv);
        if !in_domain(&q) {
            real::api(|| pos.undo_move(m));
            break;
        }
        h.moves.push(mv);
        made.push(m);
    }
    set_cur(&h);
    let first = real::obs(&real::new(&p));
    let told: Told = Default::default();
    let late = Late { pos, made, p: p.clone(), first, told: told.clone() };
    let end = if cx.rng.pct(50) {
        cx.count("taken back while unwinding");
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            let l = late;
            real::key(&l.pos);
            std::panic::panic_any("of the program");
        }));
        drop(r);
        "while a panic of the program unwinds"
    } else {
        cx.count("used as thread variables are destroyed");
        let first_use = cx.rng.pct(50);
        let p2 = p.clone();
        let r = std::thread::spawn(move || {
            LATE.with(|x| *x.borrow_mut() = Some(late));
            if first_use {
                // now the library's own variables, if it has any
                let n = real::new(&p2);
                real::obs(&n);
                let d = Position::default();
                real::obs(&d);
            }
        })
        .join();
        if r.is_err() {
            return viol(&h, "a thread using the library panicked");
        }
        "as the variables of its thread are destroyed"
    };
    cx.nontrivial(q.ident().0);
    let r = told.lock().unwrap().take();
    match r {
        Some(None) => Ok(()),
        Some(Some(w)) => viol(&h, format!("{w} (used {end})")),
        None => viol(&h, format!("no answers {end}")),
    }
}

// ------------------------------------------------------------- C24

fn real_perft(pos: &mut Position, depth: u32, nodes: &mut u64) -> u64 {
    let l = real::moves_raw(pos);
    let mut n = 0;
    for m in l {
        real::api(|| pos.do_move(m));
        *nodes += 1;
        n += if depth <= 1 {
            1
        } else {
            real_perft(pos, depth - 1, nodes)
        };
        real::api(|| pos.undo_move(m));
    }
    n
}

pub fn perft_item(cx: &mut Cx, family: usize, budget: u64) -> Res {
    let p = start(&mut cx.rng, family);
    perft_at(cx, &p, budget)
}
pub fn perft_at(cx: &mut Cx, p: &Pos, budget: u64) -> Res {
    let h = Hist::new(p);
    set_cur(&h);
    let legal = p.legal_moves();
    // as deep as the budget allows
    let mut depth = 1;
    while depth < 12 {
        let mut left = budget;
        match p.perft_capped(depth + 1, &mut left) {
            Some(n) if n > 0 => depth += 1,
            _ => break,
        }
        beat();
    }
    let mut pos = real::new(p);
    let before = real::obs(&pos);
    let got = real::moves(&pos, p.side);
    let (extra, missing) = diff(&got, &legal);
    if !extra.is_empty() || !missing.is_empty() {
        return viol(
            &h,
            format!(
                "root moves in excess {} and missing {}",
                list(&extra),
                list(&missing)
            ),
        );
    }
    let mut total = 0;
    for &m in &legal {
        let want = p.make(m).perft(depth - 1);
        real::domv(&mut pos, m, p.side);
        let mut nodes = 0;
        let got = if depth == 1 {
            1
        } else {
            real_perft(&mut pos, depth - 1, &mut nodes)
        };
        real::undo(&mut pos, m, p.side);
        beat();
        if got != want {
            let mut hh = h.clone();
            hh.moves.push(m);
            return viol(
                &hh,
                format!(
                    "after {} at depth {}: {got} leaves visited, the tree has {want}",
                    m.usi(),
                    depth - 1
                ),
            );
        }
        cx.add("nodes visited", nodes);
        total += want;
    }
    let after = real::obs(&pos);
    if before != after {
        return viol(
            &h,
            format!("the search of depth {depth} left: {}", before.diff(&after)),
        );
    }
    cx.add("leaves compared", total);
    cx.count("trees compared");
    cx.max("max depth", depth as u64);
    if depth > 1 {
        cx.nontrivial(p.ident().0);
    }
    cx.sample(|| format!("{} depth {depth}: {total} leaves", p.sfen()));
    Ok(())
}

// ------------------------------------------------------------- C25

pub fn construct_item(cx: &mut Cx, idx: u64) -> Res {
    beat();
    let check = |cx: &mut Cx, p: &Pos| -> Res {
        set_cur(&Hist::new(p));
        let pos = real::new(p);
        let st = real::state(&pos);
        cx.count("positions created");
        cx.nontrivial(p.ident().0);
        if st != *p {
            return viol_at(p, format!("the new position shows [{}]", st.sfen()));
        }
        // per-kind counts come from the same Hand, but ask again by colour
        Ok(())
    };
    match idx {
        0 => {
            let pos = real::api(Position::default);
            let st = real::state(&pos);
            cx.count("positions created");
            if st != Pos::startpos() {
                return viol_at(
                    &Pos::startpos(),
                    format!("the default position is [{}]", st.sfen()),
                );
            }
            let a = real::obs(&pos);
            let b = real::obs(&real::new(&Pos::startpos()));
            if a != b {
                return viol_at(&Pos::startpos(), format!("default and new: {}", a.diff(&b)));
            }
        }
        1..=2 => {
            // every ply number
            let lo = if idx == 1 { 1u32 } else { 32768 };
            let hi = if idx == 1 { 32767u32 } else { 65535 };
            let fam = cx.rng.below(14);
            let mut p = start(&mut cx.rng, fam);
            let mut pp = to_partial(&p);
            for n in lo..=hi {
                if n % 4096 == 0 {
                    let fam = cx.rng.below(14);
                    p = start(&mut cx.rng, fam);
                    pp = to_partial(&p);
                    beat();
                }
                p.ply = n as u16;
                if !pp.ply_set(p.ply) {
                    continue;
                }
                let q = pp.clone();
                set_cur(&Hist::new(&p));
                let pos = real::api(|| Position::new(q));
                cx.count("ply numbers");
                if real::api(|| pos.ply()) != p.ply {
                    return viol_at(&p, format!("ply is {}", pos.ply()));
                }
                if n % 64 == 0 && real::state(&pos) != p {
                    return viol_at(&p, "state differs");
                }
            }
        }
        3..=30 => {
            // every piece on every square
            let k = (idx - 3) as u8;
            let c = cell(k % 14 + 1, k / 14);
            for s in 0..81u8 {
                for side in 0..2 {
                    let mut p = Pos::empty();
                    if !may_stand(&p, c, s) {
                        continue;
                    }
                    p.board[s as usize] = c;
                    p.side = side;
                    if p.valid() {
                        check(cx, &p)?;
                    }
                }
            }
        }
        31..=130 => {
            let i = idx - 31;
            for n in i * HANDS / 100..(i + 1) * HANDS / 100 {
                let mut p = Pos::empty();
                p.hands[(n & 1) as usize] = hand_no(n);
                for k in 1..8 {
                    p.hands[1 - (n & 1) as usize][k] = cx
                        .rng
                        .below((SET[k] - p.hands[(n & 1) as usize][k]) as usize + 1)
                        as u8;
                }
                p.side = (n >> 1 & 1) as u8;
                check(cx, &p)?;
            }
        }
        _ => {
            for _ in 0..40 {
                let fam = cx.rng.below(14);
                let p = start(&mut cx.rng, fam);
                check(cx, &p)?;
                // the same position reached by shogi_core's own moves
                let mut pp = to_partial(&p);
                let mut q = p.clone();
                for _ in 0..cx.rng.below(6) {
                    let l = q.legal_moves();
                    if l.is_empty() {
                        break;
                    }
                    let mv = *cx.rng.pick(&l);
                    if pp.make_move(to_move(mv, q.side)).is_none() {
                        break;
                    }
                    q.apply(mv);
                }
                if pp.ply() == q.ply {
                    let x = pp.clone();
                    set_cur(&Hist::new(&q));
                    let pos = real::api(|| Position::new(x));
                    cx.count("positions created after moves in shogi_core");
                    let st = real::state(&pos);
                    if st != q {
                        return viol_at(
                            &q,
                            format!("created from a played partial position: [{}]", st.sfen()),
                        );
                    }
                    if in_domain(&q) {
                        let (a, b) = (real::obs(&pos), real::obs(&real::new(&q)));
                        if a != b {
                            return viol_at(
                                &q,
                                format!(
                                    "played (first) and set up (second) partial position: {}",
                                    a.diff(&b)
                                ),
                            );
                        }
                    }
                }
            }
        }
    }
    cx.sample(|| format!("item {idx}"));
    Ok(())
}

// ------------------------------------------------------------- C27

/// Real moves of a position, without keeping anything.
fn some_move(rng: &mut Rng, pos: &Position) -> Option<shogi_core::Move> {
    let l = real::api(|| pos.legal_moves());
    if l.is_empty() {
        None
    } else {
        Some(l[rng.below(l.len())])
    }
}

/// One round of use of one kind.  Deterministic; leaves nothing behind but
/// what the library keeps, and `pos` as it was.
fn mem_round(
    kind: u64,
    rng: &mut Rng,
    starts: &[Pos],
    pos: &mut Position,
    ops: usize,
    peak: &mut i64,
) {
    match kind {
        0 => {
            // new positions
            for k in 0..ops {
                let p = &starts[k % starts.len()];
                let q = real::new(p);
                match rng.below(8) {
                    0 => {
                        let l = real::api(|| q.legal_moves());
                        for &m in &l {
                            real::api(|| q.is_check_move(m));
                        }
                    }
                    1 => {
                        let mut q2 = real::api(|| q.clone());
                        if let Some(m) = some_move(rng, &q2) {
                            real::api(|| q2.do_move(m));
                        }
                        real::api(|| drop(q2));
                    }
                    2 => {
                        real::api(|| drop(Position::default()));
                    }
                    _ => {
                        real::key(&q);
                    }
                }
                real::api(|| drop(q));
            }
        }
        1 => {
            // every move made and taken back, two deep
            let mut n = 0;
            while n < ops {
                let l = real::api(|| pos.legal_moves());
                if l.is_empty() {
                    return;
                }
                for &m in &l {
                    real::api(|| pos.do_move(m));
                    n += 1;
                    if let Some(m2) = some_move(rng, pos) {
                        real::api(|| pos.do_move(m2));
                        real::in_check(pos);
                        real::api(|| pos.undo_move(m2));
                        n += 1;
                    }
                    real::api(|| pos.undo_move(m));
                }
            }
        }
        2 => {
            // clones, with and without a history, played on and dropped
            let mut made = vec![];
            for _ in 0..rng.below(40) {
                let Some(m) = some_move(rng, pos) else { break };
                real::api(|| pos.do_move(m));
                made.push(m);
            }
            for k in 0..ops / 4 {
                let mut c = real::api(|| pos.clone());
                for _ in 0..rng.below(4) {
                    if let Some(m) = some_move(rng, &c) {
                        real::api(|| c.do_move(m));
                    }
                }
                if k % 3 == 0 {
                    let src = real::api(|| pos.clone());
                    real::api(|| c.clone_from(&src));
                    real::api(|| drop(src));
                }
                if k % 5 == 0 {
                    for &m in made.iter().rev() {
                        if k % 3 == 0 {
                            real::api(|| c.undo_move(m));
                        }
                    }
                }
                real::api(|| drop(c));
            }
            for &m in made.iter().rev() {
                real::api(|| pos.undo_move(m));
            }
        }
        3 => {
            // long games, taken back or just dropped
            let before = crate::mem::mine();
            let n = ops / 4;
            let mut made: Vec<shogi_core::Move> = Vec::with_capacity(n);
            for back in [true, false] {
                made.clear();
                let mut c = real::api(|| pos.clone());
                for _ in 0..n {
                    let Some(m) = some_move(rng, &c) else { break };
                    real::api(|| c.do_move(m));
                    made.push(m);
                }
                *peak = (*peak).max((crate::mem::mine() - before) / (made.len() as i64 + 50));
                if back {
                    for &m in made.iter().rev() {
                        real::api(|| c.undo_move(m));
                    }
                }
                real::api(|| drop(c));
            }
        }
        5 => {
            // each one the copy of the one before, as in a program that takes
            // copies of copies; two that are copied to and fro
            let mut other = real::api(|| pos.clone());
            for k in 0..ops / 6 {
                match rng.below(4) {
                    0 => {
                        let c = real::api(|| pos.clone());
                        *pos = c;
                    }
                    1 => {
                        real::api(|| other.clone_from(pos));
                        std::mem::swap(&mut other, pos);
                    }
                    2 => {
                        // by way of a new one
                        let c = std::mem::take(pos);
                        *pos = real::api(|| c.clone());
                        real::api(|| drop(c));
                    }
                    _ => {
                        let mut made = vec![];
                        for _ in 0..k % 12 {
                            let Some(m) = some_move(rng, pos) else { break };
                            real::api(|| pos.do_move(m));
                            made.push(m);
                        }
                        let mut c = real::api(|| pos.clone());
                        std::mem::swap(&mut c, pos);
                        real::api(|| drop(c));
                        for &m in made.iter().rev() {
                            real::api(|| pos.undo_move(m));
                        }
                    }
                }
            }
            real::api(|| drop(other));
        }
        _ => {
            // queries only
            for _ in 0..ops / 8 {
                let l = real::api(|| pos.legal_moves());
                for &m in l.iter().take(8) {
                    real::api(|| pos.is_check_move(m));
                }
                real::in_check(pos);
                real::key(pos);
                real::keys(pos);
            }
            for _ in 0..ops / 400 {
                real::api(|| drop(format!("{pos:?}")));
            }
        }
    }
}

pub const MEM_SLACK: i64 = 512;
/// The same use four times over: what the library holds must not grow between
/// the second and the fourth.
pub fn mem_item(cx: &mut Cx, idx: u64) -> Res {
    let starts: Vec<Pos> = (0..6)
        .map(|i| {
            // both kings: games stay in the domain
            loop {
                let fam = [0, 1, 5, 6, 7, 8, 10, 11, 12, 13][cx.rng.below(10)];
                let mut p = if i == 0 && cx.rng.pct(30) {
                    Pos::startpos()
                } else {
                    start(&mut cx.rng, fam)
                };
                if p.king(0).is_some() && p.king(1).is_some() {
                    p.ply = p.ply.min(50000);
                    return p;
                }
            }
        })
        .collect();
    let h = Hist::new(&starts[0]);
    set_cur(&h);
    if idx % 2 == 1 {
        return mem_fresh(cx, &starts);
    }
    let kind = idx / 2 % 6;
    let ops = if cx.thorough { 12000 } else { 3000 };
    let begin = crate::mem::mine();
    let mut peak = 0i64;
    {
        let mut pos = real::new(&starts[0]);
        let rng = cx.rng.clone();
        let mut held = [0i64; 4];
        for slot in held.iter_mut() {
            beat();
            let mut r = rng.clone();
            mem_round(kind, &mut r, &starts, &mut pos, ops, &mut peak);
            *slot = crate::mem::mine();
        }
        let mut grown = held[3] - held[1];
        if grown > 0 {
            // something that fills up would stop, or be emptied, some time
            for _ in 0..16 {
                beat();
                let mut r = rng.clone();
                mem_round(kind, &mut r, &starts, &mut pos, ops, &mut peak);
            }
            grown = grown.min((crate::mem::mine() - held[3]) / 8);
            crate::mem::GROWN.fetch_add(grown.max(0), std::sync::atomic::Ordering::Relaxed);
            cx.count("repeated more often");
        }
        real::api(|| drop(pos));
        if grown > MEM_SLACK {
            return viol(
                &h,
                format!(
                    "memory is not given back: {} ({ops} operations) done for the third and fourth time left {grown} more bytes allocated, and so it went on",
                    ["making and dropping positions", "making and undoing moves", "making and dropping clones", "long games taken back and dropped", "queries", "making copies of copies"][kind as usize]
                ),
            );
        }
    }
    if peak > 65536 {
        return viol(&h, format!("a game holds {peak} bytes per move made"));
    }
    let kept = crate::mem::mine() - begin;
    crate::mem::KEPT.fetch_add(kept, std::sync::atomic::Ordering::Relaxed);
    cx.max("max bytes held per move of a game", peak as u64);
    cx.add("operations", 4 * ops as u64);
    cx.count(
        [
            "rounds: new positions",
            "rounds: do and undo",
            "rounds: clones",
            "rounds: long games",
            "rounds: queries",
            "rounds: copies of copies",
        ][kind as usize],
    );
    for p in &starts {
        cx.nontrivial(p.ident().0);
    }
    cx.sample(|| format!("{} kind {kind}", starts[0].sfen()));
    Ok(())
}

/// Positions never met before, as many as time allows: what is kept of them is
/// judged at the end of the run.
fn mem_fresh(cx: &mut Cx, starts: &[Pos]) -> Res {
    let begin = crate::mem::mine();
    let mut rng = cx.rng.clone();
    let mut made = 0u64;
    let mut starts = starts.to_vec();
    for p in starts.iter_mut() {
        // room for drops
        for c in 0..2 {
            for k in 1..8 {
                let on = p
                    .board
                    .iter()
                    .filter(|&&x| x != 0 && basic(kind_of(x)) == k as u8)
                    .count()
                    + p.hands[1 - c][k] as usize;
                p.hands[c][k] =
                    p.hands[c][k].max(rng.below((SET[k] as usize).saturating_sub(on) + 1) as u8);
            }
        }
    }
    for g in 0..(if cx.thorough { 900 } else { 450 }) {
        let p = &starts[g % starts.len()];
        if g % 16 == 0 {
            beat();
        }
        let mut pos = real::new(p);
        for _ in 0..120 {
            let l = real::api(|| pos.legal_moves());
            if l.is_empty() {
                break;
            }
            let m = l[rng.below(l.len())];
            if rng.below(16) == 0 {
                for &m in l.iter().take(30) {
                    real::api(|| pos.is_check_move(m));
                }
            }
            real::api(|| pos.do_move(m));
            made += 1;
        }
        real::key(&pos);
        real::in_check(&pos);
        real::api(|| drop(pos));
    }
    drop(starts);
    crate::mem::KEPT.fetch_add(
        crate::mem::mine() - begin,
        std::sync::atomic::Ordering::Relaxed,
    );
    cx.add("operations", made);
    cx.add("moves to positions not met before", made);
    Ok(())
}

/// Threads that use the library and end leave nothing behind either.
pub fn mem_threads(seed: u64, per_round: usize) -> Result<(i64, u64), Viol> {
    use std::sync::atomic::Ordering;
    let round = || {
        for k in 0..per_round {
            let mut rng = Rng::new(seed, 77, k as u64 % 48);
            let fam = [12, 7, 5, 6, 7, 1, 8, 10][k % 8];
            let p = start(&mut rng, fam);
            std::thread::Builder::new()
                .stack_size(4 << 20)
                .spawn(move || {
                    let mut pos = if k % 6 == 0 {
                        Position::default()
                    } else {
                        real::new(&p)
                    };
                    for _ in 0..20 {
                        real::in_check(&pos);
                        let Some(m) = some_move(&mut rng, &pos) else {
                            break;
                        };
                        real::api(|| pos.do_move(m));
                        if rng.below(4) == 0 {
                            real::obs(&pos);
                        }
                    }
                    pos
                })
                .unwrap()
                .join()
                .map(|pos| {
                    // dropped by another thread than it was made by
                    let c = pos.clone();
                    drop(pos);
                    c.legal_moves().len()
                })
                .ok();
        }
        crate::mem::ALL.load(Ordering::Relaxed)
    };
    round();
    let a = round();
    round();
    let b = round();
    if b - a > 8192 {
        return Err(Viol {
            what: format!("memory is not given back: {} threads that used the library and ended left {} more bytes allocated", 2 * per_round, b - a),
            signature: format!("{per_round} threads"),
        });
    }
    Ok((b - a, 4 * per_round as u64))
}

// ------------------------------------------------------------- C30

/// Nonsense asked of one position; the others must not notice.
pub fn abuse_item(cx: &mut Cx, idx: u64) -> Res {
    let n = cx.rng.range(2, 4);
    let mut kept: Vec<(Hist, Position, real::Obs)> = vec![];
    for _ in 0..n {
        let fam = cx.rng.below(14);
        let mut h = Hist::new(&start(&mut cx.rng, fam));
        set_cur(&h);
        let mut pos = real::new(&h.start);
        let mut m = h.start.clone();
        for _ in 0..cx.rng.below(12) {
            let l = m.legal_moves();
            if l.is_empty() {
                break;
            }
            let mv = *cx.rng.pick(&l);
            let next = m.make(mv);
            if !in_domain(&next) {
                break;
            }
            real::domv(&mut pos, mv, m.side);
            h.moves.push(mv);
            m = next;
        }
        let o = real::obs(&pos);
        kept.push((h, pos, o));
    }
    for round in 0..4 {
        let k = cx.rng.below(kept.len());
        set_cur(&kept[k].0);
        let mut victim = real::api(|| kept[k].1.clone());
        let st = kept[k].2.st.clone();
        let empty: Vec<u8> = (0..81u8).filter(|&s| st.board[s as usize] == 0).collect();
        if empty.is_empty() {
            continue;
        }
        let from = to_sq(*cx.rng.pick(&empty));
        let to = to_sq(cx.rng.below(81) as u8);
        let none = Move::Normal {
            from,
            to,
            promote: cx.rng.pct(50),
        };
        let lacks: Vec<u8> = (1..8u8)
            .filter(|&p| st.hands[st.side as usize][p as usize] == 0)
            .collect();
        let kind = (idx + round) % 4;
        let bad = match kind {
            0 | 1 => none,
            _ if lacks.is_empty() => none,
            _ => to_move(
                Mv {
                    from: 81 + *cx.rng.pick(&lacks),
                    to: *cx.rng.pick(&empty),
                    promo: false,
                },
                st.side,
            ),
        };
        let elsewhere = cx.rng.pct(30);
        let act = move || {
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| match kind {
                0 => {
                    victim.is_check_move(bad);
                }
                3 => {
                    // more taken back than was made
                    victim.undo_move(bad);
                }
                _ => victim.do_move(bad),
            }));
            // whatever is left of it can be dropped
            drop(victim);
            r.is_err()
        };
        let refused = if elsewhere {
            std::thread::spawn(act).join().unwrap_or(true)
        } else {
            act()
        };
        cx.count(if refused {
            "calls refused by a panic"
        } else {
            "calls not refused"
        });
        if elsewhere {
            cx.count("calls in other threads");
        }
        let bad_text = ["is_check_move", "do_move", "do_move", "undo_move"][kind as usize];
        for (h, pos, o) in &kept {
            set_cur(h);
            let now = real::obs(pos);
            cx.count("positions looked at afterwards");
            if now != *o {
                return viol(
                    h,
                    format!(
                        "after {bad_text} of a move that does not exist, on another position: {}",
                        o.diff(&now)
                    ),
                );
            }
            let fresh = real::obs(&real::new(&o.st));
            if fresh != *o {
                return viol(h, format!("after {bad_text} of a move that does not exist, on another position, a new one differs: {}", o.diff(&fresh)));
            }
        }
        // and playing goes on
        let j = cx.rng.below(kept.len());
        let (h, pos, o) = &mut kept[j];
        set_cur(h);
        let m = &o.st;
        let want = m.legal_moves();
        if o.moves != want {
            return viol(h, format!("legal_moves: {:?}", diff(&o.moves, &want)));
        }
        if let Some(&mv) = want.first() {
            let next = m.make(mv);
            if in_domain(&next) && next.ply > m.ply {
                real::domv(pos, mv, m.side);
                h.moves.push(mv);
                let now = real::obs(pos);
                if now.st != next
                    || now.in_check != next.in_check(next.side)
                    || now.moves != next.legal_moves()
                {
                    return viol(h, "after a call that was refused, on another position, a move is made wrongly");
                }
                *o = now;
            }
        }
    }
    for (h, _, o) in &kept {
        cx.nontrivial(o.st.ident().0);
        cx.sample(|| h.text());
    }
    Ok(())
}

// ------------------------------------------------------------- C26

pub fn long_item(cx: &mut Cx, idx: u64, plies: usize, check_every: usize) -> Res {
    let mut p0 = match idx % 4 {
        0 | 1 => Pos::startpos(),
        2 => start(&mut cx.rng, 8),
        _ => start(&mut cx.rng, 12),
    };
    // some games end exactly at the largest ply number
    p0.ply = if idx % 2 == 1 {
        (65535 - plies) as u16
    } else {
        1
    };
    let mut h = Hist::new(&p0);
    set_cur(&h);
    let mut pos = real::new(&p0);
    let mut m = p0.clone();
    let mut trace: Vec<(Pos, u64, (u64, u64), bool, u64)> = vec![];
    let mut policy = Policy {
        like: *cx.rng.pick(&[0, 2, 6, 6, 1]),
        pct: 40,
    };
    let mut steps = 0usize;
    let mut queue: Vec<Mv> = vec![];
    while trace.len() < plies {
        steps += 1;
        if steps > plies * 3 {
            break;
        }
        if steps % 64 == 0 {
            beat();
        }
        let (k, ks, ic) = (real::key(&pos), real::keys(&pos), real::in_check(&pos));
        // moves from the library itself; the rules are consulted now and then
        let got = real::moves(&pos, m.side);
        let full = steps % check_every == 0
            || trace.len() + 3 >= plies
            || !queue.is_empty() && (steps % 8 == 0 || queue.len() < 8);
        if full {
            let st = real::state(&pos);
            if st != m {
                return viol(
                    &h,
                    format!(
                        "after {} moves: [{}] instead of [{}]",
                        trace.len(),
                        st.sfen(),
                        m.sfen()
                    ),
                );
            }
            let want = m.legal_moves();
            let (e, mi) = diff(&got, &want);
            if !e.is_empty() || !mi.is_empty() {
                return viol(
                    &h,
                    format!(
                        "after {} moves: excess {} missing {}",
                        trace.len(),
                        list(&e),
                        list(&mi)
                    ),
                );
            }
            if ic != m.in_check(m.side) {
                return viol(&h, format!("after {} moves: in_check is {ic}", trace.len()));
            }
            for &mv in &want {
                let w = m.make(mv).in_check(1 - m.side);
                if real::is_check(&pos, mv, m.side) != w {
                    return viol(
                        &h,
                        format!(
                            "after {} moves: is_check_move({}) is {}",
                            trace.len(),
                            mv.usi(),
                            !w
                        ),
                    );
                }
            }
            let f = real::new(&m);
            if real::keys(&f) != ks || real::key(&f) != k {
                return viol(
                    &h,
                    format!(
                        "after {} moves: keys {ks:x?}, newly created {:x?}",
                        trace.len(),
                        real::keys(&f)
                    ),
                );
            }
            cx.count("states checked in full");
        }
        if real::api(|| pos.ply()) != m.ply {
            return viol(
                &h,
                format!("after {} moves: ply {}", trace.len(), pos.ply()),
            );
        }
        if got.is_empty() {
            // mate: take some moves back and play on
            let n = cx.rng.range(2, 12).min(trace.len());
            for _ in 0..n {
                let mv = h.moves.pop().unwrap();
                let t = trace.pop().unwrap();
                m = t.0;
                set_cur_quick(&h);
                real::undo(&mut pos, mv, m.side);
            }
            cx.count("mates taken back");
            if n == 0 {
                break;
            }
            continue;
        }
        if cx.rng.pct(1) {
            policy = Policy {
                like: *cx.rng.pick(&[0, 2, 6, 6, 1, 4]),
                pct: 40,
            };
        }
        let seen = list_digest(&got);
        let legal: Vec<Mv> = got.into_iter().filter(|x| *x != real::BAD_MOVE).collect();
        // now and then the game goes in circles, some of them perpetual checks
        if queue.is_empty() && m.ply < 65500 && cx.rng.below(500) == 0 {
            let check = cx.rng.pct(60);
            if let Some(c) = crate::check::find_loop(&mut cx.rng, &m, check) {
                let times = if cx.rng.pct(10) {
                    cx.rng.range(30, 300)
                } else {
                    cx.rng.range(3, 9)
                };
                for _ in 0..times {
                    queue.extend(c.iter().rev());
                }
                cx.count("times a game went in circles");
            }
        }
        let mv = match queue.pop() {
            Some(x) if legal.contains(&x) => x,
            _ => {
                queue.clear();
                policy.choose(&mut cx.rng, &m, &legal)
            }
        };
        trace.push((m.clone(), k, ks, ic, seen));
        h.moves.push(mv);
        set_cur_quick(&h);
        real::domv(&mut pos, mv, m.side);
        m.apply(mv);
        cx.nontrivial(mix(m.ident().0 ^ m.ply as u64));
    }
    cx.max("max game length", trace.len() as u64);
    cx.max("max ply reached", m.ply as u64);
    cx.add("moves played", trace.len() as u64);
    cx.sample(|| {
        format!(
            "{} ... {} moves, ending [{}]",
            h.start.sfen(),
            h.moves.len(),
            m.sfen()
        )
    });
    // the usual stack is enough to copy and to drop a long history
    {
        let src = &pos;
        let ok = std::thread::scope(|sc| {
            std::thread::Builder::new()
                .stack_size(2 << 20)
                .spawn_scoped(sc, move || {
                    let c = real::api(|| src.clone());
                    let mut d = real::api(|| c.clone());
                    let other = Position::default();
                    real::api(|| d.clone_from(&other));
                    real::api(|| drop(c));
                    real::api(|| drop(d));
                })
                .unwrap()
                .join()
                .is_ok()
        });
        if !ok {
            return viol(&h, "a long game cannot be copied and dropped");
        }
        cx.count("long games copied and dropped on a small stack");
    }
    // a clone taken at the end has the same history
    let mut twin = real::api(|| pos.clone());
    let mut steps = 0;
    while let Some((prev, k, ks, ic, seen)) = trace.pop() {
        steps += 1;
        if steps % 256 == 0 {
            beat();
        }
        let mv = h.moves.pop().unwrap();
        real::undo(&mut pos, mv, prev.side);
        let now = (real::key(&pos), real::keys(&pos), real::in_check(&pos));
        if now != (k, ks, ic) {
            return viol(
                &h,
                format!(
                    "undone to {} moves: (key, keys, in_check) {now:x?}, on the way out {:x?}",
                    trace.len(),
                    (k, ks, ic)
                ),
            );
        }
        let st = real::state(&pos);
        if st != prev {
            return viol(
                &h,
                format!(
                    "undone to {} moves: [{}], on the way out [{}]",
                    trace.len(),
                    st.sfen(),
                    prev.sfen()
                ),
            );
        }
        let again = real::moves(&pos, prev.side);
        if list_digest(&again) != seen {
            let (e, mi) = diff(&again, &prev.legal_moves());
            return viol(
                &h,
                format!(
                    "undone to {} moves: not the moves of the way out; excess {} missing {}",
                    trace.len(),
                    list(&e),
                    list(&mi)
                ),
            );
        }
        real::undo(&mut twin, mv, prev.side);
        if real::keys(&twin) != ks || steps % 16 == 0 && real::state(&twin) != prev {
            return viol(
                &h,
                format!("undone in a clone to {} moves: differs", trace.len()),
            );
        }
        if steps % check_every == 0 {
            let (a, b) = (real::obs(&pos), real::obs(&real::new(&prev)));
            if a != b {
                return viol(
                    &h,
                    format!("undone to {} moves: {}", trace.len(), a.diff(&b)),
                );
            }
        }
        cx.count("states passed on the way back");
    }
    let (a, b) = (real::obs(&pos), real::obs(&real::new(&p0)));
    if a != b {
        return viol(&h, format!("everything undone: {}", a.diff(&b)));
    }
    Ok(())
}
fn list_digest(v: &[Mv]) -> u64 {
    v.iter().fold(v.len() as u64, |a, m| {
        mix(a ^ (m.from as u64 | (m.to as u64) << 8 | (m.promo as u64) << 16))
    })
}
/// Copying a history of tens of thousands of moves at every step would be
/// quadratic; the item number is enough to reproduce it.
fn set_cur_quick(h: &Hist) {
    if h.moves.len() < 200 {
        set_cur(h);
    }
}

// ------------------------------------------------------------- scripts

/// A script line: `<sfen> moves <m> <m> ...`.  Its digest folds in everything
/// observable at every state on the way out, at every state after a further
/// move at the end, and on the way back.
pub fn script_line(cx: &mut Cx, family: usize, max_len: usize) -> String {
    let p0 = start(&mut cx.rng, family);
    let mut h = Hist::new(&p0);
    let mut m = p0.clone();
    let policy = Policy::random(&mut cx.rng);
    for _ in 0..cx.rng.below(max_len + 1) {
        let l = m.legal_moves();
        if l.is_empty() {
            break;
        }
        let mv = policy.choose(&mut cx.rng, &m, &l);
        let n = m.make(mv);
        if !in_domain(&n) {
            break;
        }
        h.moves.push(mv);
        m = n;
    }
    h.text()
}
pub fn parse_line(line: &str) -> Option<Hist> {
    let (a, b) = match line.split_once(" moves") {
        Some((a, b)) => (a, b),
        None => (line, ""),
    };
    Some(Hist {
        start: Pos::from_sfen(a)?,
        moves: b
            .split_whitespace()
            .map(Mv::parse)
            .collect::<Option<Vec<_>>>()?,
    })
}
/// An observation, written out.
pub fn dump_line(i: usize, w: &str, o: &Obs) -> String {
    let c: Vec<String> = o
        .moves
        .iter()
        .zip(&o.checks)
        .map(|(m, c)| format!("{}{}", m.usi(), if *c { "!" } else { "" }))
        .collect();
    format!(
        "{w} {i}: [{}] key {:x} keys {:x?} in_check {} moves {}\n",
        o.st.sfen(),
        o.key,
        o.keys,
        o.in_check,
        c.join(" ")
    )
}
/// Digest of the whole script; `full` calls `dump` with each observation.
pub fn replay_digest(h: &Hist, tail: usize, mut dump: impl FnMut(usize, &str, &Obs)) -> u64 {
    let mut d = H2::new();
    let mut pos = real::new(&h.start);
    let mut side = h.start.side;
    let o = real::obs(&pos);
    dump(0, "start", &o);
    d.add(o.digest());
    for (i, &m) in h.moves.iter().enumerate() {
        real::domv(&mut pos, m, side);
        side = 1 - side;
        let o = real::obs(&pos);
        dump(i + 1, "after", &o);
        d.add(o.digest());
    }
    // every (or every n-th) move of the last state, made and undone
    let last = real::moves(&pos, side);
    let stepn = if tail == 0 {
        last.len().max(1)
    } else {
        last.len().div_ceil(tail).max(1)
    };
    if tail > 0 {
        for m in last.iter().step_by(stepn) {
            if *m == real::BAD_MOVE {
                continue;
            }
            real::domv(&mut pos, *m, side);
            let (k, ks, ic) = (real::key(&pos), real::keys(&pos), real::in_check(&pos));
            d.add(k);
            d.add(ks.0);
            d.add(ks.1);
            d.add(ic as u64);
            let n = real::moves(&pos, 1 - side);
            d.add(n.len() as u64);
            for x in &n {
                d.add(x.from as u64 | (x.to as u64) << 8 | (x.promo as u64) << 16);
            }
            real::undo(&mut pos, *m, side);
        }
    }
    for (i, &m) in h.moves.iter().enumerate().rev() {
        side = 1 - side;
        real::undo(&mut pos, m, side);
        if tail > 0 || i == 0 {
            let o = real::obs(&pos);
            dump(i, "undone to", &o);
            d.add(o.digest());
        } else {
            d.add(real::key(&pos));
            d.add(real::in_check(&pos) as u64);
        }
    }
    d.get().0
}
