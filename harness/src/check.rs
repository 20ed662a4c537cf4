//! The monitors: what is observed of the real library at every state of a
//! walk, and what it is compared with.

use crate::engine::*;
use crate::gen::*;
use crate::model::*;
use crate::real::{self, diff, list, Obs};
use std::collections::HashMap;
use std::sync::Mutex;
use yasai::Position;

/// One state of a walk, as the rules see it.
pub struct Node<'a> {
    pub m: &'a Pos,
    pub pseudo: &'a [Mv],
    pub legal: &'a [Mv],
    pub check: bool,
    pub h: &'a Hist,
}

/// Maps shared by all threads of a run.
const SHARDS: usize = 256;
type Ident = (u64, u64);
pub struct Shared {
    pub by_ident: Vec<Mutex<HashMap<Ident, (u64, (u64, u64))>>>,
    pub by_key: Vec<Mutex<HashMap<u64, Ident>>>,
    pub board_to: Vec<Mutex<HashMap<Ident, u64>>>,
    pub to_board: Vec<Mutex<HashMap<u64, Ident>>>,
    pub hand_to: Vec<Mutex<HashMap<Ident, u64>>>,
    pub to_hand: Vec<Mutex<HashMap<u64, Ident>>>,
    pub pair_to_key: Vec<Mutex<HashMap<(u64, u64), u64>>>,
    pub sample_keys: Mutex<Vec<(u64, u64, u64)>>,
}
fn shards<K, V>() -> Vec<Mutex<HashMap<K, V>>> {
    (0..SHARDS).map(|_| Mutex::new(HashMap::new())).collect()
}
impl Shared {
    pub fn new() -> Shared {
        Shared {
            by_ident: shards(),
            by_key: shards(),
            board_to: shards(),
            to_board: shards(),
            hand_to: shards(),
            to_hand: shards(),
            pair_to_key: shards(),
            sample_keys: Mutex::new(vec![]),
        }
    }
}
impl Default for Shared {
    fn default() -> Self {
        Self::new()
    }
}
/// Insert or compare: Some(old) if the key was there.
fn put_map<K: std::hash::Hash + Eq, V: Copy>(
    v: &[Mutex<HashMap<K, V>>],
    shard: u64,
    k: K,
    val: V,
) -> Option<V> {
    let mut g = v[shard as usize % SHARDS].lock().unwrap();
    match g.entry(k) {
        std::collections::hash_map::Entry::Occupied(o) => Some(*o.get()),
        std::collections::hash_map::Entry::Vacant(e) => {
            e.insert(val);
            None
        }
    }
}

/// Is `from`..`to` board move or drop: classification helpers for evidence.
fn is_front_of_king(m: &Pos, s: u8) -> bool {
    match m.king(1 - m.side) {
        Some(k) => {
            let fwd = if m.side == BLACK { 1 } else { -1 };
            step(k, 0, fwd) == Some(s)
        }
        None => false,
    }
}

fn on_queen_line_of_enemy_slider(m: &Pos, from: u8) -> bool {
    // a slider of the other side looks along a line towards the mover's king
    // and `from` is on that line, between them
    let Some(k) = m.king(m.side) else {
        return false;
    };
    for &(df, dr) in DIRS8 {
        let mut cur = step(k, df, dr);
        let mut seen = false;
        while let Some(s) = cur {
            if s == from {
                seen = true;
            }
            let c = m.board[s as usize];
            if seen && s != from && c != 0 && color_of(c) != m.side {
                let (tf, tr) = if color_of(c) == BLACK {
                    (-df, -dr)
                } else {
                    (-df, dr)
                };
                if movement(kind_of(c)).1.contains(&(tf, tr)) {
                    return true;
                }
            }
            cur = step(s, df, dr);
        }
    }
    false
}

/// How many enemy pieces give check.
fn checkers(m: &Pos) -> usize {
    let mut b = vec![];
    if let Some(k) = m.king(m.side) {
        m.attackers(k, 1 - m.side, &mut b);
    }
    b.len()
}

fn describe(_n: &Node, what: &str, v: &[Mv]) -> String {
    format!("{what}: {}", list(v))
}

/// Compare the list the library returns with the rules, from the point of view
/// of one property.
fn check_moves(cx: &mut Cx, pos: &Position, n: &Node) -> Res {
    let m = n.m;
    let got = real::moves(pos, m.side);
    cx.add("moves returned", got.len() as u64);
    let (extra, missing) = diff(&got, n.legal);
    let id = m.ident().0;
    match cx.prop {
        "C01" => {
            if n.pseudo.len() != n.legal.len() || n.check {
                cx.nontrivial(id);
                cx.add(
                    "pseudo-legal moves that are illegal",
                    (n.pseudo.len() - n.legal.len()) as u64,
                );
            }
            cx.max("max moves in one position", got.len() as u64);
            let bad: Vec<Mv> = extra
                .into_iter()
                .filter(|x| n.legal.binary_search(x).is_err())
                .collect();
            if !bad.is_empty() {
                return viol(n.h, describe(n, "illegal moves returned", &bad));
            }
        }
        "C02" => {
            cx.max("max moves in one position", got.len() as u64);
            if !n.legal.is_empty() {
                cx.nontrivial(id);
            }
            cx.add("positions without a legal move", n.legal.is_empty() as u64);
            if !missing.is_empty() {
                return viol(n.h, describe(n, "legal moves missing", &missing));
            }
            let mut dup = vec![];
            for w in got.windows(2) {
                if w[0] == w[1] {
                    dup.push(w[0]);
                }
            }
            if !dup.is_empty() {
                return viol(n.h, describe(n, "moves returned twice", &dup));
            }
        }
        "C03" => {
            if n.check {
                cx.nontrivial(id);
                let c = checkers(m);
                cx.count(match c {
                    1 => "single checks",
                    2 => "double checks",
                    _ => "checks by three or more pieces",
                });
                if n.legal.is_empty() {
                    cx.count("checkmates");
                }
                let king = m.king(m.side).unwrap();
                for l in n.legal {
                    cx.count(if l.is_drop() {
                        "interposing drops"
                    } else if l.from == king {
                        "king escapes"
                    } else if m.board[l.to as usize] != 0 {
                        "captures of the checker"
                    } else {
                        "interposing moves"
                    });
                }
                if !missing.is_empty() {
                    return viol(n.h, describe(n, "answers to check missing", &missing));
                }
                if !extra.is_empty() {
                    return viol(
                        n.h,
                        describe(n, "not answers to check (or returned twice)", &extra),
                    );
                }
            }
            if got.is_empty() != n.legal.is_empty() {
                return viol(
                    n.h,
                    format!(
                        "the list is {}empty, but there are {} legal moves",
                        if got.is_empty() { "" } else { "not " },
                        n.legal.len()
                    ),
                );
            }
        }
        "C04" => {
            let e: Vec<Mv> = extra.into_iter().filter(|x| x.is_drop()).collect();
            let mi: Vec<Mv> = missing.into_iter().filter(|x| x.is_drop()).collect();
            let drops = n.legal.iter().filter(|x| x.is_drop()).count() as u64;
            cx.add("legal drops", drops);
            if m.hands[m.side as usize].iter().any(|&x| x > 0) {
                cx.nontrivial(id);
                if n.check {
                    cx.count("positions with pieces in hand, in check");
                }
            }
            // what was empty and dead, or on a file with a pawn
            if !e.is_empty() {
                return viol(
                    n.h,
                    describe(n, "drops returned that are not allowed (or twice)", &e),
                );
            }
            if !mi.is_empty() {
                return viol(n.h, describe(n, "allowed drops missing", &mi));
            }
            // `from_move` maps a drop of the wrong piece to BAD_MOVE
            if got.contains(&real::BAD_MOVE) {
                return viol(n.h, "a drop of a piece that cannot be in the mover's hand");
            }
        }
        "C05" => {
            let Some(drop) = n
                .pseudo
                .iter()
                .copied()
                .find(|x| x.is_drop() && x.drop_kind() == PAWN && is_front_of_king(m, x.to))
            else {
                return Ok(());
            };
            // otherwise possible: it has to answer a check the mover is in
            let next = m.make(drop);
            if let Some(k) = m.king(m.side) {
                if next.attacked(k, 1 - m.side) {
                    return Ok(());
                }
            }
            cx.nontrivial(id);
            let mate = !next.has_legal();
            let returned = got.binary_search(&drop).is_ok();
            cx.count(if mate {
                "pawn drops that mate"
            } else {
                "pawn drops with a reply"
            });
            let protected = m.attacked(drop.to, m.side);
            if mate {
                // how near it was: would it be no mate without pins?
                let mut b = vec![];
                next.attackers(drop.to, next.side, &mut b);
                let capt = b
                    .iter()
                    .filter(|&&s| kind_of(next.board[s as usize]) != KING)
                    .count();
                cx.add("mates with a pinned would-be capturer", (capt > 0) as u64);
            } else if protected {
                let mut l = next.legal_moves();
                let k = next.king(next.side).unwrap();
                let capt = l.iter().any(|x| x.to == drop.to);
                l.retain(|x| x.from == k && x.to != drop.to);
                if capt && l.is_empty() {
                    cx.count("not mate only because the pawn can be taken");
                } else if !capt {
                    cx.count("not mate only because the king can flee");
                }
                if next
                    .shields(next.side)
                    .iter()
                    .any(|s| next.piece_attacks(s.0, drop.to))
                {
                    cx.count("not mate, a would-be capturer is pinned");
                }
                // an escape that the pawn itself opens by blocking a line
                if l.len() == 1 {
                    let mut without = m.clone();
                    without.side = 1 - m.side;
                    if !without.legal(l[0], Some(k)) {
                        cx.count("not mate only because the pawn shuts a line");
                    }
                }
            }
            if returned == mate {
                return viol(
                    n.h,
                    format!(
                        "{} {} and {}",
                        drop.usi(),
                        if mate { "mates" } else { "does not mate" },
                        if returned {
                            "is returned"
                        } else {
                            "is not returned"
                        }
                    ),
                );
            }
        }
        "C06" => {
            // per (from, to): the forms allowed by the rules and those returned
            let mut any = false;
            let mut i = 0;
            while i < n.legal.len() {
                let a = n.legal[i];
                if a.is_drop() {
                    break;
                }
                let mut want = (false, false);
                while i < n.legal.len() && (n.legal[i].from, n.legal[i].to) == (a.from, a.to) {
                    if n.legal[i].promo {
                        want.0 = true
                    } else {
                        want.1 = true
                    }
                    i += 1;
                }
                let got_of = |promo| got.binary_search(&Mv::normal(a.from, a.to, promo)).is_ok();
                let have = (got_of(true), got_of(false));
                let far = far_rank(a.from, m.side) <= 3 || far_rank(a.to, m.side) <= 3;
                if far {
                    any = true;
                    cx.count(match want {
                        (true, true) => "moves with both forms",
                        (true, false) => "moves with promotion forced",
                        _ => "moves in the zone of pieces that do not promote",
                    });
                } else {
                    cx.count("moves outside the zone");
                }
                if have != want {
                    return viol(
                        n.h,
                        format!(
                            "{}: promoting form returned {} allowed {}, plain form returned {} allowed {}",
                            a.usi(),
                            have.0,
                            want.0,
                            have.1,
                            want.1
                        ),
                    );
                }
            }
            if any {
                cx.nontrivial(id);
            }
        }
        "C07" => {
            let Some(k) = m.king(m.side) else {
                return Ok(());
            };
            let sh = m.shields(m.side);
            let own: Vec<u8> = sh
                .iter()
                .filter(|s| color_of(m.board[s.0 as usize]) == m.side)
                .map(|s| s.0)
                .collect();
            if !own.is_empty() {
                cx.nontrivial(id);
                cx.add("pinned pieces", own.len() as u64);
                for l in n.legal {
                    if own.contains(&l.from) {
                        cx.count("line moves of pinned pieces");
                    }
                }
            }
            for p in n.pseudo {
                if n.legal.binary_search(p).is_err() && !p.is_drop() {
                    cx.count(if p.from == k {
                        "king moves into attack"
                    } else {
                        "moves exposing the king"
                    });
                }
            }
            for g in &got {
                if *g == real::BAD_MOVE {
                    continue;
                }
                if !g.is_drop() {
                    let c = m.board[g.from as usize];
                    if c == 0 || color_of(c) != m.side {
                        continue;
                    }
                    if g.promo && promoted(kind_of(c)).is_none() {
                        continue;
                    }
                    let t = m.board[g.to as usize];
                    if t != 0 && kind_of(t) == KING {
                        continue;
                    }
                } else if m.board[g.to as usize] != 0
                    || m.hands[m.side as usize][g.drop_kind() as usize] == 0
                {
                    continue;
                }
                let next = m.make(*g);
                if next.in_check(m.side) {
                    return viol(n.h, format!("{} leaves the king attacked", g.usi()));
                }
            }
            let mi: Vec<Mv> = missing
                .into_iter()
                .filter(|x| {
                    !x.is_drop() && (x.from == k || on_queen_line_of_enemy_slider(m, x.from))
                })
                .collect();
            if !mi.is_empty() {
                return viol(
                    n.h,
                    describe(
                        n,
                        "safe king moves or line moves of shielding pieces missing",
                        &mi,
                    ),
                );
            }
        }
        _ => unreachable!(),
    }
    Ok(())
}

fn expect_state(h: &Hist, pos: &Position, want: &Pos, when: &str) -> Res {
    let got = real::state(pos);
    if got != *want {
        return viol(
            h,
            format!(
                "{when}: the library has [{}], the rules give [{}]",
                got.sfen(),
                want.sfen()
            ),
        );
    }
    Ok(())
}

/// Everything observed equal, or a violation.
fn same_obs(h: &Hist, a: &Obs, b: &Obs, when: &str) -> Res {
    if a != b {
        return viol(h, format!("{when}: {}", a.diff(b)));
    }
    Ok(())
}

fn visit(cx: &mut Cx, sh: &Shared, pos: &mut Position, n: &Node) -> Res {
    let m = n.m;
    let me = m.side;
    let id = m.ident();
    cx.count("positions");
    cx.state(id.0);
    match cx.prop {
        "C01" | "C02" | "C03" | "C04" | "C05" | "C06" | "C07" => {
            check_moves(cx, pos, n)?;
        }
        "C09" => {
            expect_state(n.h, pos, m, "before the move")?;
            let total = |p: &Pos| {
                let mut t = [0u8; 9];
                for &c in &p.board {
                    if c != 0 {
                        t[basic(kind_of(c)) as usize] += 1;
                    }
                }
                for h in &p.hands {
                    for k in 1..8 {
                        t[k] += h[k];
                    }
                }
                t
            };
            let before = total(&real::state(pos));
            for &mv in n.legal {
                real::domv(pos, mv, me);
                let want = m.make(mv);
                let mut h = n.h.clone();
                let got = real::state(pos);
                cx.count(if mv.is_drop() {
                    "drops made"
                } else if mv.promo {
                    "promotions made"
                } else if m.board[mv.to as usize] != 0 {
                    "plain captures made"
                } else {
                    "plain moves made"
                });
                if !mv.is_drop() && m.board[mv.to as usize] != 0 {
                    cx.count("captures made");
                    if basic(kind_of(m.board[mv.to as usize])) != kind_of(m.board[mv.to as usize]) {
                        cx.count("captures of promoted pieces");
                    }
                    cx.nontrivial(mix(id.0
                        ^ mv.from as u64
                        ^ (mv.to as u64) << 8
                        ^ (mv.promo as u64) << 16));
                } else if mv.promo || mv.is_drop() {
                    cx.nontrivial(mix(id.0
                        ^ mv.from as u64
                        ^ (mv.to as u64) << 8
                        ^ (mv.promo as u64) << 16));
                }
                if got != want {
                    h.moves.push(mv);
                    return viol(
                        &h,
                        format!(
                            "after {}: the library has [{}], the rules give [{}]",
                            mv.usi(),
                            got.sfen(),
                            want.sfen()
                        ),
                    );
                }
                if total(&got) != before {
                    h.moves.push(mv);
                    return viol(&h, format!("{} changed the material", mv.usi()));
                }
                real::undo(pos, mv, me);
            }
        }
        "C10" => {
            let before = real::obs(pos);
            for &mv in n.legal {
                real::domv(pos, mv, me);
                let mut nested = 0;
                let mut inner = None;
                let mut q = m.make(mv);
                if cx.rng.pct(25) {
                    // a nested line of a few plies
                    let mid = real::obs(pos);
                    let mut line = vec![];
                    for _ in 0..cx.rng.range(1, 4) {
                        let l = q.legal_moves();
                        if l.is_empty() {
                            break;
                        }
                        let x = *cx.rng.pick(&l);
                        real::domv(pos, x, q.side);
                        line.push((x, q.side));
                        q.apply(x);
                        if cx.rng.pct(30) {
                            let _ = real::moves_raw(pos);
                        }
                    }
                    nested = line.len();
                    for &(x, s) in line.iter().rev() {
                        real::undo(pos, x, s);
                    }
                    inner = Some((mid, line));
                }
                let mut h = n.h.clone();
                h.moves.push(mv);
                if let Some((mid, line)) = inner {
                    let after = real::obs(pos);
                    if after != mid {
                        let t: Vec<String> = line.iter().map(|x| x.0.usi()).collect();
                        return viol(
                            &h,
                            format!(
                                "making and undoing {} changed: {}",
                                t.join(" "),
                                mid.diff(&after)
                            ),
                        );
                    }
                    cx.count("nested lines undone");
                    cx.max("max depth of nesting", nested as u64 + 1);
                }
                real::undo(pos, mv, me);
                let after = real::obs(pos);
                cx.count("moves undone");
                let cap = !mv.is_drop() && m.board[mv.to as usize] != 0;
                if cap || mv.promo || mv.is_drop() {
                    cx.nontrivial(mix(id.0
                        ^ mv.from as u64
                        ^ (mv.to as u64) << 8
                        ^ (mv.promo as u64) << 16));
                }
                if after != before {
                    return viol(
                        n.h,
                        format!(
                            "making and undoing {} changed: {}",
                            mv.usi(),
                            before.diff(&after)
                        ),
                    );
                }
            }
        }
        "C11" => {
            let got = real::in_check(pos);
            if got != n.check {
                return viol(n.h, format!("in_check is {got}, the rules say {}", n.check));
            }
            let fresh = real::new(m);
            if real::in_check(&fresh) != n.check {
                return viol_at(
                    m,
                    format!(
                        "in_check of the new position is {}, the rules say {}",
                        !n.check, n.check
                    ),
                );
            }
            cx.add("states in check", n.check as u64);
            if m.king(me).is_none() {
                cx.count("states of a player without a king");
            }
            for &mv in n.legal {
                let next = m.make(mv);
                let want = next.in_check(next.side);
                real::domv(pos, mv, me);
                let got = real::in_check(pos);
                cx.count("states after a move");
                if want {
                    cx.count("states in check after a move");
                    if cx.nontrivial(next.ident().0) {
                        let k = next.king(next.side).unwrap();
                        if mv.is_drop() {
                            cx.count("checks by drop");
                        } else if !next.piece_attacks(mv.to, k) {
                            cx.count("discovered checks");
                        }
                    }
                }
                if got != want {
                    let mut h = n.h.clone();
                    h.moves.push(mv);
                    return viol(
                        &h,
                        format!(
                            "after {}: in_check is {got}, the rules say {want}",
                            mv.usi()
                        ),
                    );
                }
                real::undo(pos, mv, me);
                let back = real::in_check(pos);
                if back != n.check {
                    return viol(
                        n.h,
                        format!(
                            "after making and undoing {}: in_check is {back}, the rules say {}",
                            mv.usi(),
                            n.check
                        ),
                    );
                }
            }
        }
        "C12" => {
            let ok = m.king(1 - me);
            for &mv in n.legal {
                let next = m.make(mv);
                let want = next.in_check(next.side);
                let got = real::is_check(pos, mv, me);
                cx.count("moves asked");
                if want {
                    cx.nontrivial(mix(id.0
                        ^ mv.from as u64
                        ^ (mv.to as u64) << 8
                        ^ (mv.promo as u64) << 16));
                    let direct = next.piece_attacks(mv.to, ok.unwrap());
                    cx.count(if mv.is_drop() {
                        "checks by drop"
                    } else if direct && checkers(&next) > 1 {
                        "double checks"
                    } else if direct {
                        "direct checks"
                    } else {
                        "discovered checks only"
                    });
                } else if !mv.is_drop() {
                    if let Some(k) = ok {
                        if m.shields(1 - me).iter().any(|s| s.0 == mv.from) {
                            cx.count("moves of a shielding piece along its line");
                        }
                        let _ = k;
                    }
                }
                if got != want {
                    return viol(
                        n.h,
                        format!("is_check_move({}) is {got}, the rules say {want}", mv.usi()),
                    );
                }
            }
        }
        "C13" => {
            let (k, ks) = (real::key(pos), real::keys(pos));
            let mut fresh_of = m.clone();
            if cx.rng.pct(50) {
                fresh_of.ply = cx.rng.range(1, 65000) as u16;
            }
            let fresh = real::new(&fresh_of);
            let (fk, fks) = (real::key(&fresh), real::keys(&fresh));
            cx.count("played positions compared with new ones");
            if (k, ks) != (fk, fks) {
                return viol(
                    n.h,
                    format!("key {k:#x} keys {ks:x?} reached by play, key {fk:#x} keys {fks:x?} when newly created"),
                );
            }
            if n.h.moves.len() > 1 {
                cx.nontrivial(id.0);
            }
            if let Some(old) = put_map(&sh.by_ident, id.0, id, (k, ks)) {
                cx.count("positions met again by another path");
                if old != (k, ks) {
                    return viol(
                        n.h,
                        format!(
                            "key {k:#x} keys {ks:x?}, but {:#x} {:x?} when met before",
                            old.0, old.1
                        ),
                    );
                }
            }
            transpositions(cx, pos, n)?;
        }
        "C14" => {
            let k = real::key(pos);
            key_distinct(cx, sh, n.h, k, id)?;
            if cx.rng.pct(2) {
                let ks = real::keys(pos);
                let mut g = sh.sample_keys.lock().unwrap();
                if g.len() < 40000 {
                    g.push((k, ks.0, ks.1));
                }
            }
            // every successor: differs from here and from the others
            for &mv in n.legal {
                real::domv(pos, mv, me);
                let nk = real::key(pos);
                let nid = m.make(mv).ident();
                let mut h = n.h.clone();
                h.moves.push(mv);
                key_distinct(cx, sh, &h, nk, nid)?;
                real::undo(pos, mv, me);
            }
        }
        "C15" => {
            components(cx, sh, pos, m, n.h)?;
            for &mv in n.legal {
                if !cx.rng.pct(20) {
                    continue;
                }
                let mut h = n.h.clone();
                h.moves.push(mv);
                let next = m.make(mv);
                let (b0, h0) = real::keys(pos);
                real::domv(pos, mv, me);
                components(cx, sh, pos, &next, &h)?;
                let (b1, h1) = real::keys(pos);
                let hands_same = next.hands == m.hands;
                if hands_same != (h0 == h1) {
                    return viol(
                        &h,
                        format!(
                            "{}: hands {}changed, second component {:x} -> {:x}",
                            mv.usi(),
                            if hands_same { "un" } else { "" },
                            h0,
                            h1
                        ),
                    );
                }
                if b0 == b1 {
                    return viol(
                        &h,
                        format!("{}: the first component did not change", mv.usi()),
                    );
                }
                real::undo(pos, mv, me);
            }
        }
        "C17" => {
            let mut a = real::obs(pos);
            // its number of moves is not what a position is
            let mut given = m.clone();
            if cx.rng.pct(40) {
                let any = [1 + cx.rng.below(60000) as u16, 1 + cx.rng.below(300) as u16];
                given.ply = *cx.rng.pick(&[1, 2, m.ply ^ 1, any[0], any[1]]);
                given.ply = given.ply.clamp(1, 65000);
                cx.count("new positions of another ply");
            }
            let shift = m.ply.wrapping_sub(given.ply);
            let seen = |p: &Position| {
                let mut o = real::obs(p);
                o.st.ply = o.st.ply.wrapping_add(shift);
                o
            };
            let fresh = real::new(&given);
            let b = if cx.rng.pct(25) {
                // each asked after something quite different, or something
                // similar, or both
                let any = start(&mut Rng::new(cx.rng.next(), 1, 1), 1 + cx.rng.below(12));
                let any = real::new(&any);
                let mut similar = relative(&mut cx.rng, m);
                similar.ply = 1;
                let similar = real::new(&similar);
                let mut before = |cx: &mut Cx| {
                    if cx.rng.pct(60) {
                        real::obs(&any);
                    }
                    if cx.rng.pct(50) {
                        real::obs(&similar);
                    }
                };
                before(cx);
                let b = seen(&fresh);
                before(cx);
                a = real::obs(pos);
                cx.count("asked after a related position");
                b
            } else {
                seen(&fresh)
            };
            if n.h.moves.len() > 1 {
                cx.nontrivial(id.0);
            }
            cx.count("states compared with new positions");
            same_obs(
                n.h,
                &a,
                &b,
                "played (first) and newly created (second) position differ",
            )?;
            // and everything afterwards
            if cx.rng.pct(30) && !n.legal.is_empty() {
                let mut x = pos.clone();
                let mut y = fresh;
                let mut q = m.clone();
                let mut h = n.h.clone();
                let mut line = vec![];
                for _ in 0..cx.rng.range(1, 8) {
                    let l = q.legal_moves();
                    if l.is_empty() {
                        break;
                    }
                    let mv = *cx.rng.pick(&l);
                    real::domv(&mut x, mv, q.side);
                    real::domv(&mut y, mv, q.side);
                    line.push((mv, q.side));
                    q.apply(mv);
                    h.moves.push(mv);
                    cx.count("later states compared");
                    same_obs(
                        &h,
                        &real::obs(&x),
                        &seen(&y),
                        "the same moves made in the played (first) and the new (second) position",
                    )?;
                }
                while let Some((mv, s)) = line.pop() {
                    real::undo(&mut x, mv, s);
                    real::undo(&mut y, mv, s);
                    h.moves.pop();
                    cx.count("later states compared");
                    same_obs(
                        &h,
                        &real::obs(&x),
                        &seen(&y),
                        "the same moves undone in the played (first) and the new (second) position",
                    )?;
                }
            }
        }
        "C18" => {
            let first = real::obs(pos);
            cx.nontrivial(id.0);
            let other_model = start(&mut Rng::new(cx.rng.next(), 1, 1), 1 + cx.rng.below(12));
            let mut other = real::new(&other_model);
            // positions that have much in common with this one
            let mut kin: Vec<(Position, Pos, Option<real::Obs>)> = vec![];
            for _ in 0..2 {
                let from = match kin.last() {
                    Some(k) if cx.rng.pct(40) => k.1.clone(),
                    _ => m.clone(),
                };
                let k = relative(&mut cx.rng, &from);
                let mut kp = real::new(&k);
                // alone: something quite different was asked before
                if cx.rng.pct(50) {
                    let _ = real::obs(&other);
                }
                let o = if cx.rng.pct(70) {
                    Some(real::obs(&kp))
                } else {
                    None
                };
                if o.is_none() && cx.rng.pct(30) {
                    let l = k.legal_moves();
                    if !l.is_empty() {
                        let mv = *cx.rng.pick(&l);
                        real::domv(&mut kp, mv, k.side);
                        real::undo(&mut kp, mv, k.side);
                    }
                }
                cx.count("related positions asked in between");
                kin.push((kp, k, o));
            }
            let reps = cx.rng.range(6, 16);
            for _ in 0..reps {
                cx.count("queries repeated");
                match cx.rng.below(16) {
                    12..=15 => {
                        let i = cx.rng.below(kin.len());
                        let (kp, km, ko) = &mut kin[i];
                        let o = real::obs(kp);
                        match ko {
                            None => *ko = Some(o),
                            Some(w) => {
                                if *w != o {
                                    return viol(
                                        n.h,
                                        format!("a related position [{}], asked in between, answered differently the second time: {}", km.sfen(), w.diff(&o)),
                                    );
                                }
                            }
                        }
                    }
                    0 => {
                        let mv = real::moves(pos, me);
                        if mv != first.moves {
                            return viol(
                                n.h,
                                format!("legal_moves changed: {:?}", diff(&mv, &first.moves)),
                            );
                        }
                    }
                    1 | 2 => {
                        if !first.moves.is_empty() {
                            let i = cx.rng.below(first.moves.len());
                            if first.moves[i] != real::BAD_MOVE
                                && real::is_check(pos, first.moves[i], me) != first.checks[i]
                            {
                                return viol(
                                    n.h,
                                    format!("is_check_move({}) changed", first.moves[i].usi()),
                                );
                            }
                        }
                    }
                    3 => {
                        if real::in_check(pos) != first.in_check {
                            return viol(n.h, "in_check changed");
                        }
                    }
                    4 => {
                        if real::key(pos) != first.key || real::keys(pos) != first.keys {
                            return viol(n.h, "key changed");
                        }
                    }
                    5 => {
                        let _ = format!("{:?}", pos).len();
                    }
                    6 => {
                        if real::state(pos) != first.st {
                            return viol(n.h, "board, hands, side or ply changed");
                        }
                    }
                    // work on something else in between
                    7 => {
                        let l = other_model.legal_moves();
                        if !l.is_empty() {
                            let mv = *cx.rng.pick(&l);
                            real::domv(&mut other, mv, other_model.side);
                            let _ = real::obs(&other);
                            real::undo(&mut other, mv, other_model.side);
                        }
                    }
                    8 => {
                        let c = pos.clone();
                        let _ = real::obs(&c);
                    }
                    9 => {
                        let _ = real::obs(&other);
                    }
                    _ => {
                        let o = real::obs(pos);
                        same_obs(
                            n.h,
                            &first,
                            &o,
                            "asked again, the position answered differently",
                        )?;
                    }
                }
            }
            let o = real::obs(pos);
            same_obs(
                n.h,
                &first,
                &o,
                "after repeated queries the position answered differently",
            )?;
            // the queries did not disturb the history either
            expect_state(n.h, pos, m, "after repeated queries")?;
        }
        "C20" => {
            let a = real::obs(pos);
            for k in 0..3 {
                let (img, name): (Pos, &str) = match k {
                    0 => (m.rotated(), "rotated"),
                    1 => (m.mirrored(), "mirrored"),
                    _ => (m.rotated().mirrored(), "rotated and mirrored"),
                };
                let f = |mv: Mv| match k {
                    0 => rot_mv(mv),
                    1 => mirror_mv(mv),
                    _ => mirror_mv(rot_mv(mv)),
                };
                let b = real::obs(&real::new(&img));
                let mut want: Vec<(Mv, bool)> = a
                    .moves
                    .iter()
                    .zip(&a.checks)
                    .map(|(&x, &c)| (if x == real::BAD_MOVE { x } else { f(x) }, c))
                    .collect();
                want.sort_unstable();
                let wm: Vec<Mv> = want.iter().map(|x| x.0).collect();
                cx.count("images compared");
                if wm != b.moves {
                    let (x, y) = diff(&wm, &b.moves);
                    return viol(
                        n.h,
                        format!(
                            "the {name} image [{}] lacks {} and has in addition {}",
                            img.sfen(),
                            list(&x),
                            list(&y)
                        ),
                    );
                }
                for (i, w) in want.iter().enumerate() {
                    if w.1 != b.checks[i] {
                        return viol(
                            n.h,
                            format!(
                                "in the {name} image [{}] is_check_move({}) is {}",
                                img.sfen(),
                                w.0.usi(),
                                b.checks[i]
                            ),
                        );
                    }
                }
                if a.in_check != b.in_check {
                    return viol(
                        n.h,
                        format!(
                            "in the {name} image [{}] in_check is {}",
                            img.sfen(),
                            b.in_check
                        ),
                    );
                }
            }
            if a.in_check || a.checks.iter().any(|&c| c) {
                cx.nontrivial(id.0);
            }
            cx.add(
                "checking moves compared",
                a.checks.iter().filter(|&&c| c).count() as u64,
            );
        }
        "C24" => {}
        _ => unreachable!("{}", cx.prop),
    }
    cx.sample(|| n.h.text());
    Ok(())
}

/// Different orders of the same moves, and there-and-back loops.
fn transpositions(cx: &mut Cx, pos: &mut Position, n: &Node) -> Res {
    let m = n.m;
    if n.legal.is_empty() {
        return Ok(());
    }
    for _ in 0..4 {
        let a = *cx.rng.pick(n.legal);
        let p1 = m.make(a);
        let l1 = p1.legal_moves();
        if l1.is_empty() {
            continue;
        }
        let b = *cx.rng.pick(&l1);
        let p2 = p1.make(b);
        let l2 = p2.legal_moves();
        let line1;
        let line2: Vec<Mv>;
        if cx.rng.pct(50) {
            if l2.is_empty() {
                continue;
            }
            let c = *cx.rng.pick(&l2);
            line1 = vec![a, b, c];
            line2 = vec![c, b, a];
        } else {
            if a.is_drop() || b.is_drop() {
                continue;
            }
            line1 = vec![
                a,
                b,
                Mv::normal(a.to, a.from, false),
                Mv::normal(b.to, b.from, false),
            ];
            line2 = vec![];
        }
        let play = |l: &[Mv]| -> Option<Pos> {
            let mut q = m.clone();
            for &x in l {
                if q.legal_moves().binary_search(&x).is_err() {
                    return None;
                }
                q.apply(x);
            }
            Some(q)
        };
        let (Some(q1), Some(q2)) = (play(&line1), play(&line2)) else {
            continue;
        };
        if q1.ident() != q2.ident() {
            continue;
        }
        cx.count(if line2.is_empty() {
            "there-and-back loops"
        } else {
            "transposed move orders"
        });
        let mut keys = vec![];
        for l in [&line1, &line2] {
            let mut s = m.side;
            for &x in l.iter() {
                real::domv(pos, x, s);
                s = 1 - s;
            }
            keys.push((real::key(pos), real::keys(pos)));
            for &x in l.iter().rev() {
                s = 1 - s;
                real::undo(pos, x, s);
            }
        }
        if keys[0] != keys[1] {
            return viol(
                n.h,
                format!(
                    "equal positions after {} and after {} have keys {:x?} and {:x?}",
                    list(&line1),
                    list(&line2),
                    keys[0],
                    keys[1]
                ),
            );
        }
    }
    Ok(())
}

pub fn key_distinct(cx: &mut Cx, sh: &Shared, h: &Hist, k: u64, id: Ident) -> Res {
    cx.count("keys recorded");
    match put_map(&sh.by_key, k ^ k >> 32, k, id) {
        None => {
            cx.nontrivial(id.0);
            Ok(())
        }
        Some(o) if o == id => Ok(()),
        Some(_) => viol(
            h,
            format!("key {k:#x} is also the key of a different position met before"),
        ),
    }
}

pub fn components(cx: &mut Cx, sh: &Shared, pos: &Position, m: &Pos, h: &Hist) -> Res {
    let (b, hd) = real::keys(pos);
    let k = real::key(pos);
    let (bi, hi) = (m.board_ident(), m.hand_ident());
    cx.count("keys() recorded");
    cx.nontrivial(m.ident().0);
    if let Some(o) = put_map(&sh.board_to, bi.0, bi, b) {
        cx.count("same board and side met again");
        if o != b {
            return viol(
                h,
                format!("first component {b:#x}, but {o:#x} for the same board and side"),
            );
        }
    }
    if let Some(o) = put_map(&sh.to_board, b ^ b >> 32, b, bi) {
        if o != bi {
            return viol(
                h,
                format!("first component {b:#x} is also that of a different board or side"),
            );
        }
    }
    if let Some(o) = put_map(&sh.hand_to, hi.0, hi, hd) {
        cx.count("same hands met again");
        if o != hd {
            return viol(
                h,
                format!("second component {hd:#x}, but {o:#x} for the same hands"),
            );
        }
    }
    if let Some(o) = put_map(&sh.to_hand, hd ^ hd >> 32, hd, hi) {
        if o != hi {
            return viol(
                h,
                format!("second component {hd:#x} is also that of different hands"),
            );
        }
    }
    if let Some(o) = put_map(&sh.pair_to_key, b ^ hd, (b, hd), k) {
        if o != k {
            return viol(
                h,
                format!("keys ({b:#x}, {hd:#x}) belong to key {k:#x} and to key {o:#x}"),
            );
        }
    }
    Ok(())
}

/// A random game from the family, every state of it shown to the monitor, with
/// take-backs, and everything undone at the end.
pub fn walk_item(cx: &mut Cx, sh: &Shared, family: usize) -> Res {
    let p0 = start(&mut cx.rng, family);
    let len = match family {
        0 => cx.rng.range(5, 60),
        _ => *cx.rng.pick(&[0, 1, 2, 3, 6, 12, 25]),
    };
    walk_from(cx, sh, p0, len)
}

pub fn walk_from(cx: &mut Cx, sh: &Shared, p0: Pos, len: usize) -> Res {
    let mut h = Hist::new(&p0);
    set_cur(&h);
    let mut pos = real::new(&p0);
    let mut m = p0.clone();
    let mut policy = Policy::random(&mut cx.rng);
    let mut pseudo = Vec::with_capacity(256);
    let mut stack: Vec<Pos> = vec![];
    let mut steps = 0;
    // in some walks the library is asked nothing between most moves
    let blind = len > 2 && cx.rng.pct(20);
    loop {
        m.pseudo(&mut pseudo);
        let king = m.king(m.side);
        let mut legal: Vec<Mv> = pseudo
            .iter()
            .copied()
            .filter(|&x| m.legal(x, king))
            .collect();
        legal.sort_unstable();
        let node = Node {
            m: &m,
            pseudo: &pseudo,
            legal: &legal,
            check: m.in_check(m.side),
            h: &h,
        };
        beat();
        if !blind || steps >= len || cx.rng.pct(25) {
            visit(cx, sh, &mut pos, &node)?;
        } else {
            cx.count("states passed without a query");
        }
        if steps >= len {
            break;
        }
        steps += 1;
        if cx.rng.pct(4) {
            policy = Policy::random(&mut cx.rng);
        }
        if legal.is_empty() || (!stack.is_empty() && cx.rng.pct(12)) {
            // take back
            if stack.is_empty() {
                break;
            }
            for _ in 0..cx.rng.range(1, 3).min(stack.len()) {
                let mv = h.moves.pop().unwrap();
                m = stack.pop().unwrap();
                set_cur(&h);
                real::undo(&mut pos, mv, m.side);
                cx.count("take-backs");
            }
            continue;
        }
        let mv = policy.choose(&mut cx.rng, &m, &legal);
        stack.push(m.clone());
        h.moves.push(mv);
        set_cur(&h);
        real::domv(&mut pos, mv, m.side);
        cx.count("moves played");
        m.apply(mv);
        if m.king(1 - m.side).is_none() && !in_domain(&m) {
            // beyond the 593 moves (no king to bound them): step back and stop
            h.moves.pop();
            m = stack.pop().unwrap();
            real::undo(&mut pos, mv, m.side);
            break;
        }
    }
    while let Some(prev) = stack.pop() {
        let mv = h.moves.pop().unwrap();
        set_cur(&h);
        real::undo(&mut pos, mv, prev.side);
        if matches!(cx.prop, "C09" | "C10" | "C11" | "C13") {
            // on the way back, every earlier state is seen again
            if real::state(&pos) != prev {
                return viol(
                    &h,
                    format!(
                        "after undoing {} and the moves after it: [{}] instead of [{}]",
                        mv.usi(),
                        real::state(&pos).sfen(),
                        prev.sfen()
                    ),
                );
            }
            if cx.prop == "C11" && real::in_check(&pos) != prev.in_check(prev.side) {
                return viol(
                    &h,
                    format!(
                        "after undoing {}: in_check is {}",
                        mv.usi(),
                        real::in_check(&pos)
                    ),
                );
            }
            if cx.prop == "C13" {
                let f = real::new(&prev);
                if real::keys(&f) != real::keys(&pos) || real::key(&f) != real::key(&pos) {
                    return viol(
                        &h,
                        format!(
                            "after undoing {}: keys {:x?}, newly created {:x?}",
                            mv.usi(),
                            real::keys(&pos),
                            real::keys(&f)
                        ),
                    );
                }
            }
        }
    }
    Ok(())
}

/// Show the position as it is to the monitor.
fn show(cx: &mut Cx, sh: &Shared, pos: &mut Position, m: &Pos, h: &Hist) -> Res {
    let mut pseudo = Vec::with_capacity(256);
    m.pseudo(&mut pseudo);
    let king = m.king(m.side);
    let mut legal: Vec<Mv> = pseudo
        .iter()
        .copied()
        .filter(|&x| m.legal(x, king))
        .collect();
    legal.sort_unstable();
    let check = m.in_check(m.side);
    visit(
        cx,
        sh,
        pos,
        &Node {
            m,
            pseudo: &pseudo,
            legal: &legal,
            check,
            h,
        },
    )
}

/// Four moves that lead back to the same position, the first one checking if
/// `check`.
pub fn find_loop(rng: &mut Rng, m: &Pos, check: bool) -> Option<[Mv; 4]> {
    let quiet = |p: &Pos, mv: &Mv| !mv.is_drop() && !mv.promo && p.board[mv.to as usize] == 0;
    let back = |mv: Mv| Mv {
        from: mv.to,
        to: mv.from,
        promo: false,
    };
    let mut l: Vec<Mv> = m
        .legal_moves()
        .into_iter()
        .filter(|x| quiet(m, x))
        .collect();
    for _ in 0..12 {
        if l.is_empty() {
            return None;
        }
        let a = l.swap_remove(rng.below(l.len()));
        let p1 = m.make(a);
        if check && !p1.in_check(p1.side) {
            continue;
        }
        let mut l1: Vec<Mv> = p1
            .legal_moves()
            .into_iter()
            .filter(|x| quiet(&p1, x))
            .collect();
        for _ in 0..6 {
            if l1.is_empty() {
                break;
            }
            let b = l1.swap_remove(rng.below(l1.len()));
            let p2 = p1.make(b);
            if !p2.legal_moves().contains(&back(a)) {
                continue;
            }
            let p3 = p2.make(back(a));
            if p3.legal_moves().contains(&back(b)) {
                return Some([a, b, back(a), back(b)]);
            }
        }
    }
    None
}

/// Family 53: games that come back to the same positions many times, with and
/// without check, long stretches without a capture or drop among them.
pub fn loop_item(cx: &mut Cx, sh: &Shared, idx: u64) -> Res {
    // a start with a loop
    let want_check = idx % 2 == 0;
    let mut found = None;
    for _ in 0..30 {
        let fam = [10, 12, 5, 8, 13, 1, 6, 3][cx.rng.below(8)];
        let mut p = start(&mut cx.rng, fam);
        p.ply = p.ply.min(60000);
        let mut h = Hist::new(&p);
        // a few moves first
        for _ in 0..cx.rng.below(4) {
            let l = p.legal_moves();
            if l.is_empty() {
                break;
            }
            let mv = *cx.rng.pick(&l);
            let n = p.make(mv);
            if !in_domain(&n) {
                break;
            }
            h.moves.push(mv);
            p = n;
        }
        if let Some(c) = find_loop(&mut cx.rng, &p, want_check) {
            found = Some((h, c));
            break;
        }
    }
    let Some((first, cycle)) = found else {
        return Ok(());
    };
    let h0 = Hist::new(&first.start);
    let mut h = h0.clone();
    set_cur(&h);
    let mut pos = real::new(&h.start);
    let mut m = h.start.clone();
    let mut stack = vec![];
    let times = match idx / 2 % 16 {
        0 => 140,
        1 => 40,
        2 => 18,
        _ => cx.rng.range(3, 6),
    };
    let mut line = first.moves.clone();
    for _ in 0..times {
        line.extend(cycle);
    }
    let n = line.len();
    // states of the loop are compared with how they were the first time
    let seen_at = first.moves.len();
    for (i, &mv) in line.iter().enumerate() {
        beat();
        stack.push(m.clone());
        h.moves.push(mv);
        set_cur(&h);
        real::domv(&mut pos, mv, m.side);
        m.apply(mv);
        if times < 8 || i < seen_at + 4 || i + 6 > n || cx.rng.pct(4) {
            show(cx, sh, &mut pos, &m, &h)?;
            cx.count(if want_check {
                "states of repeated positions, with checks"
            } else {
                "states of repeated positions"
            });
        }
    }
    cx.max("max times a position was repeated", times as u64);
    // and on from there
    for _ in 0..cx.rng.below(5) {
        let l = m.legal_moves();
        if l.is_empty() {
            break;
        }
        let mv = *cx.rng.pick(&l);
        let n = m.make(mv);
        if !in_domain(&n) {
            break;
        }
        stack.push(m.clone());
        h.moves.push(mv);
        set_cur(&h);
        real::domv(&mut pos, mv, m.side);
        m = n;
        show(cx, sh, &mut pos, &m, &h)?;
    }
    while let Some(prev) = stack.pop() {
        let mv = h.moves.pop().unwrap();
        set_cur(&h);
        real::undo(&mut pos, mv, prev.side);
        m = prev;
        if cx.rng.pct(if times < 8 { 15 } else { 3 }) || stack.is_empty() {
            show(cx, sh, &mut pos, &m, &h)?;
        }
    }
    Ok(())
}

/// Replay: visit every state along a given history.
pub fn replay_hist(cx: &mut Cx, sh: &Shared, h0: &Hist) -> Res {
    let mut h = Hist::new(&h0.start);
    set_cur(&h);
    let mut pos = real::new(&h0.start);
    let mut m = h0.start.clone();
    let mut pseudo = vec![];
    for i in 0..=h0.moves.len() {
        m.pseudo(&mut pseudo);
        let legal = m.legal_moves();
        let node = Node {
            m: &m,
            pseudo: &pseudo,
            legal: &legal,
            check: m.in_check(m.side),
            h: &h,
        };
        visit(cx, sh, &mut pos, &node)?;
        if i < h0.moves.len() {
            let mv = h0.moves[i];
            h.moves.push(mv);
            set_cur(&h);
            real::domv(&mut pos, mv, m.side);
            m.apply(mv);
        }
    }
    Ok(())
}
