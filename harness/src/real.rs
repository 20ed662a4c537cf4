//! Calls into the real library, and nothing but its public interface.

use crate::model::*;
use shogi_core::{Move, Square};
use std::cell::Cell as StdCell;
use yasai::Position;

thread_local! {
    /// True while control is inside yasai: tells a panic of the library from a
    /// panic of the harness.
    pub static IN_API: StdCell<bool> = const { StdCell::new(false) };
    /// Calls into the library made by this thread.
    pub static API_CALLS: StdCell<u64> = const { StdCell::new(0) };
}

#[inline(always)]
pub fn api<T>(f: impl FnOnce() -> T) -> T {
    IN_API.with(|c| c.set(true));
    let r = f();
    IN_API.with(|c| c.set(false));
    API_CALLS.with(|c| c.set(c.get() + 1));
    r
}

/// A move the library returned that is not a move at all.
pub const BAD_MOVE: Mv = Mv {
    from: 254,
    to: 254,
    promo: false,
};

pub fn new(p: &Pos) -> Position {
    let pp = to_partial(p);
    api(|| Position::new(pp))
}
/// board, hands, side and ply, read back through the interface
pub fn state(pos: &Position) -> Pos {
    let mut out = Pos::empty();
    for s in 0..81u8 {
        out.board[s as usize] = from_piece(api(|| pos.piece_at(to_sq(s))));
    }
    out.side = from_color(api(|| pos.side_to_move()));
    out.hands[0] = from_hand(api(|| pos.hand(shogi_core::Color::Black)));
    out.hands[1] = from_hand(api(|| pos.hand(shogi_core::Color::White)));
    out.ply = api(|| pos.ply());
    out
}
/// The moves in the order returned.
pub fn moves_raw(pos: &Position) -> Vec<Move> {
    api(|| pos.legal_moves().into_iter().collect())
}
/// The moves sorted (duplicates kept).
pub fn moves(pos: &Position, side: u8) -> Vec<Mv> {
    let mut v: Vec<Mv> = moves_raw(pos)
        .into_iter()
        .map(|m| from_move(m, side).unwrap_or(BAD_MOVE))
        .collect();
    v.sort_unstable();
    v
}
#[inline(always)]
pub fn is_check(pos: &Position, m: Mv, side: u8) -> bool {
    let mv = to_move(m, side);
    api(|| pos.is_check_move(mv))
}
#[inline(always)]
pub fn domv(pos: &mut Position, m: Mv, side: u8) {
    let mv = to_move(m, side);
    api(|| pos.do_move(mv))
}
/// `side` is the side that made the move.
#[inline(always)]
pub fn undo(pos: &mut Position, m: Mv, side: u8) {
    let mv = to_move(m, side);
    api(|| pos.undo_move(mv))
}
pub fn in_check(pos: &Position) -> bool {
    api(|| pos.in_check())
}
pub fn key(pos: &Position) -> u64 {
    api(|| pos.key())
}
pub fn keys(pos: &Position) -> (u64, u64) {
    api(|| pos.keys())
}
pub fn piece_at(pos: &Position, s: Square) -> Cell {
    from_piece(api(|| pos.piece_at(s)))
}

/// Everything a user can see of a position.
#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Obs {
    pub st: Pos,
    pub key: u64,
    pub keys: (u64, u64),
    pub in_check: bool,
    pub moves: Vec<Mv>,
    /// is_check_move of each of `moves`
    pub checks: Vec<bool>,
}

pub fn obs(pos: &Position) -> Obs {
    let st = state(pos);
    let mv = moves(pos, st.side);
    let checks = mv
        .iter()
        .map(|&m| m != BAD_MOVE && is_check(pos, m, st.side))
        .collect();
    Obs {
        key: key(pos),
        keys: keys(pos),
        in_check: in_check(pos),
        moves: mv,
        checks,
        st,
    }
}
impl Obs {
    /// What differs, for people.
    pub fn diff(&self, o: &Obs) -> String {
        let mut d = vec![];
        if self.st != o.st {
            d.push(format!("state [{}] vs [{}]", self.st.sfen(), o.st.sfen()));
        }
        if self.key != o.key {
            d.push(format!("key {:#x} vs {:#x}", self.key, o.key));
        }
        if self.keys != o.keys {
            d.push(format!("keys {:x?} vs {:x?}", self.keys, o.keys));
        }
        if self.in_check != o.in_check {
            d.push(format!("in_check {} vs {}", self.in_check, o.in_check));
        }
        if self.moves != o.moves {
            let (a, b) = diff(&self.moves, &o.moves);
            d.push(format!("moves only in first: {} only in second: {}", list(&a), list(&b)));
        } else if self.checks != o.checks {
            for i in 0..self.moves.len() {
                if self.checks[i] != o.checks[i] {
                    d.push(format!(
                        "is_check_move({}) {} vs {}",
                        self.moves[i].usi(),
                        self.checks[i],
                        o.checks[i]
                    ));
                }
            }
        }
        d.join("; ")
    }
    /// One number for the whole observation (moves as a set).
    pub fn digest(&self) -> u64 {
        let mut h = H2::new();
        let (a, b) = self.st.ident();
        h.add(a);
        h.add(b);
        h.add(self.st.ply as u64);
        h.add(self.key);
        h.add(self.keys.0);
        h.add(self.keys.1);
        h.add(self.in_check as u64);
        h.add(self.moves.len() as u64);
        for (m, c) in self.moves.iter().zip(&self.checks) {
            h.add(m.from as u64 | (m.to as u64) << 8 | (m.promo as u64) << 16 | (*c as u64) << 17);
        }
        h.get().0
    }
}

/// (only in a, only in b) for sorted lists, as multisets.
pub fn diff(a: &[Mv], b: &[Mv]) -> (Vec<Mv>, Vec<Mv>) {
    let (mut i, mut j) = (0, 0);
    let (mut oa, mut ob) = (vec![], vec![]);
    while i < a.len() || j < b.len() {
        if j == b.len() || (i < a.len() && a[i] < b[j]) {
            oa.push(a[i]);
            i += 1;
        } else if i == a.len() || b[j] < a[i] {
            ob.push(b[j]);
            j += 1;
        } else {
            i += 1;
            j += 1;
        }
    }
    (oa, ob)
}
pub fn list(v: &[Mv]) -> String {
    let s: Vec<String> = v
        .iter()
        .map(|m| if *m == BAD_MOVE { "<not a move>".into() } else { m.usi() })
        .collect();
    format!("[{}]", s.join(" "))
}
