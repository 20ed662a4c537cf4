//! The executable specification: the rules of shogi on a plain 9x9 array.
//!
//! Nothing in here uses yasai; shogi_core appears only in the conversions at
//! the end.  Everything is decided by walking squares one step at a time and
//! by making a move and looking at the result.

use std::fmt::Write;

pub const PAWN: u8 = 1;
pub const LANCE: u8 = 2;
pub const KNIGHT: u8 = 3;
pub const SILVER: u8 = 4;
pub const GOLD: u8 = 5;
pub const BISHOP: u8 = 6;
pub const ROOK: u8 = 7;
pub const KING: u8 = 8;
pub const PRO_PAWN: u8 = 9;
pub const PRO_LANCE: u8 = 10;
pub const PRO_KNIGHT: u8 = 11;
pub const PRO_SILVER: u8 = 12;
pub const HORSE: u8 = 13;
pub const DRAGON: u8 = 14;

pub const BLACK: u8 = 0;
pub const WHITE: u8 = 1;

/// How many of each basic kind a set has (index 1..=8).
pub const SET: [u8; 9] = [0, 18, 4, 4, 4, 4, 2, 2, 2];

/// 0 = empty, otherwise kind | colour << 4.
pub type Cell = u8;
#[inline(always)]
pub fn cell(kind: u8, color: u8) -> Cell {
    kind | color << 4
}
#[inline(always)]
pub fn kind_of(c: Cell) -> u8 {
    c & 15
}
#[inline(always)]
pub fn color_of(c: Cell) -> u8 {
    c >> 4
}
pub fn promoted(kind: u8) -> Option<u8> {
    Some(match kind {
        PAWN => PRO_PAWN,
        LANCE => PRO_LANCE,
        KNIGHT => PRO_KNIGHT,
        SILVER => PRO_SILVER,
        BISHOP => HORSE,
        ROOK => DRAGON,
        _ => return None,
    })
}
#[inline(always)]
pub fn basic(kind: u8) -> u8 {
    match kind {
        PRO_PAWN => PAWN,
        PRO_LANCE => LANCE,
        PRO_KNIGHT => KNIGHT,
        PRO_SILVER => SILVER,
        HORSE => BISHOP,
        DRAGON => ROOK,
        k => k,
    }
}

/// Squares are 0..81: (file - 1) * 9 + (rank - 1).
#[inline(always)]
pub fn sq(file: i8, rank: i8) -> u8 {
    ((file - 1) * 9 + rank - 1) as u8
}
#[inline(always)]
pub fn file_of(s: u8) -> i8 {
    (s / 9) as i8 + 1
}
#[inline(always)]
pub fn rank_of(s: u8) -> i8 {
    (s % 9) as i8 + 1
}
#[inline(always)]
pub fn step(s: u8, df: i8, dr: i8) -> Option<u8> {
    let f = file_of(s) + df;
    let r = rank_of(s) + dr;
    if (1..=9).contains(&f) && (1..=9).contains(&r) {
        Some(sq(f, r))
    } else {
        None
    }
}
/// Rank counted from the far side of `color`: 1 = farthest.
#[inline(always)]
pub fn far_rank(s: u8, color: u8) -> i8 {
    if color == BLACK {
        rank_of(s)
    } else {
        10 - rank_of(s)
    }
}
/// Ranks in front of a piece that has to move on: a piece of this kind there has no future move.
#[inline(always)]
pub fn dead(kind: u8, color: u8, s: u8) -> bool {
    match kind {
        PAWN | LANCE => far_rank(s, color) == 1,
        KNIGHT => far_rank(s, color) <= 2,
        _ => false,
    }
}

// Steps for Black: (df, dr), forward is dr = -1.
const PAWN_S: &[(i8, i8)] = &[(0, -1)];
const KNIGHT_S: &[(i8, i8)] = &[(-1, -2), (1, -2)];
const SILVER_S: &[(i8, i8)] = &[(-1, -1), (0, -1), (1, -1), (-1, 1), (1, 1)];
const GOLD_S: &[(i8, i8)] = &[(-1, -1), (0, -1), (1, -1), (-1, 0), (1, 0), (0, 1)];
const KING_S: &[(i8, i8)] = &[
    (-1, -1),
    (0, -1),
    (1, -1),
    (-1, 0),
    (1, 0),
    (-1, 1),
    (0, 1),
    (1, 1),
];
const DIAG: &[(i8, i8)] = &[(-1, -1), (1, -1), (-1, 1), (1, 1)];
const ORTH: &[(i8, i8)] = &[(0, -1), (-1, 0), (1, 0), (0, 1)];
pub const DIRS8: &[(i8, i8)] = KING_S;

/// (single steps, slides) of a piece kind, for Black.
pub fn movement(kind: u8) -> (&'static [(i8, i8)], &'static [(i8, i8)]) {
    match kind {
        PAWN => (PAWN_S, &[]),
        LANCE => (&[], PAWN_S),
        KNIGHT => (KNIGHT_S, &[]),
        SILVER => (SILVER_S, &[]),
        GOLD | PRO_PAWN | PRO_LANCE | PRO_KNIGHT | PRO_SILVER => (GOLD_S, &[]),
        BISHOP => (&[], DIAG),
        ROOK => (&[], ORTH),
        KING => (KING_S, &[]),
        HORSE => (ORTH, DIAG),
        DRAGON => (DIAG, ORTH),
        _ => (&[], &[]),
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
pub struct Mv {
    /// 0..81, or 81 + kind for a drop
    pub from: u8,
    pub to: u8,
    pub promo: bool,
}
impl Mv {
    pub fn is_drop(&self) -> bool {
        self.from > 81
    }
    pub fn drop_kind(&self) -> u8 {
        self.from - 81
    }
    pub fn drop(kind: u8, to: u8) -> Mv {
        Mv {
            from: 81 + kind,
            to,
            promo: false,
        }
    }
    pub fn normal(from: u8, to: u8, promo: bool) -> Mv {
        Mv { from, to, promo }
    }
    pub fn usi(&self) -> String {
        let s = |x: u8| {
            format!(
                "{}{}",
                file_of(x),
                (b'a' + (rank_of(x) - 1) as u8) as char
            )
        };
        if self.is_drop() {
            format!(
                "{}*{}",
                b"?PLNSGBRK"[self.drop_kind() as usize] as char,
                s(self.to)
            )
        } else {
            format!(
                "{}{}{}",
                s(self.from),
                s(self.to),
                if self.promo { "+" } else { "" }
            )
        }
    }
    pub fn parse(t: &str) -> Option<Mv> {
        let b = t.as_bytes();
        let psq = |f: u8, r: u8| -> Option<u8> {
            if (b'1'..=b'9').contains(&f) && (b'a'..=b'i').contains(&r) {
                Some(sq((f - b'0') as i8, (r - b'a') as i8 + 1))
            } else {
                None
            }
        };
        if b.len() < 4 {
            return None;
        }
        if b[1] == b'*' {
            let k = b"?PLNSGBR".iter().position(|&x| x == b[0])? as u8;
            return Some(Mv::drop(k, psq(b[2], b[3])?));
        }
        Some(Mv::normal(
            psq(b[0], b[1])?,
            psq(b[2], b[3])?,
            b.len() > 4 && b[4] == b'+',
        ))
    }
}

#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub struct Pos {
    pub board: [Cell; 81],
    /// hands[color][kind], kind 1..=7
    pub hands: [[u8; 8]; 2],
    pub side: u8,
    pub ply: u16,
}

impl Pos {
    pub fn empty() -> Pos {
        Pos {
            board: [0; 81],
            hands: [[0; 8]; 2],
            side: BLACK,
            ply: 1,
        }
    }
    pub fn startpos() -> Pos {
        Pos::from_sfen("lnsgkgsnl/1r5b1/ppppppppp/9/9/9/PPPPPPPPP/1B5R1/LNSGKGSNL b - 1").unwrap()
    }
    pub fn king(&self, color: u8) -> Option<u8> {
        let k = cell(KING, color);
        (0..81u8).find(|&s| self.board[s as usize] == k)
    }
    /// Does the piece on `from` attack `to`?  Straight from the definition.
    pub fn piece_attacks(&self, from: u8, to: u8) -> bool {
        let c = self.board[from as usize];
        let (steps, slides) = movement(kind_of(c));
        let sg = if color_of(c) == BLACK { 1 } else { -1 };
        for &(df, dr) in steps {
            if step(from, df, sg * dr) == Some(to) {
                return true;
            }
        }
        for &(df, dr) in slides {
            let mut cur = step(from, df, sg * dr);
            while let Some(s) = cur {
                if s == to {
                    return true;
                }
                if self.board[s as usize] != 0 {
                    break;
                }
                cur = step(s, df, sg * dr);
            }
        }
        false
    }
    /// Squares of all pieces of `by` attacking `to` (definition; slow).
    pub fn attackers_def(&self, to: u8, by: u8) -> Vec<u8> {
        (0..81u8)
            .filter(|&s| {
                let c = self.board[s as usize];
                c != 0 && color_of(c) == by && self.piece_attacks(s, to)
            })
            .collect()
    }
    /// The same decided by walking outwards from the target (fast); compared
    /// with the definition in `self_test` and again at run time on a sample.
    pub fn attackers(&self, to: u8, by: u8, out: &mut Vec<u8>) {
        out.clear();
        self.scan_attackers(to, by, |s| {
            out.push(s);
            false
        });
    }
    pub fn attacked(&self, to: u8, by: u8) -> bool {
        self.scan_attackers(to, by, |_| true)
    }
    #[inline(always)]
    fn scan_attackers(&self, to: u8, by: u8, mut f: impl FnMut(u8) -> bool) -> bool {
        // (df, dr) is the direction from the target outwards.
        for &(df, dr) in DIRS8 {
            let mut cur = step(to, df, dr);
            let mut dist = 1;
            while let Some(s) = cur {
                let c = self.board[s as usize];
                if c != 0 {
                    if color_of(c) == by {
                        // direction of travel of the attacker, seen by Black
                        let (tf, tr) = if by == BLACK { (-df, -dr) } else { (-df, dr) };
                        let (steps, slides) = movement(kind_of(c));
                        let hit = (dist == 1 && steps.contains(&(tf, tr)))
                            || slides.contains(&(tf, tr));
                        if hit && f(s) {
                            return true;
                        }
                    }
                    break;
                }
                cur = step(s, df, dr);
                dist += 1;
            }
        }
        let back = if by == BLACK { 2 } else { -2 };
        for df in [-1, 1] {
            if let Some(s) = step(to, df, back) {
                if self.board[s as usize] == cell(KNIGHT, by) && f(s) {
                    return true;
                }
            }
        }
        false
    }
    pub fn in_check(&self, color: u8) -> bool {
        match self.king(color) {
            Some(k) => self.attacked(k, 1 - color),
            None => false,
        }
    }
    /// Make a move without asking whether it is legal.
    pub fn make(&self, m: Mv) -> Pos {
        let mut n = self.clone();
        n.apply(m);
        n
    }
    pub fn apply(&mut self, m: Mv) {
        let me = self.side as usize;
        if m.is_drop() {
            let k = m.drop_kind();
            self.board[m.to as usize] = cell(k, self.side);
            self.hands[me][k as usize] -= 1;
        } else {
            let p = self.board[m.from as usize];
            let cap = self.board[m.to as usize];
            if cap != 0 {
                self.hands[me][basic(kind_of(cap)) as usize & 7] += 1;
            }
            self.board[m.from as usize] = 0;
            self.board[m.to as usize] = if m.promo {
                cell(promoted(kind_of(p)).unwrap(), self.side)
            } else {
                p
            };
        }
        self.side = 1 - self.side;
        self.ply = self.ply.wrapping_add(1);
    }
    /// All moves by movement, promotion, two-pawns and dead-square rules;
    /// king safety and pawn-drop mate not considered.
    pub fn pseudo(&self, out: &mut Vec<Mv>) {
        out.clear();
        let me = self.side;
        let sg = if me == BLACK { 1 } else { -1 };
        for from in 0..81u8 {
            let c = self.board[from as usize];
            if c == 0 || color_of(c) != me {
                continue;
            }
            let kind = kind_of(c);
            let (steps, slides) = movement(kind);
            let mut push = |to: u8| {
                if promoted(kind).is_some() && (far_rank(from, me) <= 3 || far_rank(to, me) <= 3) {
                    out.push(Mv::normal(from, to, true));
                }
                if !dead(kind, me, to) {
                    out.push(Mv::normal(from, to, false));
                }
            };
            let own = |s: u8| {
                let t = self.board[s as usize];
                t != 0 && color_of(t) == me
            };
            for &(df, dr) in steps {
                if let Some(to) = step(from, df, sg * dr) {
                    if !own(to) {
                        push(to);
                    }
                }
            }
            for &(df, dr) in slides {
                let mut cur = step(from, df, sg * dr);
                while let Some(to) = cur {
                    if own(to) {
                        break;
                    }
                    push(to);
                    if self.board[to as usize] != 0 {
                        break;
                    }
                    cur = step(to, df, sg * dr);
                }
            }
        }
        for kind in PAWN..=ROOK {
            if self.hands[me as usize][kind as usize] == 0 {
                continue;
            }
            for file in 1..=9 {
                if kind == PAWN
                    && (1..=9).any(|r| self.board[sq(file, r) as usize] == cell(PAWN, me))
                {
                    continue;
                }
                for rank in 1..=9 {
                    let to = sq(file, rank);
                    if self.board[to as usize] == 0 && !dead(kind, me, to) {
                        out.push(Mv::drop(kind, to));
                    }
                }
            }
        }
    }
    /// Is a pseudo-legal move legal?
    pub fn legal(&self, m: Mv, king: Option<u8>) -> bool {
        let next = self.make(m);
        let k = match king {
            Some(k) if k == m.from => Some(m.to),
            k => k,
        };
        if let Some(k) = k {
            if next.attacked(k, 1 - self.side) {
                return false;
            }
        }
        if m.is_drop() && m.drop_kind() == PAWN && next.in_check(next.side) && !next.has_legal() {
            return false; // pawn-drop mate
        }
        true
    }
    /// Does this pawn drop mate?  None where it is not possible anyway.
    pub fn drop_mates(&self, m: Mv) -> Option<bool> {
        let mut v = Vec::with_capacity(128);
        self.pseudo(&mut v);
        if !v.contains(&m) {
            return None;
        }
        let next = self.make(m);
        if let Some(k) = self.king(self.side) {
            if next.attacked(k, 1 - self.side) {
                return None;
            }
        }
        Some(next.in_check(next.side) && !next.has_legal())
    }
    pub fn has_legal(&self) -> bool {
        let mut v = Vec::with_capacity(128);
        self.pseudo(&mut v);
        let k = self.king(self.side);
        v.into_iter().any(|m| self.legal(m, k))
    }
    /// All legal moves, sorted.
    pub fn legal_moves(&self) -> Vec<Mv> {
        let mut v = Vec::with_capacity(128);
        self.pseudo(&mut v);
        let k = self.king(self.side);
        v.retain(|&m| self.legal(m, k));
        v.sort_unstable();
        v
    }
    pub fn perft(&self, depth: u32) -> u64 {
        if depth == 0 {
            return 1;
        }
        let v = self.legal_moves();
        if depth == 1 {
            return v.len() as u64;
        }
        v.into_iter().map(|m| self.make(m).perft(depth - 1)).sum()
    }
    /// As perft, but gives up after `left` leaves, and on positions with more
    /// moves than any position with both kings has.
    pub fn perft_capped(&self, depth: u32, left: &mut u64) -> Option<u64> {
        if depth == 0 {
            return Some(1);
        }
        let v = self.legal_moves();
        let n = v.len() as u64;
        if n > 593 || n > *left {
            return None;
        }
        if depth == 1 {
            *left -= n;
            return Some(n);
        }
        let mut t = 0;
        for m in v {
            t += self.make(m).perft_capped(depth - 1, left)?;
        }
        Some(t)
    }
    /// Own pieces of `color` that alone shield its king: (shield, attacker).
    pub fn shields(&self, color: u8) -> Vec<(u8, u8)> {
        let mut out = vec![];
        let Some(k) = self.king(color) else {
            return out;
        };
        for &(df, dr) in DIRS8 {
            let mut cur = step(k, df, dr);
            let mut first = None;
            while let Some(s) = cur {
                let c = self.board[s as usize];
                if c != 0 {
                    match first {
                        None => first = Some(s),
                        Some(f) => {
                            if color_of(c) != color {
                                let (tf, tr) = if color_of(c) == BLACK {
                                    (-df, -dr)
                                } else {
                                    (-df, dr)
                                };
                                if movement(kind_of(c)).1.contains(&(tf, tr)) {
                                    out.push((f, s));
                                }
                            }
                            break;
                        }
                    }
                }
                cur = step(s, df, dr);
            }
        }
        out
    }
    /// The domain of the properties.
    pub fn valid(&self) -> bool {
        let mut n = [0u8; 9];
        let mut kings = [0u8; 2];
        for s in 0..81u8 {
            let c = self.board[s as usize];
            if c == 0 {
                continue;
            }
            let (k, col) = (kind_of(c), color_of(c));
            n[basic(k) as usize] += 1;
            if k == KING {
                kings[col as usize] += 1;
            }
            if dead(k, col, s) {
                return false;
            }
            if k == PAWN {
                for r in rank_of(s) + 1..=9 {
                    if self.board[sq(file_of(s), r) as usize] == c {
                        return false;
                    }
                }
            }
        }
        for h in &self.hands {
            for k in 1..8 {
                n[k] += h[k];
            }
        }
        (1..9).all(|k| n[k] <= SET[k])
            && kings[0] <= 1
            && kings[1] <= 1
            && !self.in_check(1 - self.side)
    }
    /// Identity for keys: everything but ply.
    pub fn ident(&self) -> (u64, u64) {
        let (a, b) = (self.board_ident(), self.hand_ident());
        (mix(a.0 ^ b.0.rotate_left(17)), mix(a.1.wrapping_add(b.1.rotate_left(31))))
    }
    pub fn board_ident(&self) -> (u64, u64) {
        let mut h = H2::new();
        for ch in self.board.chunks(8) {
            let mut w = [0u8; 8];
            w[..ch.len()].copy_from_slice(ch);
            h.add(u64::from_le_bytes(w));
        }
        h.add(self.side as u64 + 77);
        h.get()
    }
    pub fn hand_ident(&self) -> (u64, u64) {
        let mut h = H2::new();
        h.add(u64::from_le_bytes(self.hands[0]));
        h.add(u64::from_le_bytes(self.hands[1]));
        h.get()
    }
    // ---- symmetries
    pub fn rotated(&self) -> Pos {
        let mut n = Pos::empty();
        for s in 0..81 {
            let c = self.board[s];
            if c != 0 {
                n.board[80 - s] = cell(kind_of(c), 1 - color_of(c));
            }
        }
        n.hands = [self.hands[1], self.hands[0]];
        n.side = 1 - self.side;
        n.ply = self.ply;
        n
    }
    pub fn mirrored(&self) -> Pos {
        let mut n = self.clone();
        for s in 0..81u8 {
            n.board[mirror_sq(s) as usize] = self.board[s as usize];
        }
        n
    }
    // ---- text
    pub fn sfen(&self) -> String {
        let mut s = String::new();
        for r in 1..=9 {
            let mut run = 0;
            for f in (1..=9).rev() {
                let c = self.board[sq(f, r) as usize];
                if c == 0 {
                    run += 1;
                    continue;
                }
                if run > 0 {
                    write!(s, "{run}").unwrap();
                    run = 0;
                }
                let k = kind_of(c);
                if k > KING {
                    s.push('+');
                }
                let ch = b"?PLNSGBRK"[basic(k) as usize] as char;
                s.push(if color_of(c) == BLACK {
                    ch
                } else {
                    ch.to_ascii_lowercase()
                });
            }
            if run > 0 {
                write!(s, "{run}").unwrap();
            }
            if r < 9 {
                s.push('/');
            }
        }
        s.push_str(if self.side == BLACK { " b " } else { " w " });
        let mut any = false;
        for c in 0..2 {
            for k in (1..8).rev() {
                let n = self.hands[c][k];
                if n > 0 {
                    any = true;
                    if n > 1 {
                        write!(s, "{n}").unwrap();
                    }
                    let ch = b"?PLNSGBR"[k] as char;
                    s.push(if c == 0 { ch } else { ch.to_ascii_lowercase() });
                }
            }
        }
        if !any {
            s.push('-');
        }
        write!(s, " {}", self.ply).unwrap();
        s
    }
    pub fn from_sfen(t: &str) -> Option<Pos> {
        let mut p = Pos::empty();
        let w: Vec<&str> = t.split_whitespace().collect();
        let w = if w.first() == Some(&"sfen") { &w[1..] } else { &w[..] };
        for (i, row) in w.first()?.split('/').enumerate() {
            let mut f = 9i8;
            let mut pro = false;
            for ch in row.bytes() {
                match ch {
                    b'1'..=b'9' => f -= (ch - b'0') as i8,
                    b'+' => pro = true,
                    _ => {
                        let up = ch.to_ascii_uppercase();
                        let k = b"?PLNSGBRK".iter().position(|&x| x == up)? as u8;
                        let k = if pro { promoted(k)? } else { k };
                        pro = false;
                        if f < 1 {
                            return None;
                        }
                        p.board[sq(f, i as i8 + 1) as usize] =
                            cell(k, if ch == up { BLACK } else { WHITE });
                        f -= 1;
                    }
                }
            }
        }
        p.side = if *w.get(1)? == "b" { BLACK } else { WHITE };
        let mut n = 0u32;
        for ch in w.get(2)?.bytes() {
            match ch {
                b'-' => {}
                b'0'..=b'9' => n = n * 10 + (ch - b'0') as u32,
                _ => {
                    let up = ch.to_ascii_uppercase();
                    let k = b"?PLNSGBR".iter().position(|&x| x == up)?;
                    p.hands[if ch == up { 0 } else { 1 }][k] += n.max(1) as u8;
                    n = 0;
                }
            }
        }
        p.ply = w.get(3).and_then(|x| x.parse().ok()).unwrap_or(1);
        Some(p)
    }
}

pub fn mirror_sq(s: u8) -> u8 {
    sq(10 - file_of(s), rank_of(s))
}
pub fn rot_mv(m: Mv) -> Mv {
    Mv {
        from: if m.is_drop() { m.from } else { 80 - m.from },
        to: 80 - m.to,
        promo: m.promo,
    }
}
pub fn mirror_mv(m: Mv) -> Mv {
    Mv {
        from: if m.is_drop() { m.from } else { mirror_sq(m.from) },
        to: mirror_sq(m.to),
        promo: m.promo,
    }
}

#[inline(always)]
pub fn mix(mut z: u64) -> u64 {
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
}
pub struct H2(u64, u64);
impl Default for H2 {
    fn default() -> Self {
        H2::new()
    }
}
impl H2 {
    pub fn new() -> H2 {
        H2(0x243f6a8885a308d3, 0x13198a2e03707344)
    }
    #[inline(always)]
    pub fn add(&mut self, w: u64) {
        self.0 = mix(self.0 ^ w).wrapping_add(0x9e3779b97f4a7c15);
        self.1 = mix(self.1.wrapping_add(w) ^ 0xa4093822299f31d0).rotate_left(23);
    }
    pub fn get(&self) -> (u64, u64) {
        (mix(self.0), mix(self.1))
    }
}

/// Deterministic generator (splitmix64).
#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn new(a: u64, b: u64, c: u64) -> Rng {
        Rng(mix(mix(mix(a.wrapping_add(0x9e3779b97f4a7c15)) ^ b).wrapping_add(0x9e3779b97f4a7c15) ^ c))
    }
    #[inline(always)]
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
        mix(self.0)
    }
    #[inline(always)]
    pub fn below(&mut self, n: usize) -> usize {
        ((self.next() >> 32) * n as u64 >> 32) as usize
    }
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    /// True with probability p percent.
    pub fn pct(&mut self, p: usize) -> bool {
        self.below(100) < p
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
}

// ---------------------------------------------------------------- conversions

use shogi_core::{Color, Hand, Move, PartialPosition, Piece, PieceKind, Square};

pub fn to_kind(k: u8) -> PieceKind {
    match k {
        PAWN => PieceKind::Pawn,
        LANCE => PieceKind::Lance,
        KNIGHT => PieceKind::Knight,
        SILVER => PieceKind::Silver,
        GOLD => PieceKind::Gold,
        BISHOP => PieceKind::Bishop,
        ROOK => PieceKind::Rook,
        KING => PieceKind::King,
        PRO_PAWN => PieceKind::ProPawn,
        PRO_LANCE => PieceKind::ProLance,
        PRO_KNIGHT => PieceKind::ProKnight,
        PRO_SILVER => PieceKind::ProSilver,
        HORSE => PieceKind::ProBishop,
        DRAGON => PieceKind::ProRook,
        _ => unreachable!(),
    }
}
pub fn from_kind(k: PieceKind) -> u8 {
    match k {
        PieceKind::Pawn => PAWN,
        PieceKind::Lance => LANCE,
        PieceKind::Knight => KNIGHT,
        PieceKind::Silver => SILVER,
        PieceKind::Gold => GOLD,
        PieceKind::Bishop => BISHOP,
        PieceKind::Rook => ROOK,
        PieceKind::King => KING,
        PieceKind::ProPawn => PRO_PAWN,
        PieceKind::ProLance => PRO_LANCE,
        PieceKind::ProKnight => PRO_KNIGHT,
        PieceKind::ProSilver => PRO_SILVER,
        PieceKind::ProBishop => HORSE,
        PieceKind::ProRook => DRAGON,
    }
}
pub fn to_color(c: u8) -> Color {
    if c == BLACK {
        Color::Black
    } else {
        Color::White
    }
}
pub fn from_color(c: Color) -> u8 {
    match c {
        Color::Black => BLACK,
        Color::White => WHITE,
    }
}
#[inline(always)]
pub fn to_sq(s: u8) -> Square {
    Square::new(file_of(s) as u8, rank_of(s) as u8).unwrap()
}
/// 255 for a square off the board (only possible after undefined behaviour).
#[inline(always)]
pub fn from_sq(s: Square) -> u8 {
    let i = s.index();
    if (1..=81).contains(&i) {
        i - 1
    } else {
        255
    }
}
pub fn to_piece(c: Cell) -> Piece {
    Piece::new(to_kind(kind_of(c)), to_color(color_of(c)))
}
pub fn from_piece(p: Option<Piece>) -> Cell {
    match p {
        None => 0,
        Some(p) => cell(from_kind(p.piece_kind()), from_color(p.color())),
    }
}
pub fn to_move(m: Mv, side: u8) -> Move {
    if m.is_drop() {
        Move::Drop {
            piece: Piece::new(to_kind(m.drop_kind()), to_color(side)),
            to: to_sq(m.to),
        }
    } else {
        Move::Normal {
            from: to_sq(m.from),
            to: to_sq(m.to),
            promote: m.promo,
        }
    }
}
/// Moves that no `Mv` can represent (a drop of a promoted or enemy piece, a
/// square off the board) come back as None.
pub fn from_move(m: Move, side: u8) -> Option<Mv> {
    match m {
        Move::Normal { from, to, promote } => {
            let (f, t) = (from_sq(from), from_sq(to));
            if f > 80 || t > 80 {
                return None;
            }
            Some(Mv::normal(f, t, promote))
        }
        Move::Drop { piece, to } => {
            let k = from_kind(piece.piece_kind());
            let t = from_sq(to);
            if k > ROOK || from_color(piece.color()) != side || t > 80 {
                return None;
            }
            Some(Mv::drop(k, t))
        }
    }
}
pub fn to_hand(h: &[u8; 8]) -> Hand {
    let mut out = Hand::new();
    for k in PAWN..=ROOK {
        for _ in 0..h[k as usize] {
            out = out.added(to_kind(k)).unwrap();
        }
    }
    out
}
pub fn from_hand(h: Hand) -> [u8; 8] {
    let mut out = [0; 8];
    for k in PAWN..=ROOK {
        out[k as usize] = h.count(to_kind(k)).unwrap_or(255);
    }
    out
}
/// The position as a user may have put it together: only its board, hands,
/// side and ply are to matter, not what was on the board meanwhile, nor a last
/// move that shogi_core remembers.
pub fn to_partial(p: &Pos) -> PartialPosition {
    let mut h = p.ply as u64 ^ (p.side as u64) << 20;
    for s in 0..81 {
        h = mix(h ^ (p.board[s] as u64) << 8 ^ s as u64);
    }
    let mut pp = PartialPosition::empty();
    let kings = p.king(0).is_some() && p.king(1).is_some();
    if h % 4 == 1 && kings {
        pp = PartialPosition::startpos();
    }
    if h % 4 == 2 || h % 8 == 1 {
        // a move made before
        let c = to_color((h >> 8 & 1) as u8);
        pp.side_to_move_set(c);
        let free = (0..81u8).map(|i| to_sq(((h >> 16) % 81) as u8 + i - if (h >> 16) % 81 + i as u64 > 80 { 81 } else { 0 }));
        let at = free.into_iter().find(|&s| pp.piece_at(s).is_none()).unwrap();
        let k = to_kind([PAWN, LANCE, KNIGHT, SILVER, GOLD, BISHOP, ROOK][(h >> 24) as usize % 7]);
        let hand = pp.hand_of_a_player_mut(c);
        *hand = hand.added(k).unwrap();
        pp.make_move(Move::Drop { to: at, piece: Piece::new(k, c) }).unwrap();
        if h >> 32 & 1 == 1 {
            // ... or of a piece on the board
            let to = (0..81u8).map(to_sq).find(|&s| pp.piece_at(s).is_none()).unwrap();
            pp.side_to_move_set(c);
            pp.make_move(Move::Normal { from: at, to, promote: false }).unwrap();
        }
    }
    for king in [false, true] {
        for s in 0..81u8 {
            let s = if h & 8 != 0 { 80 - s } else { s };
            let want = match p.board[s as usize] {
                0 => None,
                c => Some(to_piece(c)),
            };
            let is_king = |x: Option<Piece>| x.is_some_and(|x| x.piece_kind() == PieceKind::King);
            if is_king(want) == king && pp.piece_at(to_sq(s)) != want {
                pp.piece_set(to_sq(s), want);
            }
        }
    }
    for c in 0..2 {
        *pp.hand_of_a_player_mut(to_color(c as u8)) = to_hand(&p.hands[c]);
    }
    pp.side_to_move_set(to_color(p.side));
    let _ = pp.ply_set(p.ply);
    pp
}

// ---------------------------------------------------------------- self test

/// The specification checked against facts known independently of yasai.
pub fn self_test() -> Result<(), String> {
    let start = Pos::startpos();
    for (d, n) in [(1, 30), (2, 900), (3, 25470)] {
        let got = start.perft(d);
        if got != n {
            return Err(format!("model perft({d}) of the initial position is {got}, not {n}"));
        }
    }
    let max = Pos::from_sfen("R8/2K1S1SSk/4B4/9/9/9/9/9/1L1L1L3 b RBGSNLP3g3n17p 1").unwrap();
    if max.perft(1) != 593 || max.perft(2) != 105677 {
        return Err("model perft of the maximum position is wrong".into());
    }
    // fast attack test against the definition, on random boards
    let mut rng = Rng::new(1, 2, 3);
    let mut buf = vec![];
    for _ in 0..60 {
        let mut p = Pos::empty();
        let n = rng.range(5, 60);
        for _ in 0..n {
            p.board[rng.below(81)] = cell(rng.range(1, 14) as u8, rng.below(2) as u8);
        }
        for t in 0..81u8 {
            for by in 0..2 {
                p.attackers(t, by, &mut buf);
                buf.sort_unstable();
                if buf != p.attackers_def(t, by) {
                    return Err(format!("model attackers disagree: {} {t} {by}", p.sfen()));
                }
            }
        }
        let q = Pos::from_sfen(&p.sfen()).unwrap();
        if q != p {
            return Err("sfen round trip".into());
        }
    }
    Ok(())
}
