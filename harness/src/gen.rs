//! Workload: where positions come from and which moves are played.
//! Everything is a function of the generator passed in.

use crate::model::*;

/// Names of the families, for evidence.
pub const FAMILIES: [&str; 14] = [
    "startpos",   // 0
    "composed",   // 1 both kings, any material anywhere
    "tsume",      // 2 only the other side has a king
    "selfking",   // 3 only the mover has a king
    "kingless",   // 4
    "checks",     // 5 mover in check, often double
    "pins",       // 6 shields of both colours around both kings
    "pawndrop",   // 7 pawn drop in front of the other king possible
    "dense",      // 8 all forty pieces
    "many",       // 9 close to the maximum number of moves
    "discover",   // 10 own pieces between own sliders and the other king
    "testseed",   // 11 hand-picked positions and their mutations
    "sparse",     // 12 two kings and a few pieces
    "edge",       // 13 pieces crowded on edges, corners and last ranks
];

pub const SEEDS: &[&str] = &[
    "lnsgkgsnl/1r5b1/ppppppppp/9/9/9/PPPPPPPPP/1B5R1/LNSGKGSNL b - 1",
    "R8/2K1S1SSk/4B4/9/9/9/9/9/1L1L1L3 b RBGSNLP3g3n17p 1",
    "l6nl/5+P1gk/2np1S3/p1p4Pp/3P2Sp1/1PPb2P1P/P5GS1/R8/LN4bKL w RGgsn5p 1",
    "6n1l/2+S1k4/2lp4p/1np1B2b1/3PP4/1N1S3rP/1P2+pPP+p1/1p1G5/3KG2r1 b GSN2L4Pgs2p 1",
    "l6nl/5+P1gk/2np1S3/p1p4Pp/3P2Sp1/1PPb2P1P/P5GS1/R8/LN4bKL w GR5pnsg 1",
    "8l/1l+R2P3/p2pBG1pp/kps1p4/Nn1P2G2/P1P1P2PP/1PS6/1KSG3+r1/LN2+p3L w Sbgn3p 124",
    "6B2/7np/8k/7P1/7G1/9/9/9/9 b P2rb3g4s3n4l15p 1",
    "7k1/5G2l/6B2/9/9/9/9/9/9 b P2rb3g4s4n3l17p 1",
    "8k/9/7+Rr/8L/9/9/9/9/9 b P2b4g4s4n3l17p 1",
    "9/4R4/9/9/9/4G4/4k4/9/4K4 w 2P 1",
    "3g1ks2/5g3/+P1PN1s1p1/4R4/9/9/9/9/8K b P 1",
    "lnsgkgsnl/1r5b1/pppppp1pp/6p2/9/2P6/PP1PPPPPP/1B5R1/LNSGKGSNL b - 3",
    "4k4/9/4P4/9/9/9/9/9/4K4 b 2G2S 1",
    "9/9/9/3bkb3/4+R4/3b1b3/9/9/4K4 b 2r 1",
    "8k/6+P2/9/7NL/9/9/9/9/K8 b P 1",
    "k8/9/1+R7/P8/9/9/9/9/8K b P 1",
    "4+R3k/9/9/9/4k4/9/9/9/9 w - 1",
];

/// Put the pieces that are still in the box on board and hands.
pub struct Box40 {
    pub n: [u8; 9],
}
impl Box40 {
    pub fn new() -> Box40 {
        Box40 { n: SET }
    }
    pub fn without(p: &Pos) -> Box40 {
        let mut b = Box40::new();
        for &c in &p.board {
            if c != 0 {
                let e = &mut b.n[basic(kind_of(c)) as usize];
                *e = e.saturating_sub(1);
            }
        }
        for h in &p.hands {
            for k in 1..8 {
                b.n[k] = b.n[k].saturating_sub(h[k]);
            }
        }
        b
    }
    pub fn take(&mut self, k: u8) -> bool {
        let i = basic(k) as usize;
        if self.n[i] > 0 {
            self.n[i] -= 1;
            true
        } else {
            false
        }
    }
}
impl Default for Box40 {
    fn default() -> Self {
        Self::new()
    }
}

/// May this cell stand on this square (dead squares, two pawns)?
pub fn may_stand(p: &Pos, c: Cell, s: u8) -> bool {
    let (k, col) = (kind_of(c), color_of(c));
    if p.board[s as usize] != 0 || dead(k, col, s) {
        return false;
    }
    if k == PAWN && (1..=9).any(|r| p.board[sq(file_of(s), r) as usize] == c) {
        return false;
    }
    true
}

pub fn put(p: &mut Pos, bx: &mut Box40, c: Cell, s: u8) -> bool {
    if !may_stand(p, c, s) || bx.n[basic(kind_of(c)) as usize] == 0 {
        return false;
    }
    bx.take(kind_of(c));
    p.board[s as usize] = c;
    true
}

fn near(rng: &mut Rng, s: u8, spread: i8) -> u8 {
    for _ in 0..20 {
        let df = rng.range(0, 2 * spread as usize) as i8 - spread;
        let dr = rng.range(0, 2 * spread as usize) as i8 - spread;
        if let Some(t) = step(s, df, dr) {
            if t != s {
                return t;
            }
        }
    }
    rng.below(81) as u8
}

fn edge_sq(rng: &mut Rng) -> u8 {
    match rng.below(6) {
        0 => sq(1, rng.range(1, 9) as i8),
        1 => sq(9, rng.range(1, 9) as i8),
        2 => sq(rng.range(1, 9) as i8, 1),
        3 => sq(rng.range(1, 9) as i8, 9),
        4 => sq(*rng.pick(&[1, 9]), *rng.pick(&[1, 9])),
        _ => sq(rng.range(1, 9) as i8, *rng.pick(&[1, 2, 3, 7, 8, 9])),
    }
}

/// What is left in the box: some to the board, some to the hands, some unused.
fn scatter(rng: &mut Rng, p: &mut Pos, bx: &mut Box40, board: usize, hand: usize, promo: usize, edges: bool) {
    let kings: Vec<u8> = (0..2).filter_map(|c| p.king(c)).collect();
    let bias = rng.below(100);
    let local = rng.below(90);
    for k in [ROOK, BISHOP, GOLD, SILVER, KNIGHT, LANCE, PAWN] {
        while bx.n[k as usize] > 0 {
            let x = rng.below(100);
            let col = (rng.below(100) >= bias) as u8;
            if x < board {
                let kk = if rng.pct(promo) { promoted(k).unwrap_or(k) } else { k };
                let mut done = false;
                for _ in 0..8 {
                    let s = if edges && rng.pct(70) {
                        edge_sq(rng)
                    } else if !kings.is_empty() && rng.pct(local) {
                        let t = *rng.pick(&kings);
                        near(rng, t, 3)
                    } else {
                        rng.below(81) as u8
                    };
                    if put(p, bx, cell(kk, col), s) {
                        done = true;
                        break;
                    }
                }
                if done {
                    continue;
                }
            }
            bx.n[k as usize] -= 1;
            if rng.pct(hand) {
                p.hands[col as usize][k as usize] += 1;
            }
        }
    }
}

fn place_kings(rng: &mut Rng, p: &mut Pos, bx: &mut Box40, which: [bool; 2]) {
    let edge = rng.pct(40);
    for c in 0..2u8 {
        if !which[c as usize] {
            continue;
        }
        for _ in 0..50 {
            let s = if edge { edge_sq(rng) } else { rng.below(81) as u8 };
            if p.board[s as usize] != 0 {
                continue;
            }
            if let Some(o) = p.king(1 - c) {
                if (file_of(o) - file_of(s)).abs() <= 1 && (rank_of(o) - rank_of(s)).abs() <= 1 {
                    continue;
                }
            }
            p.board[s as usize] = cell(KING, c);
            bx.n[KING as usize] -= 1;
            break;
        }
    }
}

/// Make the position valid by taking off whatever attacks the king of the
/// player who is not to move.  False if that is impossible (touching kings).
pub fn repair(rng: &mut Rng, p: &mut Pos) -> bool {
    let mut buf = vec![];
    for _ in 0..60 {
        let Some(k) = p.king(1 - p.side) else {
            return p.valid();
        };
        p.attackers(k, p.side, &mut buf);
        if buf.is_empty() {
            return p.valid();
        }
        for &s in &buf {
            let c = p.board[s as usize];
            if kind_of(c) == KING {
                return false;
            }
            p.board[s as usize] = 0;
            match rng.below(4) {
                // the same piece for the other side, often a harmless way to keep it
                0 => {
                    let o = cell(kind_of(c), 1 - p.side);
                    if may_stand(p, o, s) {
                        p.board[s as usize] = o;
                    }
                }
                1 => p.hands[p.side as usize][basic(kind_of(c)) as usize] += 1,
                2 => p.hands[1 - p.side as usize][basic(kind_of(c)) as usize] += 1,
                _ => {}
            }
        }
    }
    false
}

fn sliders_for(dir: (i8, i8), color: u8) -> &'static [u8] {
    // pieces of `color` that travel along -dir (dir points from king outwards)
    let (f, r) = dir;
    if f != 0 && r != 0 {
        &[BISHOP, HORSE]
    } else if f == 0 && ((color == WHITE && r < 0) || (color == BLACK && r > 0)) {
        &[LANCE, ROOK, DRAGON, LANCE]
    } else {
        &[ROOK, DRAGON]
    }
}

/// Put a slider of `by` on a line of the square `k`, with `blockers` pieces between.
fn line_of(rng: &mut Rng, p: &mut Pos, bx: &mut Box40, k: u8, by: u8, blockers: usize, own_shield: usize) -> bool {
    for _ in 0..12 {
        let dir = *rng.pick(DIRS8);
        let mut ray = vec![];
        let mut cur = step(k, dir.0, dir.1);
        while let Some(s) = cur {
            if p.board[s as usize] != 0 {
                break;
            }
            ray.push(s);
            cur = step(s, dir.0, dir.1);
        }
        if ray.len() < blockers + 1 {
            continue;
        }
        let far = rng.range(blockers, ray.len() - 1);
        let kind = *rng.pick(sliders_for(dir, by));
        if !put(p, bx, cell(kind, by), ray[far]) {
            continue;
        }
        let mut used = 0;
        for _ in 0..20 {
            if used == blockers {
                break;
            }
            let s = ray[rng.below(far)];
            let col = if rng.pct(own_shield) { 1 - by } else { by };
            let kind = rng.range(1, 14) as u8;
            if kind == KING {
                continue;
            }
            if put(p, bx, cell(kind, col), s) {
                used += 1;
            }
        }
        return true;
    }
    false
}

fn ply(rng: &mut Rng) -> u16 {
    match rng.below(20) {
        0 => 65000 - rng.below(300) as u16,
        1 => rng.range(1, 60000) as u16,
        2 => 255 - rng.below(5) as u16,
        3 => 32767 - rng.below(5) as u16,
        _ => rng.range(1, 200) as u16,
    }
}

fn try_start(rng: &mut Rng, family: usize) -> Option<Pos> {
    let mut p = Pos::empty();
    let mut bx = Box40::new();
    p.side = rng.below(2) as u8;
    let me = p.side;
    p.ply = ply(rng);
    match family {
        0 => {
            let mut p = Pos::startpos();
            if rng.pct(30) {
                p.side = WHITE;
            }
            if rng.pct(30) {
                // handicap: some pieces missing
                for _ in 0..rng.range(1, 6) {
                    let s = rng.below(81);
                    if kind_of(p.board[s]) != KING {
                        p.board[s] = 0;
                    }
                }
                if !repair(rng, &mut p) {
                    return None;
                }
            }
            let n = rng.below(160);
            let policy = Policy::random(rng);
            for _ in 0..n {
                let l = p.legal_moves();
                if l.is_empty() {
                    break;
                }
                let m = policy.choose(rng, &p, &l);
                p.apply(m);
            }
            return Some(p);
        }
        2 | 3 | 4 => {
            let which = match family {
                2 => [me == WHITE, me == BLACK],
                3 => [me == BLACK, me == WHITE],
                _ => [false, false],
            };
            place_kings(rng, &mut p, &mut bx, which);
            let (b, h, pr) = (rng.range(5, 80), rng.range(0, 100), rng.range(0, 80));
            scatter(rng, &mut p, &mut bx, b, h, pr, false);
        }
        5 => {
            place_kings(rng, &mut p, &mut bx, [true, true]);
            let k = p.king(me)?;
            let n = if rng.pct(50) { 2 } else { rng.range(1, 3) };
            for i in 0..n {
                if rng.pct(60) {
                    let bl = if i == 0 { 0 } else { rng.below(3) };
                    line_of(rng, &mut p, &mut bx, k, 1 - me, bl, 60);
                } else {
                    for _ in 0..10 {
                        let s = near(rng, k, 2);
                        let kind = rng.range(1, 14) as u8;
                        if kind == KING || p.board[s as usize] != 0 {
                            continue;
                        }
                        if put(&mut p, &mut bx, cell(kind, 1 - me), s) {
                            if p.piece_attacks(s, k) {
                                break;
                            }
                            p.board[s as usize] = 0;
                            bx.n[basic(kind) as usize] += 1;
                        }
                    }
                }
            }
            let (b, h, pr) = (rng.range(2, 60), rng.range(0, 100), rng.range(0, 70));
            scatter(rng, &mut p, &mut bx, b, h, pr, false);
        }
        6 | 10 => {
            let which = [family == 6 || rng.pct(70) || me == WHITE, family == 6 || rng.pct(70) || me == BLACK];
            place_kings(rng, &mut p, &mut bx, which);
            let n = rng.range(1, 5);
            for _ in 0..n {
                let target = if family == 10 || rng.pct(35) { 1 - me } else { me };
                let Some(k) = p.king(target) else { continue };
                let bl = *rng.pick(&[1, 1, 1, 1, 2, 2, 0, 3]);
                let own = if family == 10 { 15 } else { 65 };
                line_of(rng, &mut p, &mut bx, k, 1 - target, bl, own);
            }
            let (b, h, pr) = (rng.range(0, 50), rng.range(0, 100), rng.range(0, 70));
            scatter(rng, &mut p, &mut bx, b, h, pr, false);
        }
        7 => {
            // other king with an empty square in front, pawn in hand, file free
            let opp = 1 - me;
            let (to, k) = loop {
                let k = if rng.pct(65) { edge_sq(rng) } else { rng.below(81) as u8 };
                let fwd = if opp == BLACK { -1 } else { 1 };
                if let Some(t) = step(k, 0, fwd) {
                    if !dead(PAWN, me, t) {
                        break (t, k);
                    }
                }
            };
            p.board[k as usize] = cell(KING, opp);
            bx.n[KING as usize] -= 1;
            bx.take(PAWN);
            p.hands[me as usize][PAWN as usize] = 1;
            if rng.pct(80) {
                for _ in 0..50 {
                    let s = rng.below(81) as u8;
                    if s != to
                        && p.board[s as usize] == 0
                        && !((file_of(k) - file_of(s)).abs() <= 1 && (rank_of(k) - rank_of(s)).abs() <= 1)
                    {
                        p.board[s as usize] = cell(KING, me);
                        bx.n[KING as usize] -= 1;
                        break;
                    }
                }
            }
            // close escape squares with the king's own pieces (never attackable
            // by itself) or with attackers
            let block = rng.range(10, 95);
            for &(df, dr) in DIRS8 {
                if let Some(s) = step(k, df, dr) {
                    if s == to || p.board[s as usize] != 0 {
                        continue;
                    }
                    if rng.pct(block) {
                        let kind = *rng.pick(&[
                            PAWN, LANCE, KNIGHT, SILVER, GOLD, PRO_PAWN, LANCE, KNIGHT, LANCE, PAWN, SILVER, BISHOP, ROOK, HORSE,
                        ]);
                        let col = if rng.pct(88) { opp } else { me };
                        put(&mut p, &mut bx, cell(kind, col), s);
                    }
                }
            }
            // pins of the defenders
            for _ in 0..rng.below(4) {
                let dir = *rng.pick(DIRS8);
                let mut cur = step(k, dir.0, dir.1);
                let mut seen = 0;
                let mut cand = vec![];
                while let Some(s) = cur {
                    if s == to {
                        break;
                    }
                    if p.board[s as usize] != 0 {
                        seen += 1;
                        if seen > 1 {
                            break;
                        }
                    } else {
                        cand.push(s);
                    }
                    cur = step(s, dir.0, dir.1);
                }
                if let Some(&s) = cand.last() {
                    let s = if rng.pct(50) { s } else { *rng.pick(&cand) };
                    let kind = *rng.pick(sliders_for(dir, me));
                    put(&mut p, &mut bx, cell(kind, me), s);
                }
            }
            // someone who protects the pawn
            for _ in 0..rng.range(1, 2) {
                for _ in 0..30 {
                    let s = if rng.pct(70) { near(rng, to, 2) } else { rng.below(81) as u8 };
                    let kind = rng.range(1, 14) as u8;
                    if s == to || kind == KING || p.board[s as usize] != 0 {
                        continue;
                    }
                    if put(&mut p, &mut bx, cell(kind, me), s) {
                        if p.piece_attacks(s, to) && !p.piece_attacks(s, k) {
                            break;
                        }
                        p.board[s as usize] = 0;
                        bx.n[basic(kind) as usize] += 1;
                    }
                }
            }
            // someone who might take the pawn
            for _ in 0..rng.below(3) {
                for _ in 0..30 {
                    let s = if rng.pct(70) { near(rng, to, 2) } else { rng.below(81) as u8 };
                    let kind = rng.range(1, 14) as u8;
                    if s == to || kind == KING || p.board[s as usize] != 0 {
                        continue;
                    }
                    if put(&mut p, &mut bx, cell(kind, opp), s) {
                        if p.piece_attacks(s, to) {
                            break;
                        }
                        p.board[s as usize] = 0;
                        bx.n[basic(kind) as usize] += 1;
                    }
                }
            }
            let (b, h, pr) = (rng.below(25), rng.range(0, 100), rng.range(0, 60));
            let t = p.board[to as usize];
            p.board[to as usize] = 255; // keep it free
            scatter(rng, &mut p, &mut bx, b, h, pr, false);
            p.board[to as usize] = t;
            // the file has to be free of own pawns
            for r in 1..=9 {
                let s = sq(file_of(to), r) as usize;
                if p.board[s] == cell(PAWN, me) {
                    p.board[s] = 0;
                }
            }
        }
        8 => {
            place_kings(rng, &mut p, &mut bx, [true, true]);
            let (b, h, pr) = (rng.range(60, 100), 100, rng.range(0, 90));
            scatter(rng, &mut p, &mut bx, b, h, pr, false);
        }
        9 => {
            let q = Pos::from_sfen(SEEDS[1]).unwrap();
            p = if rng.pct(50) { q } else { q.mirrored() };
            if rng.pct(50) {
                p = p.rotated();
            }
            for _ in 0..rng.below(6) {
                mutate(rng, &mut p);
            }
        }
        11 => {
            p = Pos::from_sfen(rng.pick(SEEDS)).unwrap();
            if rng.pct(50) {
                p = p.mirrored();
            }
            if rng.pct(50) {
                p = p.rotated();
            }
            for _ in 0..rng.below(5) {
                mutate(rng, &mut p);
            }
        }
        12 => {
            place_kings(rng, &mut p, &mut bx, [true, true]);
            let (b, h, pr) = (rng.range(2, 15), rng.range(0, 15), rng.range(0, 80));
            scatter(rng, &mut p, &mut bx, b, h, pr, false);
        }
        13 => {
            let which = [rng.pct(80), rng.pct(80)];
            place_kings(rng, &mut p, &mut bx, which);
            let (b, h, pr) = (rng.range(10, 70), rng.range(0, 100), rng.range(0, 60));
            scatter(rng, &mut p, &mut bx, b, h, pr, true);
        }
        _ => {
            place_kings(rng, &mut p, &mut bx, [true, true]);
            let (b, h, pr) = (rng.range(5, 90), rng.range(0, 100), rng.range(0, 80));
            scatter(rng, &mut p, &mut bx, b, h, pr, false);
        }
    }
    if !repair(rng, &mut p) {
        return None;
    }
    Some(p)
}

/// A position of the family, inside the domain of the properties.
pub fn start(rng: &mut Rng, family: usize) -> Pos {
    loop {
        if let Some(p) = try_start(rng, family) {
            if in_domain(&p) {
                return p;
            }
        }
    }
}

/// Valid, and not beyond the documented maximum of legal moves (which only
/// boards without the king of the player not to move can exceed).
pub fn in_domain(p: &Pos) -> bool {
    if !p.valid() {
        return false;
    }
    if p.king(1 - p.side).is_none() {
        // cheap sufficient test first
        let mut v = Vec::with_capacity(700);
        p.pseudo(&mut v);
        return v.len() <= 593;
    }
    true
}

/// A small random edit; may leave the domain.
pub fn mutate(rng: &mut Rng, p: &mut Pos) {
    let occ: Vec<u8> = (0..81u8).filter(|&s| p.board[s as usize] != 0).collect();
    match rng.below(6) {
        0 | 1 if !occ.is_empty() => {
            // move a piece
            let s = *rng.pick(&occ);
            let t = if rng.pct(60) { near(rng, s, 2) } else { rng.below(81) as u8 };
            let c = p.board[s as usize];
            p.board[s as usize] = 0;
            if may_stand(p, c, t) {
                p.board[t as usize] = c;
            } else {
                p.board[s as usize] = c;
            }
        }
        2 if !occ.is_empty() => {
            // flip owner
            let s = *rng.pick(&occ);
            let c = p.board[s as usize];
            if kind_of(c) != KING {
                p.board[s as usize] = 0;
                let o = cell(kind_of(c), 1 - color_of(c));
                p.board[s as usize] = if may_stand(p, o, s) { o } else { c };
            }
        }
        3 if !occ.is_empty() => {
            // promote / unpromote
            let s = *rng.pick(&occ);
            let c = p.board[s as usize];
            let k = kind_of(c);
            let nk = if basic(k) != k { basic(k) } else { promoted(k).unwrap_or(k) };
            p.board[s as usize] = 0;
            let o = cell(nk, color_of(c));
            p.board[s as usize] = if may_stand(p, o, s) { o } else { c };
        }
        4 if !occ.is_empty() => {
            let s = *rng.pick(&occ);
            let c = p.board[s as usize];
            if kind_of(c) != KING {
                p.board[s as usize] = 0;
                p.hands[rng.below(2)][basic(kind_of(c)) as usize] += 1;
            }
        }
        _ => {
            // from a hand or the box to the board
            let mut bx = Box40::without(p);
            let k = rng.range(1, 7) as u8;
            let c = cell(if rng.pct(30) { promoted(k).unwrap_or(k) } else { k }, rng.below(2) as u8);
            let s = rng.below(81) as u8;
            if bx.n[k as usize] > 0 {
                put(p, &mut bx, c, s);
            } else {
                for h in 0..2 {
                    if p.hands[h][k as usize] > 0 && may_stand(p, c, s) {
                        p.hands[h][k as usize] -= 1;
                        p.board[s as usize] = c;
                        break;
                    }
                }
            }
        }
    }
}

/// A position that has much in common with p: the same board, the same hands,
/// the same occupied squares, one piece changed, the other side to move, an
/// image, a move made, ...  The same as p when nothing valid was found.
pub fn relative(rng: &mut Rng, p: &Pos) -> Pos {
    for _ in 0..12 {
        let mut q = p.clone();
        match rng.below(9) {
            // other hands
            0 | 1 => {
                let bx = Box40::without(p);
                for _ in 0..rng.range(1, 3) {
                    let k = rng.range(1, 7);
                    let c = rng.below(2);
                    if q.hands[c][k] > 0 && rng.pct(60) {
                        q.hands[c][k] -= 1;
                        if rng.pct(60) {
                            q.hands[1 - c][k] += 1;
                        }
                    } else if bx.n[k] > 0 && q.hands[0][k] + q.hands[1][k] <= p.hands[0][k] + p.hands[1][k] {
                        q.hands[c][k] += 1;
                    }
                }
            }
            2 => q.side = 1 - q.side,
            3 | 4 => mutate(rng, &mut q),
            5 => {
                // other kinds or owners on the same squares
                for _ in 0..rng.range(1, 4) {
                    let occ: Vec<u8> = (0..81u8).filter(|&s| q.board[s as usize] != 0).collect();
                    if occ.is_empty() {
                        break;
                    }
                    let (s, t) = (*rng.pick(&occ), *rng.pick(&occ));
                    let (a, b) = (q.board[s as usize], q.board[t as usize]);
                    q.board[s as usize] = 0;
                    q.board[t as usize] = 0;
                    if s == t {
                        let o = cell(kind_of(a), 1 - color_of(a));
                        q.board[s as usize] = if kind_of(a) != KING && may_stand(&q, o, s) { o } else { a };
                    } else if may_stand(&q, b, s) && may_stand(&q, a, t) {
                        q.board[s as usize] = b;
                        q.board[t as usize] = a;
                    } else {
                        q.board[s as usize] = a;
                        q.board[t as usize] = b;
                    }
                }
            }
            6 => q = q.rotated(),
            7 => q = q.mirrored(),
            _ => {
                let l = p.legal_moves();
                if !l.is_empty() {
                    q = p.make(*rng.pick(&l));
                }
            }
        }
        if q != *p && q.valid() && in_domain(&q) {
            return q;
        }
    }
    p.clone()
}

/// Which moves a player likes.
#[derive(Clone, Copy)]
pub struct Policy {
    pub like: u8,
    pub pct: usize,
}
impl Policy {
    pub fn random(rng: &mut Rng) -> Policy {
        Policy {
            like: rng.below(8) as u8,
            pct: *rng.pick(&[0, 30, 60, 85]),
        }
    }
    pub fn choose(&self, rng: &mut Rng, p: &Pos, legal: &[Mv]) -> Mv {
        if self.like != 0 && rng.pct(self.pct) {
            let cand: Vec<Mv> = legal
                .iter()
                .copied()
                .filter(|&m| match self.like {
                    1 => !m.is_drop() && p.board[m.to as usize] != 0,
                    2 => m.is_drop(),
                    3 => p.make(m).in_check(1 - p.side),
                    4 => m.promo,
                    5 => !m.is_drop() && kind_of(p.board[m.from as usize]) == KING,
                    6 => !m.is_drop() && !matches!(kind_of(p.board[m.from as usize]), PAWN | KING),
                    // towards the other king
                    _ => match p.king(1 - p.side) {
                        Some(k) => {
                            (file_of(k) - file_of(m.to)).abs() <= 2 && (rank_of(k) - rank_of(m.to)).abs() <= 2
                        }
                        None => false,
                    },
                })
                .collect();
            if !cand.is_empty() {
                return *rng.pick(&cand);
            }
        }
        *rng.pick(legal)
    }
}
