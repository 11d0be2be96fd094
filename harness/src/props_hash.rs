//! Constructed fingerprint collisions. Fingerprints are 64 bits and, as long as they are
//! exclusive sums of one key per stone, positions with equal fingerprints follow from linear
//! algebra over their keys. Boards with colliding fingerprints are still different boards:
//! equality, the history and superko have to look at the points. Where the construction does
//! not collide (another kind of fingerprint) the case is trivial.
use crate::audit::ensure;
use crate::grid::*;
use crate::runner::*;
use crate::scen::*;
use goban::pieces::goban::Goban;
use goban::pieces::stones::Stone;
use goban::rules::game::Game;
use goban::rules::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::HashSet;

const SUPERKO: u8 = 2;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Collide {
    pub h: u8,
    pub w: u8,
    /// contents of the points in the two positions
    pub a: Vec<u8>,
    pub b: Vec<u8>,
    pub order: Vec<u16>,
    /// how many points take part (from 66)
    pub n: u8,
    /// which dependencies are combined
    pub mix: u64,
    pub kind: u8,
    pub flags: u8,
    pub prefix: u8,
}

fn key(h: u8, w: u8, p: usize, c: u8) -> u64 {
    if c == E {
        return 0;
    }
    let mut g = Goban::new((h, w));
    let empty = g.zobrist_hash();
    g.push(((p / w as usize) as u8, (p % w as usize) as u8), col(c));
    g.zobrist_hash() ^ empty
}

/// A non-empty set of indexes whose keys sum up to the target (never the empty set).
fn solve(keys: &[u64], target: u64, mix: u64) -> Option<Vec<usize>> {
    let mut basis: Vec<(u64, u128)> = vec![];
    let mut deps: Vec<u128> = vec![];
    for (i, &k) in keys.iter().enumerate() {
        let (mut v, mut m) = (k, 1u128 << i);
        for &(b, bm) in &basis {
            if v ^ b < v {
                v ^= b;
                m ^= bm;
            }
        }
        if v == 0 {
            deps.push(m)
        } else {
            basis.push((v, m));
            basis.sort_unstable_by(|x, y| y.0.cmp(&x.0));
        }
    }
    let (mut v, mut m) = (target, 0u128);
    for &(b, bm) in &basis {
        if v ^ b < v {
            v ^= b;
            m ^= bm;
        }
    }
    if v != 0 {
        return None;
    }
    for (i, d) in deps.iter().enumerate() {
        if mix >> (i % 64) & 1 == 1 {
            m ^= d
        }
    }
    if m == 0 {
        m = *deps.first()?;
    }
    Some((0..keys.len()).filter(|&i| m >> i & 1 == 1).collect())
}

fn shuffled(pts: Vec<usize>, order: &[u16]) -> Vec<usize> {
    let mut v: Vec<(u16, usize)> = pts.into_iter().map(|p| (order[p % order.len()].wrapping_mul(2 * p as u16 + 1), p)).collect();
    v.sort_unstable();
    v.into_iter().map(|x| x.1).collect()
}

fn board(r: &Grid) -> Goban {
    let mut g = Goban::new((r.h as u8, r.w as u8));
    for p in 0..r.len() {
        if r.c[p] != E {
            g.push(r.coord(p), col(r.c[p]));
        }
    }
    g
}

pub fn c11(x: &Collide, rec: &mut Rec) -> R {
    let (h, w) = (x.h as usize, x.w as usize);
    let mut p = Grid::new(h, w);
    let mut q = Grid::new(h, w);
    let pts = shuffled((0..h * w).collect(), &x.order);
    let n = (66 + x.n as usize).min(120).min(pts.len());
    let content = |v: &[u8], i: usize| v[i % v.len()] % 3;
    let mut keys = vec![];
    for &i in &pts[..n] {
        let a = content(&x.a, i);
        let mut b = match x.kind % 3 {
            0 => E,
            1 => opp(a.max(1)),
            _ => content(&x.b, i),
        };
        if a == b {
            b = if a == E { B } else { E };
        }
        p.c[i] = a;
        q.c[i] = b;
        keys.push(key(x.h, x.w, i, a) ^ key(x.h, x.w, i, b));
    }
    if x.kind < 3 {
        // the rest is the same on both
        for &i in &pts[n..] {
            let a = content(&x.b, i);
            p.c[i] = a;
            q.c[i] = a;
        }
    }
    let Some(s) = solve(&keys, 0, x.mix) else { return Ok(()) };
    for (k, &i) in pts[..n].iter().enumerate() {
        if !s.contains(&k) {
            q.c[i] = p.c[i];
        }
    }
    let (gp, gq) = (board(&p), board(&q));
    ensure!(gp == board(&p) && gq == board(&q), "the same placements gave unequal boards");
    ensure!(gp != gq && gq != gp && !(gp == gq), "boards differing at {} points are equal (fingerprints {:x} and {:x})\n{}and\n{}", s.len(), gp.zobrist_hash(), gq.zobrist_hash(), p.show(), q.show());
    let set: HashSet<Goban> = [gp.clone(), gq.clone(), gp.clone()].into_iter().collect();
    ensure!(set.len() == 2 && set.contains(&gp) && set.contains(&gq), "a set of two different boards has {} members", set.len());
    if gp.zobrist_hash() == gq.zobrist_hash() {
        rec.nontrivial = true;
        rec.tag("colliding fingerprints");
    }
    Ok(())
}

/// A game whose last stone brings back an earlier fingerprint without the position.
pub fn game(x: &Collide, rec: &mut Rec) -> R {
    let (h, w) = (x.h as usize, x.w as usize);
    let mut start = Grid::new(h, w);
    let capture = x.kind % 2 == 1;
    let reserved = [0, 1, w, 2, w + 1, 2 * w];
    // no two of these points are adjacent: nothing is ever captured there
    let odd = if capture { 0 } else { x.kind as usize >> 1 & 1 };
    let pool: Vec<usize> = (0..h * w).filter(|p| (p / w + p % w) % 2 == odd && !(capture && reserved.contains(p))).collect();
    let pool = shuffled(pool, &x.order);
    let n = (66 + x.n as usize % 40).min(pool.len());
    let color = |p: usize| x.a[p % x.a.len()] % 2 + 1;
    let keys: Vec<u64> = pool[..n].iter().map(|&p| key(x.h, x.w, p, color(p))).collect();
    let me = x.flags >> 4 & 1;
    let me = if me == 1 { B } else { W };
    let mut target = 0;
    let mut last = None;
    if capture {
        start.c[0] = opp(me);
        start.c[1] = me;
        target = key(x.h, x.w, w, me) ^ key(x.h, x.w, 0, opp(me));
        last = Some((w, me));
    }
    let Some(s) = solve(&keys, target, x.mix) else { return Ok(()) };
    let mut order: Vec<(usize, u8)> = s.iter().map(|&k| (pool[k], color(pool[k]))).collect();
    let rest: Vec<usize> = (0..n).filter(|k| !s.contains(k)).map(|k| pool[k]).chain(pool[n..].iter().copied()).collect();
    let split = rest.len() / 2;
    // some other stones set up, some played before the collision starts
    for &p in &rest[..split] {
        if x.b[p % x.b.len()] % 3 != 0 {
            start.c[p] = x.b[p % x.b.len()] % 3;
        }
    }
    let prefix: Vec<(usize, u8)> = rest[split..].iter().take(x.prefix as usize).map(|&p| (p, color(p))).collect();
    order.extend(last);
    // the other stones of the cycle come in any order
    let stop = order.len() - usize::from(last.is_some());
    let mut o: Vec<(u16, (usize, u8))> = order[..stop].iter().map(|&(p, c)| (x.order[(p * 7 + 3) % x.order.len()] ^ p as u16, (p, c))).collect();
    o.sort_unstable();
    for (i, v) in o.into_iter().enumerate() {
        order[i] = v.1;
    }
    let rule = Rule { komi: 0.5, flag_illegal: IllegalRules::from_bits_truncate(SUPERKO as u32 | (x.flags as u32 & 5)), flag_score: ScoreRules::STONES };
    let mut b = Game::builder();
    b.size((x.h, x.w)).rule(rule);
    for p in 0..start.len() {
        if start.c[p] != E {
            b.add(Stone { coord: start.coord(p), color: col(start.c[p]) });
        }
    }
    let mut g = b.build().map_err(|e| format!("builder: {e}"))?;
    let mut cur = start.clone();
    let mut positions: Vec<Grid> = vec![];
    let total = prefix.len() + order.len();
    let mut old = None;
    for (i, &(p, c)) in prefix.iter().chain(&order).enumerate() {
        if uncol(g.turn()) != c {
            g.try_play(Move::Pass).map_err(|e| format!("pass refused: {e:?}"))?;
        }
        if i == prefix.len() {
            old = Some(g.zobrist_hash());
        }
        let (r, cc) = cur.coord(p);
        if i + 1 == total {
            ensure!(!g.check_super_ko(Stone { coord: (r, cc), color: col(c) }), "check_super_ko({:?}) in a position that never occurred", (r, cc));
            let v = g.check_point((r, cc));
            ensure!(v.is_none(), "{:?}: {v:?} though the position never occurred", (r, cc));
            ensure!(g.legals().any(|q| q == (r, cc)), "{:?} is not among the legal moves though the position never occurred", (r, cc));
        }
        positions.push(cur.clone());
        let res = g.try_play(Move::Play(r, cc)).map(|_| ());
        ensure!(res.is_ok(), "move {} at {:?} refused: {res:?}, though the position never occurred", i + 1, (r, cc));
        cur = cur.play(p, c, true).grid;
        ensure!(Grid::read(g.goban()) == cur, "move {} at {:?} did something else than expected", i + 1, (r, cc));
    }
    if old == Some(g.zobrist_hash()) {
        rec.nontrivial = true;
        rec.tag("an old fingerprint with a new position");
        if capture {
            rec.tag("by a capture");
        }
    }
    // one more stone: the history has every position
    if let Some(p) = rest.iter().copied().find(|&p| cur.c[p] == E && !prefix.iter().any(|x| x.0 == p)) {
        positions.push(cur.clone());
        let (r, c) = cur.coord(p);
        g.try_play(Move::Play(r, c)).map_err(|e| format!("refused: {e:?}"))?;
    }
    let hist: Vec<Grid> = g.history().map(Grid::read).collect();
    ensure!(hist == positions, "the history has {} entries, {} expected; first difference at {:?}", hist.len(), positions.len(), hist.iter().zip(&positions).position(|(a, b)| a != b));
    Ok(())
}

fn strat(sizes: BoxedStrategy<(u8, u8)>) -> BoxedStrategy<Collide> {
    (sizes, prop::collection::vec(any::<u8>(), 361), prop::collection::vec(any::<u8>(), 361), prop::collection::vec(any::<u16>(), 361), (0u8..60, any::<u64>(), 0u8..6, any::<u8>(), 0u8..30))
        .prop_map(|((h, w), a, b, order, (n, mix, kind, flags, prefix))| Collide { h, w, a, b, order, n, mix, kind, flags, prefix })
        .boxed()
}
pub fn s_boards(_t: bool) -> BoxedStrategy<Collide> {
    strat((4u8..=19, 4u8..=19).prop_map(|(h, w)| if h as usize * w as usize >= 66 { (h, w) } else if h < w { (19, w) } else { (h, 19) }).boxed())
}
pub fn s_games(_t: bool) -> BoxedStrategy<Collide> {
    strat((12u8..=19, 13u8..=19).boxed())
}
