//! Properties of boards: editing, equality, read-outs, regions, coordinates.
use crate::audit::*;
use crate::grid::*;
use crate::props_game::prop;
use crate::runner::*;
use crate::scen::*;
use goban::pieces::goban::Goban;
use goban::pieces::group::{Group, EMPTY_LIBERTIES};
use goban::pieces::stones::{MaybeColor, Point, EMPTY};
use goban::pieces::util::coord::*;
use goban::rules::game::Game;
use goban::rules::*;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeSet, HashMap};
use std::hash::{Hash, Hasher};

/// Raw edits of a board: placements on empty points (nothing is captured) and
/// removals of whole groups.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Edits {
    pub h: u8,
    pub w: u8,
    pub ops: Vec<(u8, u16)>,
    /// density bias: removals happen when k < bias
    pub bias: u8,
    /// white share
    pub white: u8,
}
fn edits_strategy(sizes: [u32; 5], max: usize) -> BoxedStrategy<Edits> {
    (size_strategy(sizes), prop::collection::vec((any::<u8>(), any::<u16>()), 1..max), 5u8..130, any::<u8>())
        .prop_map(|((h, w), ops, bias, white)| Edits { h, w, ops, bias, white })
        .boxed()
}

/// The identifier of the group holding p, found through the public listings.
pub fn id_at(g: &Goban, r: &Grid, p: usize) -> Option<usize> {
    let st = r.region(p);
    for &s in &st {
        for n in r.nb(s) {
            for id in g.get_connected_groups_idx(n) {
                let first = g.chain_stones(id).next()?;
                if (first.coord.0 as usize) < r.h && (first.coord.1 as usize) < r.w && st.binary_search(&r.idx(first.coord)).is_ok() {
                    return Some(id);
                }
            }
        }
    }
    None
}

#[derive(PartialEq, Clone, Copy)]
enum Did {
    Push,
    Remove,
    Nothing,
}
fn edit(g: &mut Goban, r: &mut Grid, e: &Edits, k: u8, a: u16) -> Result<Did, String> {
    let n = r.len();
    let start = a as usize % n;
    if k < e.bias {
        if let Some(p) = (0..n).map(|i| (start + i) % n).find(|&p| r.c[p] != E) {
            if n == 1 {
                return Ok(Did::Nothing);
            }
            let id = id_at(g, r, p).ok_or_else(|| format!("the group at {:?} cannot be found from its neighbours", r.coord(p)))?;
            g.remove_chain(id);
            for s in r.region(p) {
                r.c[s] = E
            }
            return Ok(Did::Remove);
        }
    }
    if let Some(p) = (0..n).map(|i| (start + i) % n).find(|&p| r.c[p] == E) {
        let c = if (a >> 8) as u8 ^ k.wrapping_mul(37) < e.white { W } else { B };
        if a & 1 == 0 {
            g.push(r.coord(p), col(c));
        } else {
            g.push_stone(stone(r, p, c));
        }
        r.c[p] = c;
        return Ok(Did::Push);
    }
    Ok(Did::Nothing)
}

// ---------------------------------------------------------------- C09 (raw edits, liberties sets)
fn c09_edits(e: &Edits, rec: &mut Rec) -> R {
    let mut r = Grid::new(e.h as usize, e.w as usize);
    let mut g = Goban::new((e.h, e.w));
    let (mut push, mut rem) = (0, 0);
    let every = 1 + r.len() / 40;
    for (i, &(k, a)) in e.ops.iter().enumerate() {
        note(|| format!("edit {i} ({k},{a}) on\n{}", r.show()));
        match edit(&mut g, &mut r, e, k, a).map_err(|m| format!("{m}\n{}", r.show()))? {
            Did::Push => push += 1,
            Did::Remove => rem += 1,
            Did::Nothing => {}
        }
        if i % every == 0 {
            groups_audit(&g, &r).map_err(|m| format!("after edit {i}: {m}\n{}", r.show()))?;
        }
    }
    groups_audit(&g, &r).map_err(|m| format!("at the end: {m}\n{}", r.show()))?;
    rec.nontrivial = push > 5 && rem > 0;
    rec.tagn("placements", push);
    rec.tagn("removals", rem);
    if rec.want_sample {
        rec.sample = Some(json!(format!("{}x{} {} edits, final {}", e.h, e.w, e.ops.len(), r.show().replace('\n', "/"))));
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct LibOps {
    pub white: bool,
    pub stone: u16,
    pub ops: Vec<(u8, u16, u16)>,
}
fn c09_libs(x: &LibOps, rec: &mut Rec) -> R {
    let mut g = Group::new(col(if x.white { W } else { B }), x.stone as usize % 361);
    let mut m: BTreeSet<usize> = BTreeSet::new();
    for (i, &(k, a, b)) in x.ops.iter().enumerate() {
        let (a, b) = (a as usize % 361, b as usize % 361);
        match k % 6 {
            0 | 1 => {
                if m.insert(a) {
                    g.add_liberty(a);
                }
            }
            2 => {
                let y = if m.contains(&a) { Some(a) } else { m.range(a..).next().copied().or_else(|| m.iter().next().copied()) };
                if let Some(y) = y {
                    m.remove(&y);
                    g.remove_liberty(y);
                }
            }
            3 => {
                let l = [a, b, (a + 1) % 361, (b + 19) % 361];
                g.union_liberties_slice(&l);
                m.extend(l);
            }
            4 => {
                let mut o = Group::new_with_liberties(g.color, a, EMPTY_LIBERTIES);
                let mut l: BTreeSet<usize> = (0..(b % 12)).map(|j| (a + j * (1 + b % 23)) % 361).collect();
                l.insert(b);
                o.add_liberties(l.iter().copied());
                g.union_liberties(o.liberties);
                m.extend(l);
            }
            _ => {
                let l: BTreeSet<usize> = [a, b].into_iter().filter(|y| !m.contains(y)).collect();
                g.add_liberties(l.iter().copied());
                m.extend(l);
            }
        }
        let got = g.liberties();
        let mut s = got.clone();
        s.sort_unstable();
        ensure!(s.iter().copied().eq(m.iter().copied()), "after op {i}: liberties {got:?}, expected {m:?}");
        ensure!(g.number_of_liberties() == m.len(), "after op {i}: number_of_liberties {} expected {}", g.number_of_liberties(), m.len());
        ensure!(g.is_dead() == m.is_empty(), "after op {i}: is_dead");
        ensure!(g.is_atari() == (m.len() == 1), "after op {i}: is_atari");
        for p in [a, b, (a + 1) % 361, (a + 360) % 361] {
            ensure!(g.contains_liberty(p) == m.contains(&p), "after op {i}: contains_liberty({p})");
        }
    }
    for p in 0..361 {
        ensure!(g.contains_liberty(p) == m.contains(&p), "at the end: contains_liberty({p})");
    }
    rec.nontrivial = x.ops.len() > 4;
    rec.tagn("operations", x.ops.len() as u64);
    Ok(())
}

// ---------------------------------------------------------------- C10
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Long {
    pub e: Edits,
    /// total number of placements to reach
    pub total: u32,
    pub stride: u16,
}
fn long_strategy(t: bool) -> BoxedStrategy<Long> {
    let tot = if t { 65_000u32..300_000 } else { 65_600u32..90_000 };
    let size = prop_oneof![
        4 => (2u8..=5, 2u8..=5),
        3 => (1u8..=9, 2u8..=9),
        2 => (5u8..=13, 5u8..=13),
        1 => Just((19u8, 19u8)),
    ];
    (size, prop::collection::vec((any::<u8>(), any::<u16>()), 16..200), 70u8..128, 40u8..216, tot, any::<u16>())
        .prop_map(|((h, w), ops, bias, white, total, stride)| Long { e: Edits { h, w, ops, bias, white }, total, stride: stride | 1 })
        .boxed()
}
fn c10_raw(x: &Long, rec: &mut Rec) -> R {
    let e = &x.e;
    let mut r = Grid::new(e.h as usize, e.w as usize);
    let mut g = Goban::new((e.h, e.w));
    let (mut push, mut rem, mut i) = (0u64, 0u64, 0usize);
    let mut recent = vec![];
    while push < x.total as u64 {
        let (k, a) = e.ops[i % e.ops.len()];
        let round = (i / e.ops.len()) as u16;
        let (k, a) = (k.wrapping_add((round >> 3) as u8), a.wrapping_add(round.wrapping_mul(x.stride)));
        let full = r.c.iter().all(|&c| c != E);
        let did = edit(&mut g, &mut r, e, if full { 0 } else { k }, a)
            .map_err(|m| format!("after {push} placements and {rem} removals: {m}\n{}", r.show()))?;
        match did {
            Did::Push => push += 1,
            Did::Remove => rem += 1,
            Did::Nothing => {}
        }
        i += 1;
        if i % 4096 == 0 || push > x.total as u64 - 8 || (65_530..65_545).contains(&push) {
            groups_audit(&g, &r).map_err(|m| format!("after {push} placements and {rem} removals: {m}"))?;
            let mut f = Goban::new((e.h, e.w));
            for p in 0..r.len() {
                if r.c[p] != E {
                    f.push(r.coord(p), col(r.c[p]));
                }
            }
            ensure!(f == g && f.zobrist_hash() == g.zobrist_hash(), "after {push} placements and {rem} removals the board differs from a fresh one");
            recent.push(r.show().replace('\n', "/"));
        }
    }
    rec.nontrivial = push > 65_536 && rem > 1000;
    rec.tagn("placements", push);
    rec.tagn("removals", rem);
    if rec.want_sample {
        rec.sample = Some(json!(format!("{}x{}: {push} placements, {rem} removals, final {}", e.h, e.w, recent.last().unwrap())));
    }
    Ok(())
}

/// Boards filled to the last point with patterns that make as many groups as possible, or as
/// few, and taken apart again, several times over.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Patterned {
    pub h: u8,
    pub w: u8,
    /// pattern, share of the points, order of placement, share of the groups removed
    pub rounds: Vec<(u8, u8, u16, u8)>,
}
fn s_patterned(_t: bool) -> BoxedStrategy<Patterned> {
    let size = prop_oneof![3 => (15u8..=19, 15u8..=19), 2 => Just((19u8, 19u8)), 2 => (1u8..=19, 1u8..=19), 2 => (1u8..=6, 1u8..=6)];
    let share = prop_oneof![3 => Just(255u8), 2 => any::<u8>(), 1 => 240u8..=255];
    (size, prop::collection::vec((any::<u8>(), share.clone(), any::<u16>(), share), 1..7)).prop_map(|((h, w), rounds)| Patterned { h, w, rounds }).boxed()
}
fn c09_patterned(x: &Patterned, rec: &mut Rec) -> R {
    let mut r = Grid::new(x.h as usize, x.w as usize);
    let mut g = Goban::new((x.h, x.w));
    let n = r.len();
    let (mut most, mut giant) = (0, 0);
    for (k, &(pat, share, order, gone)) in x.rounds.iter().enumerate() {
        let color = |p: usize| -> u8 {
            let (i, j) = (p / r.w, p % r.w);
            let odd = match pat % 8 {
                0 | 1 => (i + j) % 2,
                2 => i % 2,
                3 => j / 2 % 2,
                4 => 0,
                5 => usize::from(i % 2 == 0 && j % 2 == 0),
                6 => usize::from((i / 2 + j) % 2 == 0),
                _ => (p * (pat as usize | 1)) / 7 % 2,
            };
            if (odd == 1) != (pat >= 128) { W } else { B }
        };
        let mut pts: Vec<(u32, usize)> = (0..n).map(|p| (match order % 4 { 0 => p as u32, 1 => (n - p) as u32, _ => (p as u32 + 1).wrapping_mul(order as u32 | 1).wrapping_mul(2654435761) >> 8 }, p)).filter(|x| r.c[x.1] == E).collect();
        pts.sort_unstable();
        let take = if share == 255 { pts.len() } else { pts.len() * share as usize / 255 };
        for &(_, p) in &pts[..take] {
            g.push(r.coord(p), col(color(p)));
            r.c[p] = color(p);
        }
        let groups = r.groups();
        most = most.max(groups.len());
        giant = giant.max(groups.iter().map(|x| x.stones.len()).max().unwrap_or(0));
        groups_audit(&g, &r).map_err(|m| format!("round {k}, filled: {m}\n{}", r.show()))?;
        let mut f = Goban::new((x.h, x.w));
        for p in 0..n {
            if r.c[p] != E {
                f.push(r.coord(p), col(r.c[p]));
            }
        }
        ensure!(f == g && f.zobrist_hash() == g.zobrist_hash(), "round {k}: the board differs from a fresh one\n{}", r.show());
        // the same board after some groups are gone
        for (i, gr) in groups.iter().enumerate() {
            if gone == 255 || (i * 37 + order as usize) % 255 < gone as usize {
                let Some(id) = id_at(&g, &r, gr.stones[0]) else {
                    ensure!(gr.stones.len() == n, "round {k}: no identifier found for the group at {:?}\n{}", r.coord(gr.stones[0]), r.show());
                    continue;
                };
                g.remove_chain(id);
                for &p in &gr.stones {
                    r.c[p] = E;
                }
            }
        }
        groups_audit(&g, &r).map_err(|m| format!("round {k}, groups removed: {m}\n{}", r.show()))?;
    }
    rec.nontrivial = most > 30;
    rec.tagn("boards with over 288 groups at once", u64::from(most > 288));
    rec.tagn("groups of over 200 stones", u64::from(giant > 200));
    rec.tagn("fillings", x.rounds.len() as u64);
    Ok(())
}

/// The same through play: games that never stop capturing.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct LongGame {
    pub h: u8,
    pub w: u8,
    pub ops: Vec<u16>,
    pub stride: u16,
    pub total: u32,
    pub suicide: bool,
}
fn long_game_strategy(t: bool) -> BoxedStrategy<LongGame> {
    let tot = if t { 66_000u32..200_000 } else { 66_000u32..80_000 };
    (
        prop_oneof![Just((2u8, 2u8)), Just((2, 3)), Just((3, 2)), Just((3, 3)), Just((1, 5)), Just((5, 1)), Just((1, 7)), Just((2, 4))],
        prop::collection::vec(any::<u16>(), 8..120),
        any::<u16>(),
        tot,
        any::<bool>(),
    )
        .prop_map(|((h, w), ops, stride, total, suicide)| LongGame { h, w, ops, stride: stride | 1, total, suicide })
        .boxed()
}
fn c10_game(x: &LongGame, rec: &mut Rec) -> R {
    let mut g = Game::new(
        GobanSizes::Custom(x.h as usize, x.w as usize),
        Rule { komi: 0., flag_illegal: if x.suicide { IllegalRules::empty() } else { IllegalRules::SUICIDE }, flag_score: ScoreRules::empty() },
    );
    let mut r = Grid::new(x.h as usize, x.w as usize);
    let (mut caps, mut i, mut plays) = (0u64, 0usize, 0u32);
    while plays < x.total {
        let a = x.ops[i % x.ops.len()].wrapping_add((i / x.ops.len()) as u16).wrapping_mul(x.stride);
        i += 1;
        let t = uncol(g.turn());
        let e: Vec<usize> = r.empties().into_iter().filter(|&p| x.suicide || !r.play(p, t, false).is_suicide).collect();
        if e.is_empty() {
            g.play(Move::Pass);
            if g.is_over() {
                g.resume();
            }
            continue;
        }
        let p = e[a as usize * e.len() / 65536];
        let (cx, cy) = r.coord(p);
        let want = r.play(p, t, x.suicide);
        ensure!(g.try_play(Move::Play(cx, cy)).is_ok(), "play {plays}: {:?} refused on\n{}", (cx, cy), r.show());
        plays += 1;
        caps += (want.captured.len() + want.suicided.len()) as u64;
        r = want.grid;
        let got = Grid::read(g.goban());
        ensure!(got == r, "play {plays}: board\n{}expected\n{}", got.show(), r.show());
        if plays % 2048 == 0 || plays + 4 > x.total {
            groups_audit(g.goban(), &r).map_err(|m| format!("play {plays}: {m}"))?;
        }
    }
    let p = g.prisoners();
    ensure!(p.0 as u64 + p.1 as u64 == caps, "prisoners {p:?}, {caps} stones removed");
    rec.nontrivial = caps > 1000;
    rec.tagn("plays", plays as u64);
    rec.tagn("stones removed", caps);
    if rec.want_sample {
        rec.sample = Some(json!(format!("{}x{} suicide allowed {}: {plays} plays, {caps} stones removed", x.h, x.w, x.suicide)));
    }
    Ok(())
}

// ---------------------------------------------------------------- C11
fn std_hash<T: Hash>(t: &T) -> u64 {
    let mut h = DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}
fn hh<T: Hash>(t: &T) -> u64 {
    // the hasher the library itself uses for hashed keys: keeps what is written
    #[derive(Default)]
    struct Keep(u64);
    impl Hasher for Keep {
        fn finish(&self) -> u64 {
            self.0
        }
        fn write(&mut self, b: &[u8]) {
            for &x in b {
                self.0 = (self.0 ^ x as u64).wrapping_mul(0x100000001b3)
            }
        }
    }
    let mut h = Keep::default();
    t.hash(&mut h);
    h.finish()
}
fn equal_boards(a: &Goban, b: &Goban, what: &str) -> R {
    ensure!(a == b && b == a && !(a != b), "{what}: same position, boards not equal");
    ensure!(a.zobrist_hash() == b.zobrist_hash(), "{what}: same position, fingerprints {:x} and {:x}", a.zobrist_hash(), b.zobrist_hash());
    ensure!(std_hash(a) == std_hash(b) && hh(a) == hh(b), "{what}: same position, different hashes");
    Ok(())
}
fn rebuild(r: &Grid, perm: &[u16], noise: &[u16]) -> Goban {
    let mut g = Goban::new((r.h as u8, r.w as u8));
    let mut cur = Grid::new(r.h, r.w);
    let mut pts: Vec<(u16, usize)> = (0..r.len()).filter(|&p| r.c[p] != E).map(|p| (perm[p % perm.len()].wrapping_mul(p as u16 * 2 + 1), p)).collect();
    pts.sort_unstable();
    for (i, &(_, p)) in pts.iter().enumerate() {
        // an extra stone put down and taken up again before some placements
        if !noise.is_empty() && noise[i % noise.len()] % 3 == 0 && r.len() > 1 {
            let v = noise[i % noise.len()] as usize;
            let e: Vec<usize> = cur.empties().into_iter().filter(|&q| cur.nb(q).iter().all(|&n| cur.c[n] == E)).collect();
            if !e.is_empty() {
                let q = e[v % e.len()];
                let c = if v & 8 == 0 { B } else { W };
                g.push(r.coord(q), col(c));
                cur.c[q] = c;
                if let Some(id) = id_at(&g, &cur, q) {
                    g.remove_chain(id);
                    cur.c[q] = E;
                } else {
                    panic!("group at {q} not found");
                }
            }
        }
        g.push(r.coord(p), col(r.c[p]));
        cur.c[p] = r.c[p];
    }
    g
}
struct O11<'a> {
    x: &'a Twist,
    met: u64,
    caps: bool,
    prints: Vec<(u64, Grid)>,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Twist {
    pub sc: Scenario,
    pub perm: Vec<u16>,
    pub noise: Vec<u16>,
    pub flip: u16,
}
impl Observer for O11<'_> {
    fn start(&mut self, g: &mut Game, c: &Ctx) -> R {
        let e = Goban::new((c.grid.h as u8, c.grid.w as u8));
        let e2 = Game::new(GobanSizes::Custom(c.grid.h, c.grid.w), CHINESE);
        equal_boards(&e, e2.goban(), "two empty boards")?;
        let other = Goban::new((c.grid.h as u8, c.grid.w as u8 % 19 + 1));
        ensure!(e != other, "boards of different sizes are equal");
        if c.grid.empties().len() == c.grid.len() {
            equal_boards(g.goban(), &e, "empty board")?;
        }
        Ok(())
    }
    fn state(&mut self, g: &mut Game, c: &Ctx) -> R {
        self.prints.push((g.zobrist_hash(), c.grid.clone()));
        self.met += 1;
        if c.step % 5 == 0 || c.step + 1 == self.x.sc.ops.len() {
            let f = rebuild(&c.grid, &self.x.perm, &self.x.noise);
            ensure!(Grid::read(&f) == c.grid, "rebuilding by placements gave another position");
            equal_boards(g.goban(), &f, "played and set up")?;
            let m = make_game(&c.grid, c.rule, None);
            equal_boards(g.goban(), m.goban(), "played and built")?;
            equal_boards(g.goban(), &g.goban().clone(), "clone")?;
            // a neighbouring position differs
            let p = self.x.flip as usize % c.grid.len();
            let mut o = c.grid.clone();
            o.c[p] = (o.c[p] + 1 + (self.x.flip >> 12) as u8 % 2) % 3;
            let f = rebuild(&o, &self.x.perm, &[]);
            ensure!(f != *g.goban() && *g.goban() != f, "positions differing at {:?} are equal", c.grid.coord(p));
            ensure!(f.zobrist_hash() != g.zobrist_hash(), "positions differing at {:?} have the same fingerprint", c.grid.coord(p));
            self.prints.push((f.zobrist_hash(), o));
        }
        Ok(())
    }
    fn after(&mut self, g: &mut Game, c: &Ctx, s: &StepRes) -> R {
        self.caps |= s.post.c.iter().filter(|&&x| x != E).count() <= c.grid.c.iter().filter(|&&x| x != E).count() && s.accepted && matches!(s.act, Act::Try(_));
        let _ = g;
        Ok(())
    }
    fn finish(&mut self, g: &mut Game, _c: &Ctx) -> R {
        // all pairs of positions of the game: equal iff same points
        let hist: Vec<(&Goban, Grid)> = g.history().map(|b| (b, Grid::read(b))).collect();
        for (i, (a, ra)) in hist.iter().enumerate().take(40) {
            for (b, rb) in hist.iter().skip(i).take(12) {
                ensure!((a == b) == (ra == rb), "equality of boards {} but of points {}", a == b, ra == rb);
            }
        }
        let mut map: HashMap<u64, Vec<u8>> = HashMap::new();
        for (z, r) in self.prints.drain(..) {
            if r.c.iter().all(|&c| c == E) {
                // an empty board always has the same fingerprint
                let e = Goban::new((r.h as u8, r.w as u8)).zobrist_hash();
                ensure!(z == e, "empty boards with fingerprints {z:x} and {e:x}");
            }
            if let Some(o) = map.get(&z) {
                if *o != r.c {
                    let o = Grid { h: r.h, w: r.w, c: o.clone() };
                    return Err(format!("fingerprint {z:x} of two positions\n{}and\n{}", r.show(), o.show()));
                }
            } else {
                map.insert(z, r.c);
            }
        }
        Ok(())
    }
}
fn cfg11() -> Cfg {
    Cfg { rules: [20, 15, 65], sizes: [40, 30, 20, 6, 4], max_ops: 120, ..Cfg::default() }
}
fn c11(x: &Twist, rec: &mut Rec) -> R {
    let mut o = O11 { x, met: 0, caps: false, prints: vec![] };
    let c = drive(&x.sc, &cfg11(), &mut o)?;
    rec.nontrivial = o.caps;
    rec.tagn("positions met", o.met);
    if rec.want_sample {
        rec.sample = Some(json!(summary(&x.sc, &c)));
    }
    Ok(())
}
fn s11(_t: bool) -> BoxedStrategy<Twist> {
    (scenario(&cfg11()), prop::collection::vec(any::<u16>(), 1..40), prop::collection::vec(any::<u16>(), 0..20), any::<u16>())
        .prop_map(|(sc, perm, noise, flip)| Twist { sc, perm, noise, flip })
        .boxed()
}
/// Fingerprints of all boards of the size with at most two stones.
fn small_prints(v: &Value, rec: &mut Rec) -> R {
    let (h, w) = (v["h"].as_u64().unwrap() as u8, v["w"].as_u64().unwrap() as u8);
    let r = Grid::new(h as usize, w as usize);
    let empty = Goban::new((h, w));
    let mut seen: HashMap<u64, String> = HashMap::new();
    let mut put = |z: u64, what: String| -> R {
        if let Some(o) = seen.insert(z, what.clone()) {
            return Err(format!("{h}x{w}: fingerprint {z:x} belongs to {o} and to {what}"));
        }
        Ok(())
    };
    put(empty.zobrist_hash(), "the empty board".into())?;
    let mut n = 1u64;
    for p in 0..r.len() {
        for c in [B, W] {
            let mut a = empty.clone();
            a.push(r.coord(p), col(c));
            put(a.zobrist_hash(), format!("{:?}:{c}", r.coord(p)))?;
            n += 1;
            for q in p + 1..r.len() {
                for d in [B, W] {
                    let mut b = a.clone();
                    b.push(r.coord(q), col(d));
                    put(b.zobrist_hash(), format!("{:?}:{c} {:?}:{d}", r.coord(p), r.coord(q)))?;
                    n += 1;
                }
            }
        }
    }
    rec.nontrivial = true;
    rec.tagn("positions with at most two stones", n);
    Ok(())
}
fn small_prints_cases(t: bool) -> Vec<Value> {
    let mut v = vec![json!({"h": 19, "w": 19})];
    for h in 1..=19 {
        for w in 1..=19 {
            if (h != 19 || w != 19) && (t || h * w <= 42 || (h * w <= 100 && (h == w || (h + w) % 5 == 0)) || (h, w) == (13, 13) || (h, w) == (19, 2) || (h, w) == (3, 17)) {
                v.push(json!({"h": h, "w": w}));
            }
        }
    }
    v
}

// ---------------------------------------------------------------- C12
struct O12 {
    caps: u64,
    n: usize,
}
impl Observer for O12 {
    fn state(&mut self, g: &mut Game, c: &Ctx) -> R {
        if c.grid.len() > 100 && c.step % 6 != 0 {
            return Ok(());
        }
        self.n += 1;
        readouts(g.goban(), &c.grid)?;
        ensure!(g.size() == (c.grid.h as u8, c.grid.w as u8), "size of the game");
        let mut e: Vec<usize> = g.pseudo_legals().map(|x| c.grid.idx(x)).collect();
        e.sort_unstable();
        ensure!(e == c.grid.empties(), "pseudo_legals {e:?}");
        let mut e: Vec<usize> = g.pseudo_legals_vec().into_iter().map(|x| c.grid.idx(x)).collect();
        e.sort_unstable();
        ensure!(e == c.grid.empties(), "pseudo_legals_vec {e:?}");
        Ok(())
    }
    fn after(&mut self, _g: &mut Game, c: &Ctx, s: &StepRes) -> R {
        self.caps += u64::from(matches!(s.act, Act::Try(_)) && s.accepted && s.post.count(opp(c.turn)) < c.grid.count(opp(c.turn)));
        Ok(())
    }
}
fn cfg12() -> Cfg {
    Cfg { rules: [25, 15, 60], sizes: [34, 30, 18, 8, 10], max_ops: 100, ..Cfg::default() }
}
fn c12(sc: &Scenario, rec: &mut Rec) -> R {
    let mut o = O12 { caps: 0, n: 0 };
    let c = drive(sc, &cfg12(), &mut o)?;
    // the same position through an SGF file
    let sgf = crate::props_io::sgf_of_grid(&c.grid);
    let g = Game::from_sgf(&sgf).map_err(|e| format!("import of {sgf} failed: {e}"))?;
    readouts(g.goban(), &c.grid).map_err(|m| format!("imported from {sgf}: {m}"))?;
    rec.nontrivial = o.caps > 0;
    rec.tagn("states read out", o.n as u64);
    rec.tagn("captures", o.caps);
    if sc.h != sc.w {
        rec.tag("non-square")
    }
    if sc.h as usize * sc.w as usize > 255 {
        rec.tag("more than 255 points")
    }
    if rec.want_sample {
        rec.sample = Some(json!(summary(sc, &c)));
    }
    Ok(())
}
fn s12(_t: bool) -> BoxedStrategy<Scenario> {
    scenario(&cfg12())
}
/// Any content at all, groups without liberties included, on every size.
fn c12_static(e: &Edits, rec: &mut Rec) -> R {
    let mut r = Grid::new(e.h as usize, e.w as usize);
    let mut g = Goban::new((e.h, e.w));
    for &(k, a) in &e.ops {
        edit(&mut g, &mut r, e, k, a)?;
    }
    readouts(&g, &r).map_err(|m| format!("{m}\n{}", r.show()))?;
    rec.nontrivial = r.empties().len() < r.len();
    if e.h != e.w {
        rec.tag("non-square")
    }
    if r.len() > 255 {
        rec.tag("more than 255 points")
    }
    Ok(())
}

// ---------------------------------------------------------------- C13
fn c13(x: &Twist, rec: &mut Rec) -> R {
    struct O<'a>(&'a Twist, u64);
    impl Observer for O<'_> {
        fn state(&mut self, g: &mut Game, c: &Ctx) -> R {
            if c.step % 3 != 0 && c.step + 1 < self.0.sc.ops.len() {
                return Ok(());
            }
            let r = &c.grid;
            if r.h == r.w {
                let v: Vec<MaybeColor> = g.to_vec();
                let f = Goban::from(&v[..]);
                ensure!(f.size() == g.size(), "rebuilt board has size {:?}", f.size());
                same_points(&f, r)?;
                equal_boards(&f, g.goban(), "exported and rebuilt")?;
                groups_audit(&f, r)?;
                readouts(&f, r)?;
                ensure!(f.to_vec() == v, "exporting the rebuilt board gives another array");
                self.1 += 1;
            }
            let f = rebuild(r, &self.0.perm, &self.0.noise);
            equal_boards(&f, g.goban(), "rebuilt by placements")?;
            groups_audit(&f, r)?;
            let mut m = Goban::new(g.size());
            for c in [W, B] {
                let l: Vec<_> = (0..r.len()).rev().filter(|&p| r.c[p] == c).map(|p| r.coord(p)).collect();
                m.push_many(&l, col(c));
            }
            equal_boards(&m, g.goban(), "rebuilt by push_many")?;
            Ok(())
        }
    }
    let mut o = O(x, 0);
    let c = drive(&x.sc, &cfg13(), &mut o)?;
    rec.nontrivial = o.1 > 0 && c.played[1] + c.played[2] > 4;
    rec.tagn("square boards exported", o.1);
    if rec.want_sample {
        rec.sample = Some(json!(summary(&x.sc, &c)));
    }
    Ok(())
}
fn cfg13() -> Cfg {
    Cfg { rules: [20, 15, 65], sizes: [40, 20, 30, 6, 4], max_ops: 100, ..Cfg::default() }
}
fn s13(_t: bool) -> BoxedStrategy<Twist> {
    (scenario(&cfg13()), any::<bool>(), prop::collection::vec(any::<u16>(), 1..40), prop::collection::vec(any::<u16>(), 0..20), any::<u16>())
        .prop_map(|(mut sc, sq, perm, noise, flip)| {
            if sq {
                sc.w = sc.h
            }
            Twist { sc, perm, noise, flip }
        })
        .boxed()
}

// ---------------------------------------------------------------- C14
fn regions_check(g: &Goban, r: &Grid, pick: &[u16], rec: &mut Rec) -> R {
    territory_audit(g, r)?;
    for p in 0..r.len() {
        region_audit(g, r, p)?;
    }
    // partition of an arbitrary set of points
    let mut set: Vec<usize> = pick.iter().map(|&x| x as usize % r.len()).collect();
    if pick.first().is_some_and(|x| x % 4 == 0) {
        set = (0..r.len()).collect();
    }
    let pt = |p: usize| Point { coord: r.coord(p), color: if r.c[p] == E { EMPTY } else { Some(col(r.c[p])) } };
    let parts = g.get_chains_from_stones(set.iter().map(|&p| pt(p)));
    let mut got = vec![];
    for s in parts {
        let mut v = vec![];
        for x in &s {
            ensure!((x.coord.0 as usize) < r.h && (x.coord.1 as usize) < r.w, "partition lists {x:?}");
            let p = r.idx(x.coord);
            ensure!(*x == pt(p), "partition lists {x:?} with the wrong content");
            v.push(p);
        }
        v.sort_unstable();
        got.push(v);
    }
    got.sort();
    let mut want: Vec<Vec<usize>> = set.iter().map(|&p| r.region(p)).collect();
    want.sort();
    want.dedup();
    ensure!(got == want, "regions meeting {set:?}: {got:?} expected {want:?}");
    let (b, w) = r.territory();
    rec.tagn("black territory", b.len() as u64);
    rec.tagn("white territory", w.len() as u64);
    rec.tagn("neutral empty points", (r.empties().len() - b.len() - w.len()) as u64);
    rec.nontrivial |= !b.is_empty() && !w.is_empty() && r.empties().len() > b.len() + w.len();
    Ok(())
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct TerrGrid {
    pub h: u8,
    pub w: u8,
    pub cells: Vec<u8>,
    /// stones live in colour bands: threshold between the colours
    pub cut: u8,
    pub slope: u8,
    pub fill: u8,
    pub pick: Vec<u16>,
}
pub fn terr_grid(x: &TerrGrid) -> Grid {
    let mut g = Grid::new(x.h as usize, x.w as usize);
    for p in 0..g.len() {
        let (r, c) = (p / g.w, p % g.w);
        let v = x.cells[p % x.cells.len()];
        if v < 40 + x.fill % 160 {
            let s = r as u32 * (x.slope as u32 % 16) + c as u32 * (15 - x.slope as u32 % 16);
            let lim = x.cut as u32 * (g.h + g.w) as u32 * 15 / 512;
            let flip = v % 16 == 0;
            g.c[p] = if (s < lim) != flip { B } else { W };
        }
    }
    g
}
fn s14(_t: bool) -> BoxedStrategy<TerrGrid> {
    (size_strategy([24, 36, 26, 8, 6]), any::<u8>(), any::<u8>(), any::<u8>(), prop::collection::vec(any::<u16>(), 0..20))
        .prop_flat_map(|((h, w), cut, slope, fill, pick)| {
            prop::collection::vec(any::<u8>(), h as usize * w as usize).prop_map(move |cells| TerrGrid { h, w, cells, cut, slope, fill, pick: pick.clone() })
        })
        .boxed()
}
fn c14_static(x: &TerrGrid, rec: &mut Rec) -> R {
    let r = terr_grid(x);
    let mut g = Goban::new((x.h, x.w));
    for p in 0..r.len() {
        if r.c[p] != E {
            g.push(r.coord(p), col(r.c[p]));
        }
    }
    regions_check(&g, &r, &x.pick, rec).map_err(|m| format!("{m}\n{}", r.show()))?;
    if rec.want_sample {
        rec.sample = Some(json!(r.show().replace('\n', "/")));
    }
    Ok(())
}
fn cfg14() -> Cfg {
    Cfg { rules: [20, 15, 65], sizes: [40, 34, 20, 4, 2], max_ops: 100, ..Cfg::default() }
}
fn c14(sc: &Scenario, rec: &mut Rec) -> R {
    struct O<'a>(&'a mut Rec);
    impl Observer for O<'_> {
        fn state(&mut self, g: &mut Game, c: &Ctx) -> R {
            if c.step % 4 == 0 {
                regions_check(g.goban(), &c.grid, &[c.step as u16, 7, 300], self.0)?;
            }
            Ok(())
        }
    }
    let mut r2 = Rec::default();
    let c = drive(sc, &cfg14(), &mut O(&mut r2))?;
    rec.nontrivial = r2.nontrivial;
    rec.tags = r2.tags;
    if rec.want_sample {
        rec.sample = Some(json!(summary(sc, &c)));
    }
    Ok(())
}
fn s14g(_t: bool) -> BoxedStrategy<Scenario> {
    scenario(&cfg14())
}

// ---------------------------------------------------------------- C26
fn c26_cases(_t: bool) -> Vec<Value> {
    let mut v = vec![];
    for h in 1..=19 {
        for w in 1..=19 {
            v.push(json!({"h": h, "w": w}))
        }
    }
    v
}
fn sorted_coords(i: impl IntoIterator<Item = Coord>) -> Vec<Coord> {
    let mut v: Vec<Coord> = i.into_iter().collect();
    v.sort_unstable();
    v
}
fn c26(v: &Value, rec: &mut Rec) -> R {
    let (h, w) = (v["h"].as_u64().unwrap() as u8, v["w"].as_u64().unwrap() as u8);
    let size = (h, w);
    let r = Grid::new(h as usize, w as usize);
    for p in 0..r.len() {
        let c = r.coord(p);
        ensure!(two_to_1dim(size, c) == p, "{size:?}: two_to_1dim({c:?}) = {}, expected {p}", two_to_1dim(size, c));
        ensure!(one_to_2dim(size, p) == c, "{size:?}: one_to_2dim({p}) = {:?}, expected {c:?}", one_to_2dim(size, p));
        ensure!(goban::one2dim!(size, p) == c, "{size:?}: one2dim!({p}) = {:?}, expected {c:?}", goban::one2dim!(size, p));
        ensure!(c.into_idx(size) == p && p.into_idx(size) == p, "{size:?}: into_idx of {c:?}");
        ensure!(c.into_coord(size) == c && p.into_coord(size) == c, "{size:?}: into_coord of {c:?}");
        let nb = sorted_coords(r.nb(p).into_iter().map(|q| r.coord(q)));
        let got = sorted_coords(valid_coords(c, size));
        ensure!(got == nb, "{size:?}: valid_coords({c:?}) {got:?} expected {nb:?}");
        let got = sorted_coords(neighbor_coords(c).into_iter().filter(|&x| is_coord_valid(size, x)));
        ensure!(got == nb, "{size:?}: neighbor_coords({c:?}) {got:?} expected {nb:?}");
        let dg = sorted_coords(r.diag(p).into_iter().map(|q| r.coord(q)));
        let got = sorted_coords(corner_points(c).into_iter().filter(|&x| is_coord_valid(size, x)));
        ensure!(got == dg, "{size:?}: corner_points({c:?}) {got:?} expected {dg:?}");
    }
    for i in 0..=255u8 {
        for j in 0..=255u8 {
            ensure!(is_coord_valid(size, (i, j)) == (i < h && j < w), "{size:?}: is_coord_valid({:?})", (i, j));
        }
    }
    // one stone everywhere: both forms of every query agree
    for p in 0..r.len() {
        let mut b = r.clone();
        b.c[p] = if p % 2 == 0 { B } else { W };
        let mut g = Goban::new(size);
        g.push(r.coord(p), col(b.c[p]));
        same_points(&g, &b)?;
        for q in std::iter::once(p).chain(r.nb(p)).chain([0, r.len() - 1]) {
            let c = r.coord(q);
            ensure!(g.get_color(c) == g.get_color(q), "{size:?}: get_color of {c:?} by point and index");
            let (a, d) = (g.get_connected_groups_idx(c).to_vec(), g.get_connected_groups_idx(q).to_vec());
            ensure!(a == d, "{size:?}: get_connected_groups_idx of {c:?} by point and index");
            let a: Vec<_> = g.get_connected_stones(c).collect();
            let d: Vec<_> = g.get_connected_stones(q).collect();
            ensure!(a == d, "{size:?}: get_connected_stones of {c:?} by point and index");
            let want = r.nb(q).contains(&p);
            ensure!(a.len() == usize::from(want), "{size:?}: stones next to {c:?}: {a:?}");
        }
        for s in g.chains() {
            let mut l = s.liberties();
            l.sort_unstable();
            let mut nb = r.nb(p);
            nb.sort_unstable();
            ensure!(l == nb, "{size:?}: liberties of a stone at {:?}: {l:?} expected {nb:?}", r.coord(p));
        }
    }
    rec.nontrivial = h != w || h == 1;
    rec.tagn("points", r.len() as u64);
    if h != w {
        rec.tag("non-square sizes")
    }
    Ok(())
}
/// Index and point forms on positions with content.
fn c26_boards(e: &Edits, rec: &mut Rec) -> R {
    let mut r = Grid::new(e.h as usize, e.w as usize);
    let mut g = Goban::new((e.h, e.w));
    for &(k, a) in &e.ops {
        edit(&mut g, &mut r, e, k, a)?;
    }
    for p in 0..r.len() {
        let c = r.coord(p);
        ensure!(unmc(g.get_color(c)) == r.c[p] && unmc(g.get_color(p)) == r.c[p], "colour of {c:?} by point and index");
        let mut a = g.get_connected_groups_idx(c).to_vec();
        let mut b = g.get_connected_groups_idx(p).to_vec();
        a.sort_unstable();
        b.sort_unstable();
        ensure!(a == b, "groups next to {c:?} by point {a:?} and index {b:?}");
        let want: BTreeSet<usize> = r.nb(p).into_iter().filter(|&q| r.c[q] != E).map(|q| r.region(q)[0]).collect();
        ensure!(a.len() == want.len(), "groups next to {c:?}: {a:?}, expected {} of them", want.len());
        let key = |s: goban::pieces::stones::Stone| (s.coord, uncol(s.color));
        let mut a: Vec<_> = g.get_connected_stones(c).map(key).collect();
        let mut b: Vec<_> = g.get_connected_stones(p).map(key).collect();
        a.sort_unstable();
        b.sort_unstable();
        let mut want: Vec<_> = r.nb(p).into_iter().filter(|&q| r.c[q] != E).map(|q| (r.coord(q), r.c[q])).collect();
        want.sort_unstable();
        ensure!(a == want && b == want, "stones next to {c:?} by point {a:?} and index {b:?}, expected {want:?}");
        let mut a: Vec<_> = g.get_connected_points(c).map(|x| (x.coord, unmc(x.color))).collect();
        a.sort_unstable();
        let mut want: Vec<_> = r.nb(p).into_iter().map(|q| (r.coord(q), r.c[q])).collect();
        want.sort_unstable();
        ensure!(a == want, "points next to {c:?}: {a:?}, expected {want:?}");
    }
    let st: Vec<Coord> = g.get_stones().map(|s| s.coord).collect();
    let want: Vec<Coord> = (0..r.len()).filter(|&p| r.c[p] != E).map(|p| r.coord(p)).collect();
    ensure!(sorted_coords(st.clone()) == want, "stones at {st:?}, expected {want:?}");
    let em: Vec<Coord> = sorted_coords(g.get_empty_coords());
    let idx = sorted_coords(g.get_empty_idx().map(|i| one_to_2dim(g.size(), i)));
    ensure!(em == idx, "empty points {em:?} and empty indexes {idx:?} differ");
    rec.nontrivial = e.h != e.w && want.len() > 2;
    if e.h != e.w {
        rec.tag("non-square")
    }
    Ok(())
}

fn se_small(_t: bool) -> BoxedStrategy<Edits> {
    edits_strategy([30, 40, 22, 5, 3], 150)
}
fn se_any(_t: bool) -> BoxedStrategy<Edits> {
    edits_strategy([20, 25, 20, 15, 20], 200)
}
fn s_libs(_t: bool) -> BoxedStrategy<LibOps> {
    (any::<bool>(), any::<u16>(), prop::collection::vec((any::<u8>(), any::<u16>(), any::<u16>()), 0..60))
        .prop_map(|(white, stone, ops)| LibOps { white, stone, ops })
        .boxed()
}

pub fn table() -> Vec<(&'static str, Vec<Box<dyn Part>>)> {
    vec![
        ("C09", vec![
            prop!("raw edits", "random placements without capture and removals of whole groups on random sizes; groups compared with flood fill; non-trivial: over five placements and a removal", se_small, c09_edits, 24000, 200000),
            prop!("patterned edits", "boards of all sizes filled, often to the last point, with patterns of up to 361 groups or of giant groups, taken apart and filled again; every group audited after each filling and removal; non-trivial: over 30 groups at once", s_patterned, c09_patterned, 12000, 120000),
            prop!("liberty sets", "random operations on one group's liberty set against a set model over 361 points; non-trivial: over four operations", s_libs, c09_libs, 60000, 500000),
        ]),
        ("C10", vec![
            prop!("raw edits", "cyclic random blocks of placements and removals, over 65,536 placements per case, audited every 4096 edits and around 65,536; non-trivial: over 65,536 placements", long_strategy, c10_raw, 192, 900),
            prop!("patterned edits", "boards of all sizes filled, often to the last point, with patterns of up to 361 groups or of giant groups, taken apart and filled again; every group audited after each filling and removal; non-trivial: over 30 groups at once", s_patterned, c09_patterned, 12000, 120000),
            prop!("games", "never-ending games on tiny boards, over 65,536 plays per case; every board compared, groups audited every 2048 plays; non-trivial: over 1000 stones removed", long_game_strategy, c10_game, 128, 600),
        ]),
        ("C11", vec![
            prop!("ways to a position", "random games; each fifth position rebuilt by permuted placements with transient stones, compared for equality, hashes and fingerprint, and with a neighbouring position; all fingerprints of a game compared; non-trivial: a capture happened", s11, c11, 48000, 150000),
            prop!("colliding fingerprints", "pairs of different boards with equal fingerprints, found by linear algebra over the fingerprints of single stones: never equal, two members of a set; non-trivial: the fingerprints do collide", crate::props_hash::s_boards, crate::props_hash::c11, 12000, 200000),
            Box::new(Exhaustive { name: "all boards with at most two stones", rule: "every position with at most two stones on the listed sizes", cases: small_prints_cases, check: small_prints }) as Box<dyn Part>,
        ]),
        ("C12", vec![
            prop!("games", "random games on all sizes; every read-out compared point by point in every state and on the position re-imported from SGF; non-trivial: a capture happened", s12, c12, 24000, 100000),
            prop!("contents", "random contents on all sizes, groups without liberties included; non-trivial: at least a stone", se_any, c12_static, 36000, 150000),
        ]),
        ("C13", vec![prop!("round trips", "random games; exported and rebuilt in three ways; non-trivial: a square board with over four plays", s13, c13, 30000, 120000)]),
        ("C14", vec![
            prop!("positions", "random banded positions on all sizes; territories, regions from every point and partitions compared with flood fill; non-trivial: both colours have territory and neutral points exist", s14, c14_static, 18000, 300000),
            prop!("games", "positions of random games; same oracle; non-trivial as above", s14g, c14, 3750, 80000),
        ]),
        ("C26", vec![
            Box::new(Exhaustive { name: "all sizes", rule: "all 361 board sizes, all their points and indexes, all 65,536 coordinate pairs", cases: c26_cases, check: c26 }) as Box<dyn Part>,
            prop!("contents", "random contents on all sizes; point and index forms of every query; non-trivial: a non-square board with over two stones", se_any, c26_boards, 72000, 150000),
        ]),
    ]
}
