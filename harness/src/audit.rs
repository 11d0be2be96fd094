//! Complete comparisons of what the library reports with the reference.
use crate::grid::*;
use goban::pieces::goban::Goban;
use goban::pieces::stones::{Point, Stone, EMPTY};
use goban::rules::game::Game;
use goban::rules::*;
use std::collections::{BTreeMap, BTreeSet};

pub type R = Result<(), String>;

macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !($c) { return Err(format!($($a)*)) } };
}
pub(crate) use ensure;

/// Colours of all points.
pub fn same_points(g: &Goban, r: &Grid) -> R {
    let got = Grid::read(g);
    ensure!(got == *r, "board is\n{}expected\n{}", got.show(), r.show());
    Ok(())
}

/// Stones of the group with this id, in enumeration order; checks the announced lengths.
pub fn chain(g: &Goban, r: &Grid, id: usize) -> Result<(u8, Vec<usize>), String> {
    let total = r.len();
    let mut it = g.chain_stones(id);
    let mut hints = vec![it.size_hint()];
    let mut v: Vec<Stone> = vec![];
    while let Some(s) = it.next() {
        v.push(s);
        hints.push(it.size_hint());
        if v.len() > total {
            return Err(format!("group {id} enumerates more stones than there are points"));
        }
    }
    for (k, h) in hints.iter().enumerate() {
        let rem = v.len() - k;
        ensure!(*h == (rem, Some(rem)), "group {id} of {} stones: after {k} stones announced {h:?} remaining", v.len());
    }
    ensure!(!v.is_empty(), "group {id} enumerates no stones");
    let c = v[0].color;
    ensure!(v.iter().all(|s| s.color == c), "group {id} enumerates both colours");
    for s in &v {
        ensure!(s.coord.0 < r.h as u8 && s.coord.1 < r.w as u8, "group {id} enumerates {:?}, off the board", s.coord);
    }
    Ok((uncol(c), v.iter().map(|s| r.idx(s.coord)).collect()))
}

/// Everything about the groups of a board.
pub fn groups_audit(g: &Goban, r: &Grid) -> R {
    same_points(g, r)?;
    let refs = r.groups();
    let mut want: Vec<(u8, usize, Vec<usize>)> = refs.iter().map(|x| (x.color, x.stones.len(), x.libs.clone())).collect();
    let mut got = vec![];
    for ch in g.chains() {
        let raw = ch.liberties();
        let mut libs = raw.clone();
        libs.sort_unstable();
        libs.dedup();
        ensure!(libs.len() == raw.len(), "liberties listed twice: {raw:?}");
        ensure!(ch.number_of_liberties() == libs.len(), "number_of_liberties {} but lists {raw:?}", ch.number_of_liberties());
        ensure!(ch.is_dead() == libs.is_empty(), "is_dead {} with liberties {raw:?}", ch.is_dead());
        ensure!(ch.is_atari() == (libs.len() == 1), "is_atari {} with liberties {raw:?}", ch.is_atari());
        for p in 0..r.len() {
            ensure!(ch.contains_liberty(p) == libs.contains(&p), "contains_liberty({p}) is {} with liberties {raw:?}", ch.contains_liberty(p));
        }
        got.push((uncol(ch.color), ch.num_stones as usize, libs));
    }
    got.sort();
    want.sort();
    ensure!(got == want, "groups (colour, stones, liberties) are\n{got:?}\nexpected\n{want:?}");
    let mut of = vec![usize::MAX; r.len()];
    for (k, x) in refs.iter().enumerate() {
        for &s in &x.stones {
            of[s] = k
        }
    }
    let mut cache: BTreeMap<usize, usize> = BTreeMap::new();
    for p in 0..r.len() {
        let a = g.get_connected_groups_idx(r.coord(p));
        let b = g.get_connected_groups_idx(p);
        let (mut a, mut b) = (a.to_vec(), b.to_vec());
        a.sort_unstable();
        b.sort_unstable();
        ensure!(a == b, "groups next to {:?} differ between point and index form", r.coord(p));
        ensure!(a.windows(2).all(|w| w[0] != w[1]), "groups next to {:?} listed twice: {a:?}", r.coord(p));
        let mut ks = vec![];
        for id in a {
            let k = match cache.get(&id) {
                Some(&k) => k,
                None => {
                    let (c, mut st) = chain(g, r, id)?;
                    let n = st.len();
                    st.sort_unstable();
                    st.dedup();
                    ensure!(st.len() == n, "group {id} lists a stone twice");
                    let k = of[st[0]];
                    ensure!(k != usize::MAX, "group {id} lists the empty point {:?}", r.coord(st[0]));
                    ensure!(refs[k].color == c && refs[k].stones == st, "group {id} lists stones {st:?} of colour {c}, expected {:?}", refs[k]);
                    cache.insert(id, k);
                    k
                }
            };
            ks.push(k);
        }
        ks.sort_unstable();
        let want: BTreeSet<usize> = r.nb(p).into_iter().filter(|&x| r.c[x] != E).map(|x| of[x]).collect();
        ensure!(ks.iter().copied().eq(want.iter().copied()), "groups next to {:?}: {ks:?}, expected {want:?}", r.coord(p));
    }
    let ids: BTreeSet<usize> = cache.values().copied().collect();
    ensure!(ids.len() == cache.len(), "one group is known under two identifiers");
    Ok(())
}

fn sorted(mut v: Vec<usize>) -> Vec<usize> {
    v.sort_unstable();
    v
}

/// Every listing of the board against the reference, each point once.
pub fn readouts(g: &Goban, r: &Grid) -> R {
    let (h, w) = (r.h, r.w);
    ensure!(g.size() == (h as u8, w as u8), "size {:?}", g.size());
    same_points(g, r)?;
    for p in 0..r.len() {
        ensure!(unmc(g.get_color(p)) == r.c[p], "get_color by index {p}");
    }
    let v: Vec<u8> = g.to_vec().into_iter().map(unmc).collect();
    ensure!(v == r.c, "to_vec: {} points\n{v:?}\nexpected {}\n{:?}", v.len(), r.len(), r.c);
    let m: Vec<Vec<u8>> = g.matrix().into_iter().map(|l| l.into_iter().map(unmc).collect()).collect();
    let wm: Vec<Vec<u8>> = r.c.chunks(w).map(|x| x.to_vec()).collect();
    ensure!(m == wm, "matrix {m:?}\nexpected {wm:?}");
    let on = |c: (u8, u8)| -> Result<usize, String> {
        ensure!((c.0 as usize) < h && (c.1 as usize) < w, "listing names {c:?}, off the board");
        Ok(r.idx(c))
    };
    let mut st = vec![];
    for s in g.get_stones() {
        let p = on(s.coord)?;
        ensure!(uncol(s.color) == r.c[p], "get_stones colour at {:?}", s.coord);
        st.push(p);
    }
    let want: Vec<usize> = (0..r.len()).filter(|&p| r.c[p] != E).collect();
    ensure!(sorted(st.clone()) == want, "get_stones {st:?} expected {want:?}");
    for c in [E, B, W] {
        let mc = if c == E { EMPTY } else { Some(col(c)) };
        let want: Vec<usize> = (0..r.len()).filter(|&p| r.c[p] == c).collect();
        let a = g.get_coords_by_color(mc).map(on).collect::<Result<Vec<_>, _>>()?;
        ensure!(sorted(a.clone()) == want, "get_coords_by_color({mc:?}) = {a:?} expected {want:?}");
        let mut b = vec![];
        for s in g.get_stones_by_color(mc) {
            ensure!(s.color == mc, "get_stones_by_color({mc:?}) yields {s:?}");
            b.push(on(s.coord)?);
        }
        ensure!(sorted(b.clone()) == want, "get_stones_by_color({mc:?}) = {b:?} expected {want:?}");
    }
    let e: Vec<usize> = g.get_empty_idx().collect();
    ensure!(sorted(e.clone()) == r.empties(), "get_empty_idx {e:?} expected {:?}", r.empties());
    let e = g.get_empty_coords().map(on).collect::<Result<Vec<_>, _>>()?;
    ensure!(sorted(e.clone()) == r.empties(), "get_empty_coords {e:?} expected {:?}", r.empties());
    ensure!(
        g.number_of_stones() == (r.count(B) as u32, r.count(W) as u32),
        "number_of_stones {:?} expected ({}, {})",
        g.number_of_stones(),
        r.count(B),
        r.count(W)
    );
    for p in 0..r.len() {
        let c = r.coord(p);
        let nb = sorted(r.nb(p));
        let mut a = vec![];
        for x in g.get_connected_points(c) {
            let q = on(x.coord)?;
            ensure!(unmc(x.color) == r.c[q], "get_connected_points({c:?}) colour of {:?}", x.coord);
            a.push(q);
        }
        ensure!(sorted(a.clone()) == nb, "get_connected_points({c:?}) {a:?} expected {nb:?}");
        let want: Vec<usize> = nb.iter().copied().filter(|&q| r.c[q] != E).collect();
        let by_point: Vec<Stone> = g.get_connected_stones(c).collect();
        let by_index: Vec<Stone> = g.get_connected_stones(p).collect();
        for (what, l) in [("point", by_point), ("index", by_index)] {
            let mut a = vec![];
            for x in l {
                let q = on(x.coord)?;
                ensure!(uncol(x.color) == r.c[q], "get_connected_stones({c:?}) by {what} colour of {:?}", x.coord);
                a.push(q);
            }
            ensure!(sorted(a.clone()) == want, "get_connected_stones({c:?}) by {what} {a:?} expected {want:?}");
        }
        let want: Vec<usize> = nb.iter().copied().filter(|&q| r.c[q] == E).collect();
        let a = g.get_liberties(c).map(on).collect::<Result<Vec<_>, _>>()?;
        ensure!(sorted(a.clone()) == want, "get_liberties({c:?}) {a:?} expected {want:?}");
        ensure!(g.has_liberties(c) != want.is_empty(), "has_liberties({c:?})");
    }
    let s = g.pretty_string();
    let lines: Vec<Vec<char>> = s.lines().map(|l| l.chars().collect()).collect();
    ensure!(lines.len() == h && lines.iter().all(|l| l.len() == w), "diagram is not {h}x{w}:\n{s}");
    for p in 0..r.len() {
        let ch = lines[p / w][p % w];
        let got = match ch {
            '●' => B,
            '○' => W,
            _ => E,
        };
        ensure!(got == r.c[p], "diagram at {:?} shows {ch}\n{s}", r.coord(p));
    }
    ensure!(format!("{g}") == s, "Display differs from pretty_string");
    Ok(())
}

/// Territory and regions.
pub fn territory_audit(g: &Goban, r: &Grid) -> R {
    let (tb, tw) = r.territory();
    let (a, b) = g.get_territories();
    let conv = |l: Vec<Point>| -> Result<Vec<usize>, String> {
        let mut v = vec![];
        for x in l {
            ensure!(x.color == EMPTY, "territory lists {x:?}");
            ensure!((x.coord.0 as usize) < r.h && (x.coord.1 as usize) < r.w, "territory lists {x:?}, off the board");
            v.push(r.idx(x.coord));
        }
        v.sort_unstable();
        Ok(v)
    };
    let (a, b) = (conv(a.collect())?, conv(b.collect())?);
    ensure!(a == tb, "black territory {a:?} expected {tb:?}");
    ensure!(b == tw, "white territory {b:?} expected {tw:?}");
    let n = g.calculate_territories();
    ensure!(n == (tb.len(), tw.len()), "calculate_territories {n:?} expected {:?}", (tb.len(), tw.len()));
    Ok(())
}

pub fn region_audit(g: &Goban, r: &Grid, p: usize) -> R {
    let mc = if r.c[p] == E { EMPTY } else { Some(col(r.c[p])) };
    let s = g.get_group_from_point(Point { coord: r.coord(p), color: mc });
    let mut v = vec![];
    for x in &s {
        ensure!(x.color == mc, "get_group_from_point({:?}) contains {x:?}", r.coord(p));
        ensure!((x.coord.0 as usize) < r.h && (x.coord.1 as usize) < r.w, "region lists {x:?}, off the board");
        v.push(r.idx(x.coord));
    }
    v.sort_unstable();
    let want = r.region(p);
    ensure!(v == want, "region of {:?} is {v:?} expected {want:?}", r.coord(p));
    Ok(())
}

/// What a user can see of a game.
#[derive(PartialEq, Clone, Debug)]
pub struct Obs {
    pub grid: Grid,
    pub turn: u8,
    pub prisoners: (u32, u32),
    pub over: bool,
    pub outcome: Option<EndGame>,
    pub komi: f32,
    pub verdicts: Vec<Option<PlayError>>,
    pub alone: Vec<Option<PlayError>>,
    pub history: Vec<Grid>,
    pub zobrist: u64,
    pub score: (f32, f32),
    pub can_pass: bool,
}

pub fn observe(g: &Game, deep: bool) -> Obs {
    let grid = Grid::read(g.goban());
    let n = grid.len();
    let verdicts = (0..n).map(|p| g.check_point(grid.coord(p))).collect();
    let alone = if deep {
        let mut v = vec![];
        for f in [IllegalRules::KO, IllegalRules::SUPERKO, IllegalRules::SUICIDE, IllegalRules::FILLEYE] {
            for p in 0..n {
                v.push(g.check_point_by(grid.coord(p), f))
            }
        }
        v
    } else {
        vec![]
    };
    Obs {
        turn: uncol(g.turn()),
        prisoners: g.prisoners(),
        over: g.is_over(),
        outcome: g.outcome(),
        komi: g.komi(),
        verdicts,
        alone,
        history: if deep { g.history().map(Grid::read).collect() } else { vec![] },
        zobrist: g.zobrist_hash(),
        score: g.calculate_score(),
        can_pass: g.clone().try_play(Move::Pass).is_ok(),
        grid,
    }
}

pub fn obs_diff(a: &Obs, b: &Obs) -> String {
    let mut s = String::new();
    macro_rules! d {
        ($($f:ident),*) => { $( if a.$f != b.$f { s.push_str(&format!("{}: {:?} vs {:?}; ", stringify!($f), a.$f, b.$f)); } )* };
    }
    if a.grid != b.grid {
        s.push_str(&format!("board:\n{}vs\n{}", a.grid.show(), b.grid.show()));
    }
    d!(turn, prisoners, over, outcome, komi, verdicts, alone, zobrist, score, can_pass);
    if a.history != b.history {
        s.push_str(&format!("history: {} vs {} entries", a.history.len(), b.history.len()));
    }
    s
}

pub fn stone(r: &Grid, p: usize, c: u8) -> Stone {
    Stone { coord: r.coord(p), color: col(c) }
}

