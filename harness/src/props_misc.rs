//! Values that convert into each other; games that must not know of each other.
use crate::audit::*;
use crate::grid::*;
use crate::props_game::prop;
use crate::runner::*;
use crate::scen::*;
use goban::pieces::stones::{Color, MaybeColor, Point, Stone};
use goban::pieces::util::coord::{Coord, Size};
use goban::rules::game::Game;
use goban::rules::*;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};
use serde_json::json;
use std::str::FromStr;

// ---------------------------------------------------------------- C28
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Values {
    pub at: (u8, u8),
    pub color: Option<bool>,
    pub number: usize,
    pub name: String,
    pub size: (u8, u8),
    pub margin64: i32,
}
fn c28(x: &Values, rec: &mut Rec) -> R {
    let col = |w: bool| if w { Color::White } else { Color::Black };
    let mc: MaybeColor = x.color.map(col);
    // colours
    for w in [false, true] {
        let c = col(w);
        ensure!(!c == col(!w) && !!c == c && !c != c, "negation of {c:?} is {:?}", !c);
        ensure!(c.to_string() == if w { "White" } else { "Black" }, "{c:?} is printed {c}");
        ensure!(Color::from(Some(c)) == c, "{c:?} from an optional colour");
    }
    match (mc, guarded(|| Color::from(mc))) {
        (Some(c), Ok(d)) => ensure!(c == d, "{c:?} becomes {d:?}"),
        (None, Err(_)) => {}
        (a, b) => return Err(format!("the colour of {a:?} is {b:?}")),
    }
    // points, stones, coordinates, moves
    let p: Point = (x.at, mc).into();
    ensure!(p.coord == x.at && p.color == mc, "({:?}, {mc:?}) becomes {p:?}", x.at);
    ensure!(Coord::from(p) == x.at, "the coordinate of {p:?} is {:?}", Coord::from(p));
    match (mc, Stone::try_from(p)) {
        (Some(c), Ok(s)) => {
            ensure!(s.coord == x.at && s.color == c, "{p:?} becomes {s:?}");
            ensure!(s == Stone::from((x.at, c)) && Coord::from(s) == x.at, "{s:?} from its parts");
        }
        (None, Err(_)) => {}
        (_, r) => return Err(format!("{p:?} as a stone is {r:?}")),
    }
    ensure!(Move::from(x.at) == Move::Play(x.at.0, x.at.1), "{:?} as a move is {:?}", x.at, Move::from(x.at));
    // sizes
    let named = [(9usize, GobanSizes::Nine), (13, GobanSizes::Thirteen), (19, GobanSizes::Nineteen)];
    for (n, s) in named {
        ensure!(GobanSizes::from(n) == s, "{n} is the size {:?}", GobanSizes::from(n));
        ensure!(Size::from(s) == (n as u8, n as u8), "{s:?} is {:?}", Size::from(s));
        let g = Game::new(s, CHINESE);
        ensure!(g.size() == (n as u8, n as u8), "a game of size {s:?} has size {:?}", g.size());
    }
    if !named.iter().any(|s| s.0 == x.number) {
        ensure!(guarded(|| GobanSizes::from(x.number)).is_err(), "{} is accepted as a size", x.number);
    }
    let s = Size::from(GobanSizes::Custom(x.size.0 as usize, x.size.1 as usize));
    ensure!(s == x.size, "the custom size {:?} becomes {s:?}", x.size);
    // rule names
    let want = match x.name.as_str() {
        "JAP" => Some(JAPANESE),
        "CHI" => Some(CHINESE),
        _ => None,
    };
    let got = Rule::from_str(&x.name).ok();
    ensure!(got == want, "the rule {:?} is {got:?}", x.name);
    for (n, r) in [("JAP", JAPANESE), ("CHI", CHINESE)] {
        ensure!(n.parse::<Rule>() == Ok(r), "the rule {n}");
    }
    // results
    for w in [false, true] {
        let c = col(w);
        for e in [EndGame::WinnerByScore(c, x.margin64 as f32 / 64.), EndGame::WinnerByResign(c), EndGame::WinnerByTime(c), EndGame::WinnerByForfeit(c)] {
            ensure!(e.get_winner() == Some(c), "the winner of {e:?} is {:?}", e.get_winner());
        }
    }
    ensure!(EndGame::Draw.get_winner().is_none(), "a draw has a winner");
    let d = Game::default();
    ensure!(d.size() == (19, 19) && d.komi() == CHINESE.komi && d.turn() == Color::Black && d.get_stones().count() == 0 && !d.is_over(), "the default game");
    rec.nontrivial = mc.is_some() && x.at.0 != x.at.1 && x.size.0 != x.size.1;
    if want.is_some() {
        rec.tag("rule names")
    }
    Ok(())
}
fn s28(_t: bool) -> BoxedStrategy<Values> {
    let name = prop_oneof![2 => Just("JAP".to_string()), 2 => Just("CHI".to_string()), 2 => "[JACHIPjachi ]{0,4}", 1 => "\\PC{0,6}",
        1 => Just("JAPANESE".to_string()), 1 => Just("Chinese".to_string())];
    let number = prop_oneof![3 => 0usize..30, 1 => any::<usize>(), 1 => (0usize..8, prop_oneof![Just(9usize), Just(13), Just(19)]).prop_map(|(k, n)| n + k * 256)];
    (any::<(u8, u8)>(), any::<Option<bool>>(), number, name, any::<(u8, u8)>(), any::<i16>())
        .prop_map(|(at, color, number, name, size, m)| Values { at, color, number, name, size, margin64: m as i32 })
        .boxed()
}

// ---------------------------------------------------------------- C29
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Crowd {
    pub games: Vec<Scenario>,
    /// the order in which the games take their steps
    pub order: Vec<u8>,
    /// games that change to another thread half way, bit by bit
    pub hop: u8,
}
fn look(g: &Game, deep: bool) -> (Obs, Vec<Coord>, Vec<Coord>, (usize, usize)) {
    let mut f: Vec<Coord> = vec![];
    for id in g.get_floating_stones() {
        f.extend(g.chain_stones_of(id));
    }
    f.sort_unstable();
    let mut l: Vec<Coord> = g.legals().collect();
    l.sort_unstable();
    (observe(g, deep), l, f, g.calculate_territories())
}
/// The stones of a group by its identifier.
trait ChainOf {
    fn chain_stones_of(&self, id: usize) -> Vec<Coord>;
}
impl ChainOf for Game {
    fn chain_stones_of(&self, id: usize) -> Vec<Coord> {
        let r = Grid::read(self.goban());
        chain(self.goban(), &r, id).map(|(_, s)| s.into_iter().map(|p| r.coord(p)).collect()).unwrap_or_default()
    }
}
/// Hands something to a thread that the giver waits for at once: the two never touch it at the
/// same time, so whether the type can be shared between threads does not matter.
struct Handed<T>(T);
unsafe impl<T> Send for Handed<T> {}
impl<T> Handed<T> {
    fn take(self) -> T {
        self.0
    }
}
fn elsewhere<T, R>(what: T, f: impl FnOnce(T) -> R) -> std::thread::Result<R> {
    let job = Handed((what, f));
    std::thread::scope(|s| {
        s.spawn(move || {
            let (what, f) = job.take();
            Handed(f(what))
        })
        .join()
        .map(Handed::take)
    })
}
type Seen = Vec<(Obs, Vec<Coord>, Vec<Coord>, (usize, usize))>;
struct O29 {
    acts: Vec<(Act, Grid)>,
    seen: Seen,
}
impl Observer for O29 {
    fn state(&mut self, g: &mut Game, _c: &Ctx) -> R {
        self.seen.push(look(g, self.seen.len() % 8 == 0));
        Ok(())
    }
    fn after(&mut self, _g: &mut Game, c: &Ctx, s: &StepRes) -> R {
        self.acts.push((s.act.clone(), c.grid.clone()));
        Ok(())
    }
}
fn cfg29() -> Cfg {
    Cfg { rules: [35, 15, 50], sizes: [50, 30, 15, 3, 2], max_ops: 50, ..Cfg::default() }.with(Kind::Cycle, 4)
}
fn c29(x: &Crowd, rec: &mut Rec) -> R {
    let n = x.games.len();
    // each game alone, in a thread that has never seen another one
    let mut alone = vec![];
    for sc in &x.games {
        let r = elsewhere(sc, |sc| {
            let mut o = O29 { acts: vec![], seen: vec![] };
            drive(sc, &cfg29(), &mut o).map(|_| (o.acts, o.seen))
        });
        match r {
            Ok(r) => alone.push(r?),
            Err(_) => return Err("panic in a game played alone".into()),
        }
    }
    // all of them together
    let mut games: Vec<Game> = x.games.iter().map(|s| s.new_game()).collect();
    let mut at = vec![0usize; n];
    let (mut switches, mut last, mut hops) = (0u64, usize::MAX, 0u64);
    let show = |k: usize, i: usize, a: &(Obs, Vec<Coord>, Vec<Coord>, (usize, usize)), b: &(Obs, Vec<Coord>, Vec<Coord>, (usize, usize))| {
        format!("game {k} of {n} after {i} acts, alone and next to the others: {} legal {:?} vs {:?}; floating {:?} vs {:?}; territory {:?} vs {:?}", obs_diff(&a.0, &b.0), a.1, b.1, a.2, b.2, a.3, b.3)
    };
    let mut step = 0;
    loop {
        let open: Vec<usize> = (0..n).filter(|&k| at[k] <= alone[k].0.len()).collect();
        let Some(&k) = open.get(x.order[step % x.order.len()] as usize % open.len().max(1)) else { break };
        step += 1;
        let i = at[k];
        let now = look(&games[k], i % 8 == 0);
        if now != alone[k].1[i] {
            return Err(show(k, i, &alone[k].1[i], &now));
        }
        if let Some((a, g)) = alone[k].0.get(i) {
            if x.hop >> k & 1 == 1 && i == alone[k].0.len() / 2 {
                // the act takes place in another thread
                hops += 1;
                let ok = elsewhere(&mut games[k], |game| {
                    perform(game, g, a);
                })
                .is_ok();
                ensure!(ok, "panic in game {k} after {i} acts, in another thread");
            } else {
                perform(&mut games[k], g, a);
            }
        }
        at[k] += 1;
        switches += u64::from(last != k);
        last = k;
    }
    let sizes: std::collections::BTreeSet<_> = x.games.iter().map(|s| (s.h, s.w)).collect();
    rec.nontrivial = switches > 20;
    rec.tagn("changes from game to game", switches);
    rec.tagn("acts in another thread", hops);
    if sizes.len() > 1 {
        rec.tag("different board sizes")
    } else {
        rec.tag("one board size")
    }
    if rec.want_sample {
        rec.sample = Some(json!({"sizes": x.games.iter().map(|s| (s.h, s.w)).collect::<Vec<_>>(), "acts": alone.iter().map(|a| a.0.len()).collect::<Vec<_>>(), "order": x.order}));
    }
    Ok(())
}
fn s29(_t: bool) -> BoxedStrategy<Crowd> {
    // often the same scenario twice, or the same board under other rules
    (prop::collection::vec(scenario(&cfg29()), 2..4), prop::collection::vec(any::<u8>(), 4..40), any::<u8>(), 0u8..6)
        .prop_map(|(mut games, order, hop, same)| {
            let first = games[0].clone();
            match same {
                0 => games.push(first),
                1 => {
                    for g in &mut games[1..] {
                        g.h = first.h;
                        g.w = first.w;
                    }
                }
                2 => {
                    for g in &mut games[1..] {
                        let rule = g.rule.clone();
                        *g = Scenario { rule, ..first.clone() };
                    }
                }
                _ => {}
            }
            Crowd { games, order, hop }
        })
        .boxed()
}

/// The stones of one position in other games: without the past, with the other player to
/// move, under other rules, and at the same indexes on boards of another shape.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Again {
    pub sc: Scenario,
    pub every: u8,
    pub flags: u8,
    pub shape: Vec<(u8, u8)>,
    pub order: u8,
}
struct O29b<'a> {
    x: &'a Again,
    n: usize,
    games: u64,
    shapes: u64,
    differ: u64,
}
fn alone_look(g: &Game) -> Result<(Obs, Vec<Coord>, Vec<Coord>, (usize, usize)), String> {
    elsewhere(g, |g| look(g, true)).map_err(|_| "panic while a game is looked at in a fresh thread".to_string())
}
/// All that can be asked about one point.
fn ask(g: &Game, at: Coord) -> u16 {
    let mut v = unmc(g.get_color(at)) as u16;
    if v == 0 {
        for (i, c) in [Color::Black, Color::White].into_iter().enumerate() {
            let st = Stone { coord: at, color: c };
            v |= (g.check_eye(st) as u16) << (2 + i) | (g.check_suicide(st) as u16) << (4 + i);
        }
        let st = Stone { coord: at, color: g.turn() };
        v |= (g.will_capture(at) as u16) << 6 | (g.check_ko(st) as u16) << 7 | (g.check_super_ko(st) as u16) << 8;
        v |= g.check_point(at).map_or(0, |e| 1 + e as u16) << 9;
    }
    v
}
fn ask_alone(g: &Game, r: &Grid) -> Result<Vec<u16>, String> {
    elsewhere(g, |g| (0..r.len()).map(|p| ask(g, r.coord(p))).collect()).map_err(|_| "panic while the points of a game are asked for in a fresh thread".to_string())
}
impl Observer for O29b<'_> {
    fn state(&mut self, g: &mut Game, c: &Ctx) -> R {
        self.n += 1;
        if self.n % self.x.every.max(1) as usize != 0 || c.grid.has_dead() {
            return Ok(());
        }
        let other = Rule { flag_illegal: IllegalRules::from_bits_truncate(self.x.flags as u32 & 15), ..c.rule };
        let mut them: Vec<(String, Grid, Game)> = vec![];
        for (rule, white) in [(c.rule, c.turn == W), (c.rule, c.turn != W), (other, c.turn == W)] {
            them.push((format!("the same position set up, rules {:?}, white to move: {white}", rule.flag_illegal), c.grid.clone(), make_game(&c.grid, rule, Some(white))));
        }
        for &(h, w) in &self.x.shape {
            let mut r = Grid::new(h as usize, w as usize);
            if r.len() == 0 || c.grid.c.iter().skip(r.len()).any(|&v| v != E) {
                continue;
            }
            let n = r.len().min(c.grid.len());
            r.c[..n].copy_from_slice(&c.grid.c[..n]);
            if r.has_dead() || (r.h, r.w) == (c.grid.h, c.grid.w) {
                continue;
            }
            self.shapes += 1;
            them.push((format!("the stones at the same indexes of a {h}x{w} board"), r.clone(), make_game(&r, c.rule, Some(c.turn == W))));
        }
        let k = self.x.order as usize % them.len();
        them.rotate_left(k);
        let mine = look(g, true);
        let my_points = ask_alone(g, &c.grid)?;
        for (what, r, k) in &them {
            // point by point in turns
            let points = ask_alone(k, r)?;
            for p in 0..r.len() {
                let at = r.coord(p);
                if c.grid.on(at.0 as i32, at.1 as i32) {
                    let (a, want) = (ask(g, at), my_points[c.grid.idx(at)]);
                    ensure!(a == want, "the first game at {at:?}, asked in turns with {what}: {a:b}, alone {want:b}");
                }
                let a = ask(k, at);
                ensure!(a == points[p], "{what}: at {at:?}, asked in turns with the first game, {a:b}, alone {:b}", points[p]);
            }
            let here = look(k, true);
            let there = alone_look(k)?;
            self.games += 1;
            self.differ += u64::from(here.0.verdicts != mine.0.verdicts);
            ensure!(here == there, "{what}: next to the first game {} floating {:?} territory {:?}, in a fresh thread floating {:?} territory {:?}", obs_diff(&here.0, &there.0), here.2, here.3, there.2, there.3);
            // what can be said without the library
            ensure!(here.0.grid == *r, "{what}: the board is\n{}expected\n{}", here.0.grid.show(), r.show());
            let (tb, tw) = r.territory();
            ensure!(here.3 == (tb.len(), tw.len()), "{what}: territory {:?}, expected {:?} on\n{}", here.3, (tb.len(), tw.len()), r.show());
            ensure!(here.0.history.is_empty(), "{what}: a new game has a history of {} positions", here.0.history.len());
            for p in 0..r.len() {
                let (free, pl) = (r.c[p] == E, if r.c[p] == E { Some(r.play(p, here.0.turn, true)) } else { None });
                ensure!(free != (here.0.verdicts[p] == Some(PlayError::PointNotEmpty)), "{what}: {:?} is {:?} on\n{}", r.coord(p), here.0.verdicts[p], r.show());
                if let Some(pl) = pl {
                    let n = r.len();
                    ensure!((here.0.alone[2 * n + p] == Some(PlayError::Suicide)) == pl.is_suicide, "{what}: suicide at {:?} is {:?} on\n{}", r.coord(p), here.0.alone[2 * n + p], r.show());
                    ensure!(here.0.alone[p].is_none(), "{what}: a ko at {:?} in a game without moves", r.coord(p));
                    if !pl.is_suicide {
                        ensure!(here.0.alone[n + p].is_none(), "{what}: a repetition at {:?} in a game without moves", r.coord(p));
                    }
                }
            }
        }
        let again = look(g, true);
        ensure!(again == mine, "after looking at {} other games: {}", them.len(), obs_diff(&mine.0, &again.0));
        let fresh = alone_look(g)?;
        ensure!(fresh == mine, "in a fresh thread: {}", obs_diff(&mine.0, &fresh.0));
        Ok(())
    }
}
fn c29b(x: &Again, rec: &mut Rec) -> R {
    let mut o = O29b { x, n: 0, games: 0, shapes: 0, differ: 0 };
    let c = drive(&x.sc, &cfg29(), &mut o)?;
    rec.nontrivial = o.differ > 0;
    rec.tagn("games with the same stones", o.games);
    rec.tagn("of these on another shape of board", o.shapes);
    rec.tagn("of these with other verdicts", o.differ);
    if rec.want_sample {
        rec.sample = Some(json!(summary(&x.sc, &c)));
    }
    Ok(())
}
fn s29b(_t: bool) -> BoxedStrategy<Again> {
    (scenario(&cfg29()), 2u8..20, any::<u8>(), prop::collection::vec((0u8..3, 1u8..4, 1u8..=19, 1u8..=19), 0..4), any::<u8>())
        .prop_map(|(sc, every, flags, sh, order)| {
            let shape = sh
                .into_iter()
                .map(|(k, d, a, b)| match k {
                    // more rows, another width, anything
                    0 => ((sc.h + d).min(19), sc.w),
                    1 => (sc.h, (sc.w + d).min(19)),
                    _ => (a, b),
                })
                .collect();
            Again { sc, every, flags, shape, order }
        })
        .boxed()
}

pub fn table() -> Vec<(&'static str, Vec<Box<dyn Part>>)> {
    vec![
        ("C28", vec![prop!("values", "random coordinates, colours, numbers, names, sizes and margins through every conversion; non-trivial: a colour and two different coordinates", s28, c28, 200000, 2000000)]),
        ("C29", vec![prop!("games side by side", "two to four random games played each alone in a fresh thread, then together in a random order, some acts in other threads: every observation must be the same; non-trivial: over 20 changes from game to game", s29, c29, 6000, 60000),
            prop!("the same stones in other games", "games; at some states the same stones are set up without the past, with the other player to move, under other rules and at the same indexes on boards of another shape: each must show what it shows in a fresh thread and what the reference says, and the first game must not change; non-trivial: a game with the same stones had other verdicts", s29b, c29b, 7000, 100000)]),
    ]
}
