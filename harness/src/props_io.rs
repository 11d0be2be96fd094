//! Scores, SGF import, the builder, size and coordinate limits, dead stones.
use crate::audit::*;
use crate::grid::*;
use crate::props_game::prop;
use crate::runner::*;
use crate::scen::*;
use goban::pieces::goban::Goban;
use goban::pieces::stones::Color;
use goban::pieces::util::coord::Size;
use goban::rules::game::Game;
use goban::rules::*;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::HashSet;

// ---------------------------------------------------------------- C15
struct O15 {
    terr: u64,
    draws: u64,
    ends: u64,
    pris: u64,
}
pub(crate) fn score_of(r: &Grid, pris: (u32, u32), komi: f32, flags: u8) -> (f32, f32) {
    let (tb, tw) = r.territory();
    let mut b = tb.len() as f32;
    let mut w = tw.len() as f32;
    if flags & 1 != 0 {
        b += r.count(B) as f32;
        w += r.count(W) as f32;
    }
    if flags & 4 != 0 {
        b += pris.0 as f32;
        w += pris.1 as f32;
    }
    if flags & 2 != 0 {
        w += komi;
    }
    (b, w)
}
pub(crate) fn result_of((b, w): (f32, f32)) -> EndGame {
    if b == w {
        EndGame::Draw
    } else if b > w {
        EndGame::WinnerByScore(Color::Black, b - w)
    } else {
        EndGame::WinnerByScore(Color::White, w - b)
    }
}
fn judge15(g: &Game, r: &Grid) -> R {
    let pris = g.prisoners();
    for f in 0..8u8 {
        let got = g.calculate_score_by(ScoreRules::from_bits_truncate(f as u32));
        let want = score_of(r, pris, g.komi(), f);
        ensure!(got == want, "score with options {f:03b} is {got:?}, expected {want:?} (prisoners {pris:?}, komi {})", g.komi());
    }
    Ok(())
}
impl Observer for O15 {
    fn start(&mut self, g: &mut Game, c: &Ctx) -> R {
        ensure!(g.komi() == c.rule.komi, "komi is {}, the rules say {}", g.komi(), c.rule.komi);
        Ok(())
    }
    fn state(&mut self, g: &mut Game, c: &Ctx) -> R {
        let r = &c.grid;
        judge15(g, r)?;
        let flags = c.rule.flag_score.bits() as u8;
        let pris = g.prisoners();
        let own = score_of(r, pris, g.komi(), flags);
        ensure!(g.calculate_score() == own, "calculate_score {:?}, expected {own:?} under {:?}", g.calculate_score(), c.rule.flag_score);
        let (tb, tw) = r.territory();
        self.terr += u64::from(!tb.is_empty() || !tw.is_empty());
        self.pris += u64::from(pris != (0, 0));
        if c.passes >= 2 && c.resigned.is_none() {
            ensure!(g.is_over(), "two passes, not over");
            let want = result_of(own);
            ensure!(g.outcome() == Some(want), "result {:?}, expected {want:?}", g.outcome());
            self.ends += 1;
        }
        if c.resigned.is_some() {
            return Ok(());
        }
        // end the game here, on copies, with several komi values
        let base = score_of(r, pris, 0., flags);
        let even = base.0 - base.1;
        for (i, komi) in [None, Some(even), Some(even + 0.25), Some(even - 0.25), Some(even + 0.015625), Some(even - 0.0009765625), Some(even - 0.5), Some(-even), Some(7.5)]
            .into_iter()
            .enumerate()
        {
            if r.len() > 100 && i > 0 && (i + c.step) % 4 != 0 {
                continue;
            }
            let mut k = g.clone();
            if let Some(x) = komi {
                k.set_komi(x);
                ensure!(k.komi() == x, "komi set to {x}, reads {}", k.komi());
            }
            for _ in c.passes.min(2)..2 {
                k.play(Move::Pass);
            }
            ensure!(k.is_over(), "two passes, not over");
            let sc = score_of(r, pris, k.komi(), flags);
            let got = k.calculate_score();
            ensure!(got == sc, "with komi {} the score is {got:?}, expected {sc:?}", k.komi());
            let want = result_of(sc);
            ensure!(k.outcome() == Some(want), "score {sc:?}, result {:?}, expected {want:?}", k.outcome());
            ensure!(k.outcome().and_then(|o| o.get_winner()) == if sc.0 > sc.1 { Some(Color::Black) } else if sc.0 < sc.1 { Some(Color::White) } else { None }, "winner of {:?}", k.outcome());
            self.draws += u64::from(want == EndGame::Draw);
            if i % 3 == 0 {
                judge15(&k, r)?;
            }
        }
        Ok(())
    }
}
pub(crate) fn cfg15() -> Cfg {
    Cfg { rules: [30, 30, 40], sizes: [36, 34, 22, 6, 2], max_ops: 120, ..Cfg::default() }.with(Kind::Resign, 1)
}
fn s15(_t: bool) -> BoxedStrategy<Scenario> {
    scenario(&cfg15())
}
fn c15(sc: &Scenario, rec: &mut Rec) -> R {
    ensure!(JAPANESE.komi == 6.5 && JAPANESE.flag_score.bits() == 6, "the Japanese rules score {:?} with komi {}", JAPANESE.flag_score, JAPANESE.komi);
    ensure!(JAPANESE.flag_illegal.bits() == 5, "the Japanese rules forbid {:?}", JAPANESE.flag_illegal);
    ensure!(CHINESE.flag_illegal.bits() == 7, "the Chinese rules forbid {:?}", CHINESE.flag_illegal);
    ensure!(CHINESE.komi == 7.5 && CHINESE.flag_score.bits() == 3, "the Chinese rules score {:?} with komi {}", CHINESE.flag_score, CHINESE.komi);
    let mut o = O15 { terr: 0, draws: 0, ends: 0, pris: 0 };
    let c = drive(sc, &cfg15(), &mut o)?;
    rec.nontrivial = o.terr > 0 && o.pris > 0;
    rec.tagn("positions with territory", o.terr);
    rec.tagn("positions with prisoners", o.pris);
    rec.tagn("draws by komi", o.draws);
    rec.tagn("games ended by passes", o.ends);
    if rec.want_sample {
        rec.sample = Some(json!(summary(sc, &c)));
    }
    Ok(())
}

// ---------------------------------------------------------------- SGF text
fn let_of(v: usize) -> char {
    (b'a' + v as u8) as char
}
/// Column first, then row.
fn sgf_pt(g: &Grid, p: usize) -> String {
    format!("{}{}", let_of(p % g.w), let_of(p / g.w))
}
fn sgf_size(g: &Grid) -> String {
    if g.h == g.w {
        format!("SZ[{}]", g.h)
    } else {
        format!("SZ[{}:{}]", g.w, g.h)
    }
}
/// A file with these stones and nothing else.
pub fn sgf_of_grid(g: &Grid) -> String {
    let mut s = format!("(;GM[1]FF[4]{}", sgf_size(g));
    for (c, k) in [(B, "AB"), (W, "AW")] {
        if g.count(c) > 0 {
            s.push_str(k);
            for p in 0..g.len() {
                if g.c[p] == c {
                    s.push_str(&format!("[{}]", sgf_pt(g, p)));
                }
            }
        }
    }
    s.push(')');
    s
}

// ---------------------------------------------------------------- C19
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Record {
    pub h: u8,
    pub w: u8,
    /// leave out SZ (19x19 only)
    pub nosize: bool,
    /// 0 none, 1 Japanese, 2 Chinese
    pub ru: u8,
    pub km4: Option<i16>,
    pub ha: Option<u8>,
    pub pl: Option<bool>,
    pub re: u8,
    pub margin: u8,
    pub setup: Vec<SetupItem>,
    /// (kind, choice)
    pub ops: Vec<RawOp>,
    /// drives layout only
    pub fmt: Vec<u16>,
    pub root_move: bool,
}
struct Layout<'a> {
    v: &'a [u16],
    i: usize,
}
impl Layout<'_> {
    fn next(&mut self) -> usize {
        if self.v.is_empty() {
            return 0;
        }
        let x = self.v[self.i % self.v.len()] as usize;
        let x = (x + (self.i / self.v.len()) * 7919) % 65536;
        self.i += 1;
        x
    }
    fn below(&mut self, n: usize) -> usize {
        self.next() * n / 65536
    }
    fn ws(&mut self) -> &'static str {
        match self.below(12) {
            10 => "\n",
            9 => " ",
            11 => "  \r\n ",
            _ => "",
        }
    }
    fn shuffle<T>(&mut self, l: &mut [T]) {
        for i in (1..l.len()).rev() {
            let j = self.below(i + 1);
            l.swap(i, j);
        }
    }
    fn annotation(&mut self, g: &Grid) -> String {
        let p = self.below(g.len());
        let pt = sgf_pt(g, p);
        match self.below(14) {
            0 => "C[B[aa\\];W[bb\\] (not a move); PL[W\\]]".into(),
            1 => "C[SZ 5 AB aa]".into(),
            2 => format!("BL[{}]", self.below(1000)),
            3 => format!("WL[{}]", self.below(1000)),
            4 => format!("OB[{}]", self.below(30)),
            5 => format!("TR[{pt}]SQ[{pt}]"),
            6 => format!("LB[{pt}:{}]", let_of(self.below(26))),
            7 => "N[node name]".into(),
            8 => "GB[1]".into(),
            9 => "MN[5]".into(),
            10 => format!("CR[{pt}]"),
            11 => "XX[aa][bb] [cc]".into(),
            12 => "C[]".into(),
            _ => "VW[]DM[1]".into(),
        }
    }
}
pub struct RecInfo {
    pub sgf: String,
    grid: Grid,
    pris: (u32, u32),
    turn: u8,
    moves: Vec<(u8, Option<usize>)>,
    start: Grid,
    odd: usize,
    caps: usize,
    variations: usize,
    outcome: Option<EndGame>,
    first_turn: u8,
    rule: Rule,
}
pub fn record(x: &Record) -> RecInfo {
    let (h, w) = if x.nosize { (19, 19) } else { (x.h as usize, x.w as usize) };
    let start = setup_grid(h, w, &x.setup);
    let mut lay = Layout { v: &x.fmt, i: 0 };
    let mut rule = match x.ru {
        1 => JAPANESE,
        _ => CHINESE,
    };
    // root
    let mut props: Vec<String> = vec![];
    if !x.nosize {
        if h == w && lay.below(8) == 0 {
            props.push(format!("SZ[{w}:{h}]"));
        } else {
            props.push(sgf_size(&start));
        }
    }
    match x.ru {
        1 => props.push("RU[Japanese]".into()),
        2 => props.push("RU[Chinese]".into()),
        _ => {}
    }
    if let Some(k) = x.km4 {
        rule.komi = k as f32 / 4.;
        props.push(format!("KM[{}]", rule.komi));
    }
    if let Some(n) = x.ha {
        props.push(format!("HA[{n}]"));
    }
    let first_turn = match x.pl {
        Some(true) => W,
        Some(false) => B,
        None if x.ha.is_some_and(|n| n > 0) => W,
        None => B,
    };
    if let Some(p) = x.pl {
        props.push(format!("PL[{}]", if p { "W" } else { "B" }));
    }
    let m = x.margin as f32 / [2., 2., 4., 8., 0.5][x.margin as usize % 5];
    let (re, outcome) = match x.re % 12 {
        0 => ("B+R".to_string(), Some(EndGame::WinnerByResign(Color::Black))),
        1 => ("W+Resign".into(), Some(EndGame::WinnerByResign(Color::White))),
        2 => ("W+T".into(), Some(EndGame::WinnerByTime(Color::White))),
        3 => ("B+Forfeit".into(), Some(EndGame::WinnerByForfeit(Color::Black))),
        4 => (format!("B+{m}"), Some(EndGame::WinnerByScore(Color::Black, m))),
        5 => (format!("W+{m}"), Some(EndGame::WinnerByScore(Color::White, m))),
        6 => ("Draw".into(), Some(EndGame::Draw)),
        7 => ("W+F".into(), Some(EndGame::WinnerByForfeit(Color::White))),
        8 => ("B+Time".into(), Some(EndGame::WinnerByTime(Color::Black))),
        9 => ("0".into(), Some(EndGame::Draw)),
        _ => (String::new(), None),
    };
    if !re.is_empty() {
        props.push(format!("RE[{re}]"));
    }
    for (c, k) in [(B, "AB"), (W, "AW")] {
        let mut pts: Vec<usize> = (0..start.len()).filter(|&p| start.c[p] == c).collect();
        lay.shuffle(&mut pts);
        let mut s = String::new();
        for (i, p) in pts.iter().enumerate() {
            if i == 0 || lay.below(9) == 0 {
                if !s.is_empty() {
                    props.push(std::mem::take(&mut s));
                }
                s.push_str(k);
            }
            s.push_str(lay.ws());
            s.push_str(&format!("[{}]", sgf_pt(&start, *p)));
        }
        if !s.is_empty() {
            props.push(s);
        }
    }
    for (i, t) in ["GM[1]", "FF[4]", "PB[Black \\] player]", "PW[white; (x)]", "CA[UTF-8]", "AP[thing:1.0]", "DT[2020-01-01]", "BR[3d]", "ST[2]", "TM[600]", "EV[cup]", "GN[game]", "C[root; B[aa\\] W[bb\\]]", "US[me]"]
        .into_iter()
        .enumerate()
    {
        if lay.below(if i < 2 { 2 } else { 5 }) == 0 {
            props.push(t.into());
        }
    }
    // moves
    let mut grid = start.clone();
    let mut turn = first_turn;
    let mut pris = (0u32, 0u32);
    let mut passes = 0;
    let mut seen: HashSet<Vec<u8>> = HashSet::new();
    seen.insert(grid.c.clone());
    let (mut moves, mut odd, mut caps) = (vec![], 0, 0);
    for op in &x.ops {
        if passes >= 2 {
            break;
        }
        let flip = op.k >= 226 && op.k < 240 || op.k >= 253;
        let c = if flip { opp(turn) } else { turn };
        let pass = op.k >= 240;
        let e = grid.empties();
        let a = op.a as usize;
        // prefer captures for a third of the moves
        let mut cand: Vec<usize> = vec![];
        if op.k % 3 == 0 {
            cand = grid.groups().into_iter().filter(|y| y.color != c && y.libs.len() <= 2).flat_map(|y| y.libs).collect();
        }
        if cand.is_empty() {
            cand = e;
        }
        let s = if cand.is_empty() { 0 } else { a * cand.len() / 65536 };
        let p = if pass {
            None
        } else {
            (0..cand.len()).map(|i| cand[(s + i) % cand.len()]).find(|&p| {
                let r = grid.play(p, c, false);
                !r.is_suicide && !seen.contains(&r.grid.c)
            })
        };
        match p {
            Some(p) => {
                odd += usize::from(c != turn);
                let r = grid.play(p, c, false);
                let n = r.captured.len() as u32;
                caps += usize::from(n > 0);
                if c == B {
                    pris.0 += n
                } else {
                    pris.1 += n
                }
                grid = r.grid;
                seen.insert(grid.c.clone());
                passes = 0;
                moves.push((c, Some(p)));
                turn = opp(c);
            }
            None => {
                odd += usize::from(pass && c != turn);
                passes += 1;
                let c = if pass { c } else { turn };
                moves.push((c, None));
                turn = opp(c);
            }
        }
    }
    // text
    let mut s = String::from("(");
    s.push_str(lay.ws());
    s.push(';');
    let mv = |lay: &mut Layout, m: &(u8, Option<usize>)| -> String {
        let k = if m.0 == B { "B" } else { "W" };
        match m.1 {
            Some(p) => format!("{k}{}[{}]", lay.ws(), sgf_pt(&start, p)),
            None if lay.below(2) == 0 => format!("{k}[tt]"),
            None => format!("{k}[]"),
        }
    };
    let mut rest = &moves[..];
    if x.root_move && !moves.is_empty() {
        let t = mv(&mut lay, &moves[0]);
        props.push(t);
        rest = &moves[1..];
    }
    lay.shuffle(&mut props);
    for p in props {
        s.push_str(lay.ws());
        s.push_str(&p);
        s.push_str(lay.ws());
    }
    let mut open = 0;
    let mut variations = 0;
    // now and then nearly every move opens a line of its own
    let deep = if x.fmt.first().is_some_and(|f| f % 16 == 5) { 240 } else { 12 };
    for m in rest {
        match lay.below(if deep > 12 { 3 } else { 20 }) {
            0 if open < deep => {
                s.push('(');
                open += 1;
            }
            1 => s.push_str(&format!(";{}", lay.annotation(&start))),
            2 => s.push(';'),
            _ => {}
        }
        s.push_str(lay.ws());
        s.push(';');
        s.push_str(lay.ws());
        let mut l = vec![mv(&mut lay, m)];
        while lay.below(3) == 0 && l.len() < 5 {
            l.push(lay.annotation(&start));
        }
        lay.shuffle(&mut l);
        for t in l {
            s.push_str(&t);
            s.push_str(lay.ws());
        }
    }
    if open > 0 && s.ends_with('(') {
        s.push(';');
    }
    // close, adding side lines after the main one
    for _ in 0..open {
        s.push(')');
        while lay.below(3) > 0 && variations < 20 {
            let (p, q) = (lay.below(start.len()), lay.below(start.len()));
            s.push_str(lay.ws());
            s.push_str(&match lay.below(5) {
                0 => format!("(;B[{}];W[{}])", sgf_pt(&start, p), sgf_pt(&start, q)),
                1 => format!("(;W[{0}];W[{0}];B[])", sgf_pt(&start, p)),
                2 => format!("(;C[side];AB[{}](;B[{}])(;W[]))", sgf_pt(&start, p), sgf_pt(&start, q)),
                3 => "(;PL[B];B[zz])".into(),
                _ => format!("(;RE[B+99]KM[55.5]HA[7];W[{}])", sgf_pt(&start, q)),
            });
            variations += 1;
        }
        s.push_str(lay.ws());
    }
    s.push(')');
    if lay.below(3) == 0 {
        s.push('\n');
    }
    RecInfo { sgf: s, grid, pris, turn, moves, start, odd, caps, variations, outcome, first_turn, rule }
}
fn c19_long(x: &Record, rec: &mut Rec) -> R {
    c19(x, rec)?;
    rec.nontrivial = record(x).moves.len() > 150;
    Ok(())
}
fn c19(x: &Record, rec: &mut Rec) -> R {
    let i = record(x);
    note(|| i.sgf.clone());
    let g = guarded(|| Game::from_sgf(&i.sgf)).map_err(|m| format!("panic: {m}\n{}", i.sgf))?;
    let g = g.map_err(|m| format!("refused: {m}\n{}", i.sgf))?;
    let r = &i.grid;
    let verdict = || -> R {
        ensure!(g.size() == (r.h as u8, r.w as u8), "size {:?}, recorded {} rows and {} columns", g.size(), r.h, r.w);
        let got = Grid::read(g.goban());
        ensure!(got == *r, "board\n{}expected\n{}", got.show(), r.show());
        ensure!(uncol(g.turn()) == i.turn, "turn {:?}", g.turn());
        ensure!(g.prisoners() == i.pris, "prisoners {:?}, expected {:?}", g.prisoners(), i.pris);
        ensure!(g.komi() == i.rule.komi, "komi {}, expected {}", g.komi(), i.rule.komi);
        let passes = i.moves.iter().rev().take_while(|m| m.1.is_none()).count();
        ensure!(g.is_over() == (passes >= 2 || i.outcome.is_some()), "is_over {}", g.is_over());
        if let Some(o) = i.outcome {
            ensure!(g.outcome() == Some(o), "result {:?}, recorded {o:?}", g.outcome());
        }
        groups_audit(g.goban(), r)?;
        // the same game made by hand
        let mut b = Game::builder();
        b.size((r.h as u8, r.w as u8)).rule(i.rule).turn(col(i.first_turn));
        for p in 0..i.start.len() {
            if i.start.c[p] != E {
                b.add(stone(&i.start, p, i.start.c[p]));
            }
        }
        if let Some(o) = i.outcome {
            b.outcome(o);
        }
        let mut m = vec![];
        let mut t = i.first_turn;
        let mut same = true;
        for &(c, p) in &i.moves {
            same |= p.is_some();
            if c != t && p.is_none() {
                // a pass out of turn: the other player stays to move, and when a stone follows
                // there is nothing else to see of it
                same = false;
                continue;
            }
            if c != t {
                m.push(Move::Pass);
            }
            m.push(match p {
                Some(p) => Move::Play(r.coord(p).0, r.coord(p).1),
                None => Move::Pass,
            });
            t = opp(c);
        }
        if !same {
            return Ok(());
        }
        let k = b.moves(&m).build()?;
        let (a, b) = (observe(&g, true), observe(&k, true));
        ensure!(a == b, "imported and hand-made game differ: {}", obs_diff(&a, &b));
        Ok(())
    };
    verdict().map_err(|m| format!("{m}\n{}", i.sgf))?;
    rec.nontrivial = i.moves.len() > 3 && (r.h != r.w || i.odd > 0 || i.variations > 0 || i.caps > 0);
    if r.h != r.w {
        rec.tag("non-square");
    }
    rec.tagn("moves", i.moves.len() as u64);
    rec.tagn("moves out of turn", i.odd as u64);
    rec.tagn("captures", i.caps as u64);
    rec.tagn("side lines", i.variations as u64);
    rec.tagn("recorded results", i.outcome.is_some() as u64);
    if rec.want_sample {
        rec.sample = Some(json!(i.sgf.chars().take(600).collect::<String>()));
    }
    Ok(())
}
/// Records of hundreds to thousands of moves.
fn s19_long(t: bool) -> BoxedStrategy<Record> {
    (s19(t), prop_oneof![Just(200usize), Just(361), Just(400), Just(700), Just(1500), Just(4000)], any::<u64>())
        .prop_map(|(mut x, n, mut z)| {
            if x.ops.is_empty() {
                x.ops.push(RawOp { k: 0, a: 0 });
            }
            // repeat the operations with fresh choices
            let l = x.ops.len();
            for i in l..n {
                z = z.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
                let mut o = x.ops[i % l].clone();
                o.a = (z >> 40) as u16;
                if o.k >= 240 && (x.ops[i - 1].k >= 240 || z >> 60 != 0) {
                    o.k = (z >> 32) as u8 % 220;
                }
                x.ops.push(o);
            }
            x
        })
        .boxed()
}
pub fn s19(_t: bool) -> BoxedStrategy<Record> {
    (
        (size_strategy([30, 30, 20, 8, 12]), prop::bool::weighted(0.08), 0u8..3, prop::option::of(-60i16..80), prop::option::weighted(0.3, prop_oneof![4 => 0u8..10, 1 => any::<u8>()]), prop::option::weighted(0.25, any::<bool>())),
        (any::<u8>(), any::<u8>(), setup_strategy(), ops_strategy(120), prop::collection::vec(any::<u16>(), 1..200), prop::bool::weighted(0.1)),
    )
        .prop_map(|(((h, w), nosize, ru, km4, ha, pl), (re, margin, setup, ops, fmt, root_move))| Record { h, w, nosize, ru, km4, ha, pl, re, margin, setup, ops, fmt, root_move })
        .boxed()
}

// ---------------------------------------------------------------- C20
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Nasty {
    /// pieces glued together
    Tokens { bytes: bool, parts: Vec<(u8, u16, u16)> },
    /// a valid record with edits (kind, position, value)
    Mutated { base: Record, edits: Vec<(u8, u16, u16)> },
    /// free text
    Text(String),
    /// long and deep records: the pieces (kind, choice, value, times) one after another
    Big { root: u8, parts: Vec<(u8, u16, u16, u16)>, close: u16 },
}
const IDENTS: &[&str] = &["B", "W", "AB", "AW", "SZ", "HA", "KM", "RU", "RE", "PL", "GM", "FF", "C", "LB", "TR", "AE", "CA", "AP", "ST", "TM", "BL", "OB", "XY", "Black", "b", "PlayeR"];
const VALUES: &[&str] = &[
    "", "aa", "tt", "ss", "zz", "AA", "ZZ", "a", "aaa", "aa:cc", "19", "0", "1", "2", "9", "13", "20", "25", "255", "256", "257", "275", "512", "4294967295", "4294967296", "-1", "19:19", "9:13", "13:9", "0:0", "1:19", "20:1",
    "1:20", "256:256", "275:275", "9:", ":9", "9:9:9", "6.5", "NaN", "inf", "-inf", "1e40", "Japanese", "Chinese", "AGA", "NZ", "GOE", "weird", "B", "W", "b", "black", "1:", "B+R", "W+3.5", "B+NaN", "W+inf", "Draw", "0",
    "Void", "?", "B+", "+", "B+T+R", "B+-3", "utf-8", "é", "日本", "`a", "a`", "{a", "~~", "\\]", " ", "s", "as", "sa", "bt", "tb", "ta", "\u{0}\u{1}", "2", "3", "11", "17", "40",
];
pub fn nasty_text(x: &Nasty) -> (String, u64) {
    let mut excluded = 0;
    let s = match x {
        Nasty::Text(s) => s.clone(),
        Nasty::Big { root, parts, close } => {
            let mut s = String::from(["(;", "(;SZ[9]", "(;SZ[19:7]", "(", "((", ""][*root as usize % 6]);
            for &(k, a, b, times) in parts {
                let id = IDENTS[a as usize % IDENTS.len()];
                let val = VALUES[b as usize % VALUES.len()];
                let pt = format!("{}{}", let_of((b % 20) as usize), let_of((b as usize / 20) % 20));
                let c = ["B", "W"][a as usize % 2];
                let piece = match k % 16 {
                    0 => "(".to_string(),
                    1 => "(;".to_string(),
                    2 => format!("(;{c}[{pt}]"),
                    3 => "(;C[a(b\\](c]".to_string(),
                    4 => "()".to_string(),
                    5 => format!("(;{c}[{pt}])"),
                    6 => ";".to_string(),
                    7 => format!(";{c}[{pt}]"),
                    8 => format!("[{pt}]"),
                    9 => format!("{id}[{val}]"),
                    10 => val.to_string(),
                    11 => [" ", "\n", "\r\n", "\t"][a as usize % 4].to_string(),
                    12 => ")".to_string(),
                    13 => format!(";{c}[{}{}];{}[{}{}]", let_of((b % 9) as usize), let_of((b as usize / 9) % 9), ["W", "B"][a as usize % 2], let_of((b as usize / 81) % 9), let_of((b as usize / 729) % 9)),
                    14 => "\\".to_string(),
                    _ => id.to_string(),
                };
                // one to 40,000 times, every order of magnitude alike; not so often where
                // the time is quadratic
                let most = if matches!(k % 16, 9 | 8) { 7 } else { 16 };
                let n = 1usize << (times as usize % most);
                let n = n + times as usize / 16 % n;
                for _ in 0..n.min(40_000) {
                    s.push_str(&piece);
                }
            }
            for _ in 0..*close {
                s.push(')');
            }
            s
        }
        Nasty::Tokens { bytes, parts } => {
            let mut s = String::from(if *bytes { "" } else { "(;" });
            let mut depth = 1;
            for &(k, a, b) in parts {
                let id = IDENTS[a as usize % IDENTS.len()];
                let val = VALUES[b as usize % VALUES.len()];
                let pt = || format!("{}{}", let_of((b % 26) as usize), let_of((b as usize / 26) % 26));
                match k {
                    0..=59 => s.push_str(&format!("{id}[{val}]")),
                    60..=99 => s.push_str(&format!("{}[{}]", ["B", "W", "AB", "AW"][a as usize % 4], pt())),
                    100..=139 => s.push_str(&format!(";{}[{}]", ["B", "W"][a as usize % 2], pt())),
                    140..=159 => s.push_str(&format!(";{}[]", ["B", "W"][a as usize % 2])),
                    160..=174 => s.push_str(&format!("SZ[{}]", [1, 2, 3, 5, 9, 13, 19, 20, 0, 256 + 9][a as usize % 10])),
                    175..=189 => s.push_str(&format!("SZ[{}:{}]", a % 22, b % 22)),
                    190..=199 => s.push(';'),
                    200..=206 if depth < 20 => {
                        s.push('(');
                        depth += 1;
                    }
                    207..=213 => s.push(')'),
                    214..=219 => s.push_str(&format!("[{val}]")),
                    220..=225 => s.push_str(id),
                    226..=230 => s.push_str([" ", "\n", "\t", "\r\n", "\u{feff}"][a as usize % 5]),
                    231..=235 => s.push_str(&format!("{id}[{val}][{val}]")),
                    236..=240 => s.push_str(&format!(";C[{val}]{}[{}]", ["B", "W"][a as usize % 2], pt())),
                    241..=244 => s.push_str(val),
                    _ => s.push_str(&format!("{}[{}{}]", ["B", "W", "AB", "AW", "TR"][a as usize % 5], ((b & 127) as u8) as char, ((b >> 8 & 127) as u8) as char)),
                }
            }
            if !*bytes {
                for _ in 0..depth {
                    s.push(')')
                }
            }
            s
        }
        Nasty::Mutated { base, edits } => {
            let mut v: Vec<char> = record(base).sgf.chars().collect();
            for &(k, a, b) in edits {
                if v.is_empty() {
                    break;
                }
                let i = a as usize * v.len() / 65536;
                match k % 10 {
                    0 => {
                        v.remove(i);
                    }
                    1 => v.truncate(i),
                    2 => v[i] = (b'a' + (b % 26) as u8) as char,
                    3 => v[i] = (32 + b % 95) as u8 as char,
                    4 => v.insert(i, ['[', ']', ';', '(', ')', '\\', 'é', '\u{0}', '9', ':'][b as usize % 10]),
                    5 => {
                        // repeat a stretch
                        let j = (i + b as usize % 40).min(v.len());
                        let part: Vec<char> = v[i..j].to_vec();
                        v.splice(i..i, part);
                    }
                    6 => {
                        let j = (i + b as usize % 30).min(v.len());
                        v.drain(i..j);
                    }
                    7 => {
                        // move digits around: change a number
                        if let Some(j) = (i..v.len()).find(|&j| v[j].is_ascii_digit()) {
                            v[j] = (b'0' + (b % 10) as u8) as char;
                        }
                    }
                    8 => {
                        let val = VALUES[b as usize % VALUES.len()];
                        if let Some(j) = (i..v.len()).find(|&j| v[j] == '[') {
                            if let Some(e) = (j..v.len()).find(|&e| v[e] == ']') {
                                v.splice(j + 1..e, val.chars());
                            }
                        }
                    }
                    _ => {
                        let id = IDENTS[b as usize % IDENTS.len()];
                        if let Some(j) = (i..v.len()).find(|&j| v[j] == '[') {
                            let st = (0..j).rev().take_while(|&q| v[q].is_ascii_alphabetic()).last().unwrap_or(j);
                            v.splice(st..j, id.chars());
                        }
                    }
                }
            }
            v.into_iter().collect()
        }
    };
    // known crashes inside the parsing dependency are kept out and counted
    let s = neutralise(&s, &mut excluded);
    (s, excluded)
}
/// KF-1: a point (a two-byte value, or the first two bytes of a label value) with a byte
/// below 38 overflows in sgf_parser.
/// KF-2: a label value of four bytes or more whose second byte is not the end of a
/// character, or whose text after the point starts with a multi-byte character,
/// splits inside a character in sgf_parser.
/// Both are recognised on the text between brackets, whatever the identifier.
pub fn dependency_crash(v: &str, profile_checks: bool) -> Option<&'static str> {
    if v.len() == 2 && v.bytes().any(|b| b < 38) && profile_checks {
        return Some("KF-1");
    }
    if v.len() >= 4 && v.bytes().take(2).any(|b| b < 38) && profile_checks {
        return Some("KF-1");
    }
    if v.len() >= 4 && (!v.is_char_boundary(2) || !v.is_char_boundary(3)) {
        return Some("KF-2");
    }
    None
}
fn neutralise(s: &str, n: &mut u64) -> String {
    let mut out = String::with_capacity(s.len());
    let mut it = s.char_indices().peekable();
    while let Some((i, c)) = it.next() {
        out.push(c);
        if c != '[' {
            continue;
        }
        // the value runs to the first unescaped bracket
        let rest = &s[i + 1..];
        let mut end = None;
        let mut k = 0;
        let b = rest.as_bytes();
        while k < b.len() {
            if b[k] == b'\\' && k + 1 < b.len() && b[k + 1] == b']' {
                k += 2;
                continue;
            }
            if b[k] == b']' {
                end = Some(k);
                break;
            }
            k += 1;
        }
        if let Some(e) = end {
            if dependency_crash(&rest[..e], true).is_some() {
                *n += 1;
                out.push_str("zz");
                while it.peek().is_some_and(|&(j, _)| j < i + 1 + e) {
                    it.next();
                }
            }
        }
    }
    out
}
/// The size the text asks for: Some only if it is beyond doubt.
fn asked_size(s: &str) -> Option<(u64, u64)> {
    // root node only: from the first ';' to the next unbracketed ';', '(' or ')'
    let b: Vec<char> = s.chars().collect();
    let mut i = b.iter().position(|&c| c == ';')? + 1;
    // the text has to open with the root node, the parser ignores what follows a closed tree
    if b[..i].iter().filter(|c| !matches!(c, ' ' | '\n' | '\r')).collect::<String>() != "(;" {
        return None;
    }
    let mut id = String::new();
    let mut sizes = vec![];
    let mut last = String::new();
    while i < b.len() {
        match b[i] {
            '[' => {
                let mut v = String::new();
                i += 1;
                loop {
                    match b.get(i)? {
                        '\\' if b.get(i + 1) == Some(&']') => {
                            v.push_str("\\]");
                            i += 2;
                        }
                        ']' => break,
                        c => {
                            v.push(*c);
                            i += 1;
                        }
                    }
                }
                if !id.is_empty() {
                    last = std::mem::take(&mut id);
                }
                let up: String = last.chars().filter(|c| c.is_uppercase()).collect();
                if up == "SZ" {
                    sizes.push(v);
                }
            }
            ';' | '(' | ')' => break,
            c if c.is_ascii_alphabetic() => id.push(c),
            ' ' | '\n' | '\r' => {}
            _ => return None,
        }
        i += 1;
    }
    let num = |t: &str| -> Option<u64> {
        if t.is_empty() || !t.bytes().all(|c| c.is_ascii_digit()) {
            None
        } else {
            t.parse().ok().filter(|&n: &u64| n <= u32::MAX as u64)
        }
    };
    match &sizes[..] {
        [] => Some((19, 19)),
        [v] => match v.split_once(':') {
            Some((c, r)) => Some((num(r)?, num(c)?)),
            None => num(v).map(|n| (n, n)),
        },
        _ => None,
    }
}
fn c20_text(s: &str, rec: &mut Rec) -> R {
    let short = || s.chars().take(1500).collect::<String>();
    let res = guarded(|| Game::from_sgf(s)).map_err(|m| format!("panic: {m}\ntext: {:?}", short()))?;
    match res {
        Err(_) => {
            rec.tag("refused");
            rec.nontrivial = s.contains('[');
        }
        Ok(g) => {
            rec.tag("accepted");
            let (h, w) = g.size();
            ensure!((1..=19).contains(&h) && (1..=19).contains(&w), "accepted with size {:?}: {:?}", g.size(), short());
            if let Some(a) = asked_size(s) {
                rec.tag("accepted with a known size request");
                ensure!(a == (h as u64, w as u64), "accepted with size {:?}, asked for {a:?} (rows, columns): {:?}", g.size(), short());
            }
            let r = Grid::read(g.goban());
            let ok = || -> R {
                groups_audit(g.goban(), &r)?;
                readouts(g.goban(), &r)?;
                let _ = observe(&g, false);
                let (b, w) = g.prisoners();
                ensure!(b < 100_000 && w < 100_000, "prisoners {b} {w}");
                if !g.is_over() {
                    let mut k = g.clone();
                    let l: Vec<_> = k.legals().take(1).collect();
                    if let Some(&(x, y)) = l.first() {
                        ensure!(k.try_play(Move::Play(x, y)).is_ok(), "a legal move is refused");
                        groups_audit(k.goban(), &Grid::read(k.goban()))?;
                    }
                }
                Ok(())
            };
            guarded(ok).map_err(|m| format!("the imported game is broken, panic: {m}\ntext: {:?}", short()))?.map_err(|m| format!("the imported game is broken: {m}\ntext: {:?}", short()))?;
            rec.nontrivial = r.count(B) + r.count(W) > 0;
        }
    }
    if rec.want_sample {
        rec.sample = Some(json!(s.chars().take(400).collect::<String>()));
    }
    Ok(())
}
fn c20(x: &Nasty, rec: &mut Rec) -> R {
    let (s, ex) = nasty_text(x);
    rec.excluded = ex;
    note(|| s.clone());
    match x {
        Nasty::Tokens { .. } => rec.tag("assembled tokens"),
        Nasty::Mutated { .. } => rec.tag("mutated records"),
        Nasty::Text(_) => rec.tag("free text"),
        Nasty::Big { .. } => rec.tag("long and deep records"),
    }
    if !matches!(x, Nasty::Big { .. }) {
        return c20_text(&s, rec);
    }
    // with the stack a thread has as a rule
    std::thread::scope(|t| {
        let h = std::thread::Builder::new().stack_size(2 << 20).spawn_scoped(t, || c20_text(&s, rec));
        h.unwrap().join().unwrap_or_else(|_| Err("the import panicked".into()))
    })?;
    rec.nontrivial = s.len() > 1000;
    rec.tagn("thousands of bytes", s.len() as u64 / 1000);
    Ok(())
}
pub fn s20_big(_t: bool) -> BoxedStrategy<Nasty> {
    (any::<u8>(), prop::collection::vec((any::<u8>(), any::<u16>(), any::<u16>(), any::<u16>()), 1..5), prop_oneof![Just(0u16), 0u16..400, any::<u16>()])
        .prop_map(|(root, parts, close)| Nasty::Big { root, parts, close })
        .boxed()
}
pub fn s20(_t: bool) -> BoxedStrategy<Nasty> {
    let edits = prop::collection::vec((any::<u8>(), any::<u16>(), any::<u16>()), 1..8);
    prop_oneof![
        4 => (prop::bool::weighted(0.1), prop::collection::vec((any::<u8>(), any::<u16>(), any::<u16>()), 0..24)).prop_map(|(bytes, parts)| Nasty::Tokens { bytes, parts }),
        4 => (s19(false), edits).prop_map(|(mut base, edits)| { base.ops.truncate(40); Nasty::Mutated { base, edits } }),
        1 => "[(;)BWASZ\\[\\]a-t:0-9 \\\\]{0,80}".prop_map(Nasty::Text),
        1 => "\\PC{0,60}".prop_map(Nasty::Text),
    ]
    .boxed()
}

// The dependency's crashes themselves, reported as known findings.
fn c20_known_cases(_t: bool) -> Vec<Value> {
    vec![json!({"sgf": "(;SZ[9];B[a#])", "kf": "KF-1"}), json!({"sgf": "(;SZ[9]LB[aé日:x])", "kf": "KF-2"})]
}
fn c20_known(v: &Value, rec: &mut Rec) -> R {
    let s = v["sgf"].as_str().unwrap();
    let kf = v["kf"].as_str().unwrap();
    match guarded(|| Game::from_sgf(s).is_ok()) {
        Ok(_) => {
            rec.tag("a listed finding no longer fails");
            Ok(())
        }
        // only a crash inside the dependency is the listed finding
        Err(m) if m.contains("sgf-parser-") || m.contains("/core/src/str/") => {
            rec.known.push(kf.to_string());
            Ok(())
        }
        Err(m) => Err(format!("panic: {m}\ntext: {s:?}")),
    }
}

// ---------------------------------------------------------------- C21
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Ask {
    pub sc: Scenario,
    /// which options are given at all: size, rule, komi, turn, handicap, handicap points, setup, moves, outcome, names
    pub given: u16,
    pub komi4: i16,
    pub ha: u8,
    pub points: Vec<u16>,
    pub outcome: u8,
    pub order: Vec<u16>,
    pub again: bool,
}
fn c21(x: &Ask, rec: &mut Rec) -> R {
    let has = |i: u32| x.given >> i & 1 == 1;
    let (h, w) = if has(0) { (x.sc.h as usize, x.sc.w as usize) } else { (19, 19) };
    let rule0 = if has(1) { x.sc.rule.rule() } else { CHINESE };
    let mut rule = rule0;
    if has(2) {
        rule.komi = x.komi4 as f32 / 4.;
    }
    // stones
    let mut grid = Grid::new(h, w);
    let mut hpts: Vec<usize> = vec![];
    if has(5) {
        for &p in &x.points {
            let p = p as usize % grid.len();
            if grid.c[p] == E && hpts.len() * 3 < grid.len() {
                grid.c[p] = B;
                hpts.push(p);
            }
        }
    }
    let mut adds: Vec<(usize, u8)> = vec![];
    if has(6) {
        let s = setup_grid(h, w, &x.sc.setup);
        for p in 0..s.len() {
            if s.c[p] != E && grid.c[p] == E {
                grid.c[p] = s.c[p];
                adds.push((p, s.c[p]));
            }
        }
    }
    // keep only positions without dead groups
    let bad: Vec<usize> = grid.groups().into_iter().filter(|g| g.libs.is_empty()).flat_map(|g| g.stones).collect();
    if !bad.is_empty() {
        for &(p, _) in &adds {
            grid.c[p] = E;
        }
        adds.clear();
    }
    if grid.has_dead() {
        for p in hpts.drain(..) {
            grid.c[p] = E;
        }
    }
    // a handicap number of zero together with handicap stones is left out: it contradicts itself
    let ha = if has(4) { Some(if hpts.is_empty() { x.ha as u32 % 10 } else { 1 + x.ha as u32 % 9 }) } else { None };
    let handicap = ha.unwrap_or(hpts.len() as u32);
    let turn = if has(3) { if x.sc.turn.unwrap_or(false) { W } else { B } } else if handicap > 0 { W } else { B };
    let start = grid.clone();
    // moves, by the reference
    let sui = !rule.flag_illegal.contains(IllegalRules::SUICIDE);
    let mut moves = vec![];
    let (mut t, mut pris, mut passes) = (turn, (0u32, 0u32), 0);
    let mut hist: Vec<Grid> = vec![];
    let mut resigned = None;
    let mut caps = 0;
    if has(7) {
        for op in &x.sc.ops {
            if passes >= 2 || resigned.is_some() {
                break;
            }
            let e: Vec<usize> = grid.empties().into_iter().filter(|&p| sui || !grid.play(p, t, false).is_suicide).collect();
            if op.k >= 252 {
                resigned = Some(if op.a % 2 == 0 { B } else { W });
                moves.push(Move::Resign(col(resigned.unwrap())));
            } else if op.k >= 240 || e.is_empty() {
                passes += 1;
                t = opp(t);
                moves.push(Move::Pass);
            } else {
                let mut cand: Vec<usize> = vec![];
                if op.k % 3 == 0 {
                    cand = grid.groups().into_iter().filter(|y| y.color != t && y.libs.len() == 1).flat_map(|y| y.libs).filter(|p| e.contains(p)).collect();
                }
                if cand.is_empty() {
                    cand = e;
                }
                let p = cand[op.a as usize * cand.len() / 65536];
                let r = grid.play(p, t, sui);
                caps += r.captured.len() + r.suicided.len();
                let (mine, theirs) = (r.captured.len() as u32, r.suicided.len() as u32);
                if t == B {
                    pris.0 += mine;
                    pris.1 += theirs;
                } else {
                    pris.1 += mine;
                    pris.0 += theirs;
                }
                if !hist.contains(&grid) {
                    hist.push(grid.clone());
                }
                let (a, b) = grid.coord(p);
                moves.push(Move::Play(a, b));
                grid = r.grid;
                passes = 0;
                t = opp(t);
            }
        }
    }
    let given_outcome = if has(8) && resigned.is_none() {
        Some(match x.outcome % 6 {
            0 => EndGame::Draw,
            1 => EndGame::WinnerByScore(Color::White, x.outcome as f32 / 2.),
            2 => EndGame::WinnerByScore(Color::Black, x.outcome as f32 / 2.),
            3 => EndGame::WinnerByResign(Color::Black),
            4 => EndGame::WinnerByTime(Color::White),
            _ => EndGame::WinnerByForfeit(Color::Black),
        })
    } else {
        None
    };
    // the builder, options in any order (setup stones are one option given in pieces)
    let mut opts: Vec<usize> = (0..10).filter(|&i| has(i as u32)).collect();
    for i in (1..opts.len()).rev() {
        let j = x.order[i % x.order.len()] as usize % (i + 1);
        opts.swap(i, j);
    }
    let pts: Vec<(u8, u8)> = hpts.iter().map(|&p| start.coord(p)).collect();
    let apply = |b: &mut goban::rules::game_builder::GameBuilder| {
        for &o in &opts {
            match o {
                0 => {
                    b.size((h as u8, w as u8));
                }
                1 => {
                    b.rule(rule0);
                }
                2 => {
                    b.komi(rule.komi);
                }
                3 => {
                    b.turn(col(turn));
                }
                4 => {
                    b.handicap(ha.unwrap());
                }
                5 => {
                    b.put_handicap(&pts);
                }
                6 => {
                    for &(p, c) in &adds {
                        b.add(stone(&start, p, c));
                    }
                }
                7 => {
                    b.moves(&moves);
                }
                8 => {
                    if let Some(o) = given_outcome {
                        b.outcome(o);
                    }
                }
                _ => {
                    b.black_player("black \" player").white_player("");
                }
            }
        }
    };
    let mut b = Game::builder();
    apply(&mut b);
    let g = b.build().map_err(|m| format!("the builder refused: {m}"))?;
    let what = format!("{h}x{w} options {opts:?} handicap {ha:?} points {pts:?} moves {moves:?} start\n{}", start.show());
    let verdict = || -> R {
        ensure!(g.size() == (h as u8, w as u8), "size {:?}", g.size());
        let got = Grid::read(g.goban());
        ensure!(got == grid, "board\n{}expected\n{}", got.show(), grid.show());
        groups_audit(g.goban(), &grid)?;
        ensure!(uncol(g.turn()) == t, "turn {:?}", g.turn());
        ensure!(g.komi() == rule.komi, "komi {}, expected {}", g.komi(), rule.komi);
        ensure!(g.prisoners() == pris, "prisoners {:?}, expected {pris:?}", g.prisoners());
        for p in 0..grid.len() {
            let co = grid.coord(p);
            let (a, e) = (g.check_point(co), g.check_point_by(co, rule.flag_illegal));
            ensure!(a == e, "verdict on {co:?} is {a:?}, the requested rules say {e:?}");
        }
        let (a, e) = (g.calculate_score(), score_of(&grid, pris, rule.komi, rule.flag_score.bits() as u8));
        ensure!(a == e, "score {a:?}, expected {e:?} under the requested rules");
        let hi: Vec<Grid> = g.history().map(Grid::read).collect();
        ensure!(hi == hist, "history has {} entries, expected {}", hi.len(), hist.len());
        ensure!(g.is_over() == (passes >= 2 || resigned.is_some() || given_outcome.is_some()), "is_over {}", g.is_over());
        let out = if let Some(c) = resigned {
            Some(EndGame::WinnerByResign(col(opp(c))))
        } else if given_outcome.is_some() {
            given_outcome
        } else if passes >= 2 {
            Some(result_of(e))
        } else {
            None
        };
        ensure!(g.outcome() == out, "outcome {:?}, expected {out:?}", g.outcome());
        // constructed directly, when there is a direct way
        if adds.is_empty() && given_outcome.is_none() {
            let size = match (h, w) {
                (9, 9) if x.again => GobanSizes::Nine,
                (13, 13) if x.again => GobanSizes::Thirteen,
                (19, 19) if x.again => GobanSizes::Nineteen,
                _ => GobanSizes::Custom(h, w),
            };
            let mut d = Game::new(size, rule0);
            d.set_komi(rule.komi);
            if !pts.is_empty() {
                d.put_handicap(&pts);
            }
            if uncol(d.turn()) == turn {
                for &m in &moves {
                    d.play(m);
                }
                let (a, b) = (observe(&g, true), observe(&d, true));
                ensure!(a == b, "built and directly made game differ: {}", obs_diff(&a, &b));
            }
        }
        Ok(())
    };
    verdict().map_err(|m| format!("{m}\n{what}"))?;
    // the builder starts over
    if x.again {
        let d = b.build().map_err(|m| format!("second build: {m}"))?;
        let e = Game::builder().build()?;
        let f = Game::new(GobanSizes::Nineteen, CHINESE);
        ensure!(d.size() == (19, 19) && d.komi() == 7.5 && uncol(d.turn()) == B && d.prisoners() == (0, 0) && d.outcome().is_none(), "after build the builder keeps old options: {:?} komi {} turn {:?}\n{what}", d.size(), d.komi(), d.turn());
        ensure!(Grid::read(d.goban()).empties().len() == 361 && d.history().count() == 0, "after build the builder keeps old stones or moves\n{what}");
        for (n, o) in [("a new builder", &e), ("a default game", &f), ("Game::default", &Game::default())] {
            let (a, b) = (observe(&d, false), observe(o, false));
            ensure!(a == b, "a used builder and {n} give different games: {}\n{what}", obs_diff(&a, &b));
        }
        apply(&mut b);
        let k = b.build().map_err(|m| format!("third build: {m}"))?;
        let (a, b) = (observe(&g, true), observe(&k, true));
        ensure!(a == b, "the reused builder gives a different game: {}\n{what}", obs_diff(&a, &b));
        rec.tag("builder reused");
    }
    rec.nontrivial = opts.len() > 2 && moves.len() > 2;
    rec.tagn("options given", opts.len() as u64);
    rec.tagn("moves", moves.len() as u64);
    rec.tagn("stones removed", caps as u64);
    if handicap > 0 {
        rec.tag("with handicap");
    }
    if rec.want_sample {
        rec.sample = Some(json!(what.chars().take(600).collect::<String>()));
    }
    Ok(())
}
fn s21(_t: bool) -> BoxedStrategy<Ask> {
    let cfg = Cfg { rules: [20, 30, 50], sizes: [34, 30, 22, 6, 8], max_ops: 60, ..Cfg::default() };
    (scenario(&cfg), 0u16..1024, -60i16..80, any::<u8>(), prop::collection::vec(any::<u16>(), 0..9), any::<u8>(), prop::collection::vec(any::<u16>(), 10), any::<bool>())
        .prop_map(|(sc, given, komi4, ha, points, outcome, order, again)| Ask {
            // the size is given in most cases: the default is large
            given: given | u16::from(given % 8 != 0 && given & 2 == 0 || outcome > 60),
            sc,
            komi4,
            ha,
            points,
            outcome,
            order,
            again,
        })
        .boxed()
}

// ---------------------------------------------------------------- C23
fn c23_cases(_t: bool) -> Vec<Value> {
    let mut v = vec![];
    for h in 0..256 {
        v.push(json!({"k": "board", "h": h}));
    }
    let odd: Vec<u64> = (0..=44).chain([100, 127, 128, 200, 254, 255, 256, 257, 258, 261, 264, 265, 269, 275, 276, 300, 511, 512, 513, 521, 531, 65535, 65536, 65537, 65545, 65555, 1 << 32, (1 << 32) + 9, (1 << 32) + 19, u64::MAX, u64::MAX - 236]).collect();
    for h in odd {
        v.push(json!({"k": "game", "h": h}));
    }
    v.push(json!({"k": "names"}));
    v
}
fn all_sizes(h: u8, w: u8, what: &str, got: Result<Size, String>, rec: &mut Rec) -> R {
    match got {
        Ok(s) => {
            ensure!(h <= 19 && w <= 19, "{what}: a board of {h}x{w} was accepted as {s:?}");
            ensure!(s == (h, w), "{what}: asked for {h}x{w}, got {s:?}");
            rec.tag("accepted sizes");
        }
        Err(_) => {
            ensure!(h == 0 || w == 0 || h > 19 || w > 19, "{what}: a board of {h}x{w} was refused");
            rec.tag("refused sizes");
        }
    }
    Ok(())
}
fn c23_sizes(v: &Value, rec: &mut Rec) -> R {
    rec.nontrivial = true;
    match v["k"].as_str().unwrap() {
        "board" => {
            let h = v["h"].as_u64().unwrap() as u8;
            for w in 0..=255u8 {
                all_sizes(h, w, "Goban::new", guarded(|| Goban::new((h, w)).size()), rec)?;
                if w < 40 && h < 40 || w % 51 == 0 || h % 51 == 0 {
                    let b = guarded(|| Game::builder().size((h, w)).build().map(|g| g.size())).and_then(|x| x);
                    all_sizes(h, w, "GameBuilder", b, rec)?;
                }
            }
            Ok(())
        }
        "game" => {
            let h = v["h"].as_u64().unwrap() as usize;
            for c in c23_cases(false) {
                if c["k"] != "game" {
                    continue;
                }
                let w = c["h"].as_u64().unwrap() as usize;
                for (h, w) in [(h, w), (w, h)] {
                    let ok = (1..=19).contains(&h) && (1..=19).contains(&w);
                    match guarded(|| Game::new(GobanSizes::Custom(h, w), JAPANESE).size()) {
                        Ok(s) => {
                            ensure!(h <= 19 && w <= 19, "a game of {h}x{w} was accepted as {s:?}");
                            ensure!((s.0 as usize, s.1 as usize) == (h, w), "asked for {h}x{w}, got {s:?}");
                            rec.tag("accepted sizes");
                        }
                        Err(_) => {
                            ensure!(!ok, "a game of {h}x{w} was refused");
                            rec.tag("refused sizes");
                        }
                    }
                }
            }
            Ok(())
        }
        _ => {
            for (g, n) in [(GobanSizes::Nine, 9), (GobanSizes::Thirteen, 13), (GobanSizes::Nineteen, 19)] {
                ensure!(Game::new(g, CHINESE).size() == (n, n), "{g:?} gives {:?}", Game::new(g, CHINESE).size());
                let s: Size = g.into();
                ensure!(s == (n, n), "{g:?} converts to {s:?}");
            }
            for n in 0..600usize {
                if let Ok(s) = guarded(|| Game::new(GobanSizes::from(n), CHINESE).size()) {
                    ensure!((s.0 as usize, s.1 as usize) == (n, n), "GobanSizes::from({n}) gives {s:?}");
                }
            }
            Ok(())
        }
    }
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Off {
    pub sc: Scenario,
    pub probes: Vec<(u8, u8, u8)>,
}
fn c23_off(x: &Off, rec: &mut Rec) -> R {
    struct O<'a>(&'a Off, u64, u64);
    impl Observer for O<'_> {
        fn state(&mut self, g: &mut Game, c: &Ctx) -> R {
            if c.step % 5 != 0 || c.passes >= 2 {
                return Ok(());
            }
            let r = &c.grid;
            let (h, w) = (r.h as u8, r.w as u8);
            let n = self.0.probes.len();
            let mut pts = vec![(h, 0), (0, w), (h, w), (0, 255), (255, 0), (255, 255), (h - 1, w)];
            for i in 0..4 {
                let (a, b, k) = self.0.probes[(c.step / 5 + i) % n];
                pts.push(match k % 4 {
                    // past the end of a row: the index lies on the board
                    0 => (a % h, w + b % 8),
                    1 => (a % h, w.saturating_add(b)),
                    2 => (h.saturating_add(a), b % w),
                    _ => (a, b),
                });
            }
            pts.retain(|&(a, b)| a >= h || b >= w);
            let hash = g.zobrist_hash();
            for pt in pts {
                // every entry point, on copies
                type Try<'a> = (&'static str, Box<dyn FnOnce() -> (bool, Goban) + 'a>);
                let color = col(c.turn);
                let g0: &Game = g;
                let tries: Vec<Try> = vec![
                    ("Game::play", Box::new(move || { let mut k = g0.clone(); let ok = guarded(|| { k.play(Move::Play(pt.0, pt.1)); }).is_ok(); (ok, k.goban().clone()) })),
                    ("Game::try_play", Box::new(move || { let mut k = g0.clone(); let ok = guarded(|| k.try_play(Move::Play(pt.0, pt.1)).is_ok()).unwrap_or(false); (ok, k.goban().clone()) })),
                    ("Game::put_handicap", Box::new(move || { let mut k = g0.clone(); let ok = guarded(|| k.put_handicap(&[pt])).is_ok(); (ok, k.goban().clone()) })),
                    ("Goban::push", Box::new(move || { let mut k = g0.goban().clone(); let ok = guarded(|| { k.push(pt, color); }).is_ok(); (ok, k) })),
                    ("Goban::push_stone", Box::new(move || { let mut k = g0.goban().clone(); let ok = guarded(|| { k.push_stone(goban::pieces::stones::Stone { coord: pt, color }); }).is_ok(); (ok, k) })),
                    ("Goban::push_many", Box::new(move || { let mut k = g0.goban().clone(); let ok = guarded(|| { k.push_many(&[pt], color); }).is_ok(); (ok, k) })),
                    ("GameBuilder::add", Box::new(move || { let ok = guarded(|| { let mut b = Game::builder(); b.size(g0.size()); b.add(goban::pieces::stones::Stone { coord: pt, color }); b.build().is_ok() }).unwrap_or(false); (ok, g0.goban().clone()) })),
                    ("GameBuilder::moves", Box::new(move || { let ok = guarded(|| { let mut b = Game::builder(); b.size(g0.size()); b.moves(&[Move::Play(pt.0, pt.1)]); b.build().is_ok() }).unwrap_or(false); (ok, g0.goban().clone()) })),
                    ("GameBuilder::put_handicap", Box::new(move || { let ok = guarded(|| { let mut b = Game::builder(); b.size(g0.size()); b.put_handicap(&[pt]); b.build().is_ok() }).unwrap_or(false); (ok, g0.goban().clone()) })),
                ];
                for (name, f) in tries {
                    let (ok, after) = f();
                    ensure!(!ok, "{name} at {pt:?} on a {h}x{w} board was accepted, board then\n{}", Grid::read(&after).show());
                    same_points(&after, r).map_err(|m| format!("{name} at {pt:?} on a {h}x{w} board: {m}"))?;
                    ensure!(after.zobrist_hash() == hash, "{name} at {pt:?}: refused, but the fingerprint changed");
                    groups_audit(&after, r).map_err(|m| format!("{name} at {pt:?} on a {h}x{w} board: refused, but {m}"))?;
                    self.1 += 1;
                }
                self.2 += u64::from((pt.0 as usize) < r.h && pt.0 as usize * r.w + (pt.1 as usize) < r.len());
            }
            Ok(())
        }
    }
    let mut o = O(x, 0, 0);
    let c = drive(&x.sc, &cfg23(), &mut o)?;
    rec.nontrivial = o.2 > 0 && c.played[1] + c.played[2] > 3;
    rec.tagn("refused placements", o.1);
    rec.tagn("off-board points whose index is on the board", o.2);
    if rec.want_sample {
        rec.sample = Some(json!(summary(&x.sc, &c)));
    }
    Ok(())
}
fn cfg23() -> Cfg {
    Cfg { rules: [20, 20, 60], sizes: [30, 30, 25, 8, 7], max_ops: 60, ..Cfg::default() }
}
fn s23(_t: bool) -> BoxedStrategy<Off> {
    (scenario(&cfg23()), prop::collection::vec((any::<u8>(), any::<u8>(), any::<u8>()), 4..20)).prop_map(|(sc, probes)| Off { sc, probes }).boxed()
}

// ---------------------------------------------------------------- C25
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Dead {
    pub sc: Scenario,
    pub sims: u8,
    /// make playouts likely to be drawn: komi equal to the balance of the board
    pub even: bool,
    pub finish: u8,
    /// the estimate with its own number of simulations
    #[serde(default)]
    pub own: bool,
}
fn c25(x: &Dead, rec: &mut Rec) -> R {
    struct O {
        last: Option<Game>,
    }
    impl Observer for O {
        fn finish(&mut self, g: &mut Game, _c: &Ctx) -> R {
            self.last = Some(g.clone());
            Ok(())
        }
    }
    let mut o = O { last: None };
    let c = drive(&x.sc, &cfg25(), &mut o)?;
    let mut g = o.last.unwrap();
    let r = &c.grid;
    if x.even {
        // all the board to one side, or split: whole-board results by area differ by this much
        let n = r.len() as f32;
        g.set_komi([0., 1., n, -n, n - 2., 2. - n][x.finish as usize % 6]);
    }
    if x.finish >= 200 && !g.is_over() {
        while !g.is_over() {
            g.play(Move::Pass);
        }
    } else if x.finish >= 190 && !g.is_over() {
        g.play(Move::Resign(Color::Black));
    }
    let over = g.is_over();
    let before = observe(&g, true);
    let n = if x.own { 600 } else { 1 + x.sims as usize % if r.len() > 36 { 3 } else { 24 } };
    let what = format!("{}x{} komi {} over {over} simulations {n}\n{}", r.h, r.w, g.komi(), r.show());
    note(|| what.clone());
    let ids = guarded(|| if x.own { g.dead_stones() } else { g.dead_stones_wth_simulations(n) }).map_err(|m| format!("panic: {m}\n{what}"))?;
    let after = observe(&g, true);
    ensure!(before == after, "the game changed: {}\n{what}", obs_diff(&before, &after));
    let mut groups = HashSet::new();
    for id in &ids {
        let (col, mut st) = guarded(|| chain(g.goban(), r, *id)).map_err(|m| format!("reported group {id} cannot be read: {m}\n{what}"))?.map_err(|m| format!("{m}\n{what}"))?;
        st.sort_unstable();
        ensure!(r.c[st[0]] == col && r.region(st[0]) == st, "reported group {id} has stones {st:?}, which is no group of the board\n{what}");
        let libs = r.libs_of(&st);
        let eyes = libs.iter().filter(|&&p| g.check_eye(stone(r, p, col))).count();
        ensure!(eyes < 2, "reported group {st:?} has {eyes} eyes\n{what}");
        ensure!(groups.insert(st), "a group is reported twice\n{what}");
    }
    rec.nontrivial = !over && r.count(B) + r.count(W) > 2;
    rec.tagn("groups reported", ids.len() as u64);
    if over {
        rec.tag("finished games");
    }
    if x.even {
        rec.tag("drawn playouts possible");
    }
    if rec.want_sample {
        rec.sample = Some(json!(format!("{what} -> {} groups", ids.len())));
    }
    Ok(())
}
// ---------------------------------------------------------------- C27
struct O27 {
    filled: u64,
    passes: u64,
    over: u64,
}
impl Observer for O27 {
    fn state(&mut self, g: &mut Game, c: &Ctx) -> R {
        use oxymcts::GameTrait;
        let r = &c.grid;
        let over = c.passes >= 2 || c.resigned.is_some();
        ensure!(uncol(g.player_turn()) == c.turn, "the search sees {:?} to move", g.player_turn());
        ensure!(g.is_final() == over && g.is_over() == over, "the search sees final {}, the game is over: {over}", g.is_final());
        if over {
            self.over += 1;
            if let Some(w) = g.outcome().and_then(|o| o.get_winner()) {
                ensure!(g.get_winner() == w, "the search sees {:?} as the winner, the game {w:?}", g.get_winner());
            }
            return Ok(());
        }
        let before = observe(g, true);
        let mut got = g.legals_moves();
        let flags = c.rule.flag_illegal;
        let mut want: Vec<Move> = vec![];
        for p in r.empties() {
            let co = r.coord(p);
            if g.check_point_by(co, flags).is_none() {
                if g.check_eye(stone(r, p, c.turn)) {
                    self.filled += 1;
                } else {
                    want.push(Move::Play(co.0, co.1));
                }
            }
        }
        if want.is_empty() {
            self.passes += 1;
            want.push(Move::Pass);
        }
        let key = |m: &Move| match *m {
            Move::Play(a, b) => (0, a, b),
            Move::Pass => (1, 0, 0),
            Move::Resign(_) => (2, 0, 0),
        };
        got.sort_unstable_by_key(key);
        want.sort_unstable_by_key(key);
        ensure!(got == want, "moves offered to the search: {got:?}, expected {want:?}");
        ensure!(observe(g, true) == before, "listing the moves for the search changed the game");
        // the search's step is a play
        let pick: Vec<Move> = if got.len() <= 3 { got } else { (0..3).map(|i| got[(c.step * 7 + i * 5) % got.len()]).collect() };
        for m in pick {
            let (mut a, mut b) = (g.clone(), g.clone());
            a.do_move(&m);
            b.try_play(m).map_err(|e| format!("{m:?} is offered to the search but refused: {e:?}"))?;
            let (x, y) = (observe(&a, true), observe(&b, true));
            ensure!(x == y, "{m:?} by the search is not a play: {}", obs_diff(&y, &x));
        }
        Ok(())
    }
}
fn c27(sc: &Scenario, rec: &mut Rec) -> R {
    let mut o = O27 { filled: 0, passes: 0, over: 0 };
    let c = drive(sc, &cfg27(), &mut o)?;
    rec.nontrivial = o.filled > 0;
    rec.tagn("eyes held back from the search", o.filled);
    rec.tagn("states with a pass alone", o.passes);
    rec.tagn("finished states", o.over);
    if rec.want_sample {
        rec.sample = Some(json!(summary(sc, &c)));
    }
    Ok(())
}
fn cfg27() -> Cfg {
    Cfg { rules: [30, 20, 50], sizes: [50, 30, 15, 3, 2], max_ops: 90, ..Cfg::default() }.with(Kind::NoEye, 40)
}
fn s27(_t: bool) -> BoxedStrategy<Scenario> {
    scenario(&cfg27())
}

fn cfg25() -> Cfg {
    Cfg { rules: [50, 0, 50], sizes: [1, 0, 0, 0, 0], max_ops: 40, set_flags: 2 | 4, ..Cfg::default() }.without(&[Kind::Resign])
}
fn s25(t: bool) -> BoxedStrategy<Dead> {
    let mx = if t { 6u8 } else { 5 };
    let small = (2u8..=mx, 2u8..=mx, Just(false));
    let size = prop_oneof![60 => small, 3 => (1u8..=9, 1u8..=9, Just(false)), 1 => (1u8..=3, 2u8..=3, Just(true)), 1 => (9u8..=10, 9u8..=10, Just(false))];
    (scenario(&cfg25()), size, any::<u8>(), any::<bool>(), any::<u8>())
        .prop_map(|(mut sc, (h, w, own), sims, even, finish)| {
            sc.h = h;
            sc.w = w;
            Dead { sc, sims, even, finish, own }
        })
        .boxed()
}

pub fn table() -> Vec<(&'static str, Vec<Box<dyn Part>>)> {
    vec![
        ("C15", vec![
            prop!("marathons", "games of 500 to 30,000 acts, a list of operations gone through again and again with other choices; same oracle as the games; non-trivial as there", |_| marathon(&cfg15(), 5), |x, rec| crate::props_game::marathon_case(c15, x, rec), 48, 300),
            prop!("games", "random games; all eight scoring options in every state against territory, stones, prisoners and komi, and the result after passing with nine komi values including the exact draw; non-trivial: territory and prisoners exist", s15, c15, 4000, 120000)]),
        ("C19", vec![prop!("records", "random records written in random layouts (property order, annotations, side lines, white space, repeated and split setup lists), compared with a reference replay and a game built by hand; non-trivial: over three moves and a non-square board, a capture, a side line or a move out of turn", s19, c19, 64000, 250000),
            prop!("long records", "the same with 200 to 4,000 operations; non-trivial: over 150 moves", s19_long, c19_long, 1500, 30000)]),
        ("C20", vec![
            prop!("texts", "assembled tokens with extreme values, mutated valid records and free text; non-trivial: refused text with a property, or an accepted game with stones", s20, c20, 240000, 1500000),
            prop!("long and deep records", "one to four pieces of text (lines opened and closed, moves, properties, values, white space), each repeated 1 to 40,000 times; non-trivial: over 1,000 bytes", s20_big, c20, 3000, 60000),
            Box::new(Exhaustive { name: "listed dependency crashes", rule: "the inputs of the known findings, run as they are", cases: c20_known_cases, check: c20_known }) as Box<dyn Part>,
        ]),
        ("C21", vec![prop!("builders", "random sets of options in random order, compared with a reference and with direct construction; non-trivial: over two options and over two moves", s21, c21, 56000, 250000)]),
        ("C23", vec![
            Box::new(Exhaustive { name: "sizes", rule: "all 65,536 board sizes, about 11,000 custom game sizes around multiples of 256 and machine limits, all named sizes", cases: c23_cases, check: c23_sizes }) as Box<dyn Part>,
            prop!("off-board points", "random games; off-board points through nine entry points, on copies, in every fifth state; non-trivial: an off-board point whose index lies on the board", s23, c23_off, 3750, 80000),
        ]),
        ("C27", vec![prop!("games", "random games; in every running state the moves offered to the tree search against the verdicts, up to three of them made by the search and by a play, and the ends of the games; non-trivial: an eye was held back", s27, c27, 6000, 60000)]),
        ("C25", vec![prop!("estimates", "random games on boards of 2x2 to 5x5, suicide and repetition forbidden, 1 to 24 simulations, even komi values, finished games; non-trivial: a running game with over two stones", s25, c25, 6000, 12000)]),
    ]
}
