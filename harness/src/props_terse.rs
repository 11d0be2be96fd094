//! Games in which few questions are asked, and often the same one again: what an answer is may
//! not depend on which questions were asked before, or were not.
use crate::audit::*;
use crate::grid::*;
use crate::props_game::*;
use crate::props_io::{cfg15, result_of, score_of};
use crate::runner::*;
use crate::scen::*;
use goban::rules::game::Game;
use goban::rules::*;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};
use serde_json::json;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Terse {
    pub sc: Scenario,
    /// after each act: (whether and how often, which question), gone through again and again
    pub plan: Vec<(u8, u16)>,
}
/// (game, context, question, point): true when the answer is a telling one
type Ask = fn(&mut Game, &Ctx, u8, usize) -> Result<bool, String>;
struct Few<'a> {
    ask: Ask,
    plan: &'a [(u8, u16)],
    last: Option<(u8, usize)>,
    inner: &'a mut dyn Observer,
    asked: u64,
    again: u64,
    telling: u64,
}
/// Points worth asking about come first.
fn point(c: &Ctx, a: usize) -> usize {
    let g = &c.grid;
    let v: Vec<usize> = match a % 8 {
        0 | 1 => match &c.last {
            Last::Play { captured, .. } => captured.clone(),
            _ => vec![],
        },
        2 | 3 => g.groups().into_iter().filter(|x| x.libs.len() == 1).map(|x| x.libs[0]).collect(),
        4 => g.empties().into_iter().filter(|&p| g.nb(p).iter().all(|&q| g.c[q] != E)).collect(),
        5 => c.last_try.into_iter().collect(),
        6 => g.empties(),
        _ => vec![],
    };
    if v.is_empty() {
        a / 8 * g.len() / 8192
    } else {
        v[a / 8 * v.len() / 8192]
    }
}
impl Observer for Few<'_> {
    fn state(&mut self, g: &mut Game, c: &Ctx) -> R {
        let (k, a) = self.plan[c.step % self.plan.len()];
        // most states go by in silence
        let (fresh, times) = match k % 16 {
            0..=8 => return Ok(()),
            9..=12 => (false, 1),
            13 => (true, 1),
            14 => (true, 2),
            _ => (false, 3),
        };
        for i in 0..times {
            let (which, p) = match self.last {
                Some(x) if !fresh && i == 0 => x,
                Some((w, _)) if k / 16 % 4 == 0 => (w, point(c, a as usize)),
                Some((_, p)) if k / 16 % 4 == 1 => (k, p),
                _ => (k / 16 + i, point(c, a as usize)),
            };
            self.again += u64::from(self.last == Some((which, p)));
            self.last = Some((which, p));
            self.asked += 1;
            self.telling += u64::from((self.ask)(g, c, which, p)?);
        }
        Ok(())
    }
    fn after(&mut self, g: &mut Game, c: &Ctx, s: &StepRes) -> R {
        self.inner.after(g, c, s)
    }
}
struct Nobody;
impl Observer for Nobody {}

fn terse(x: &Terse, cfg: &Cfg, ask: Ask, inner: &mut dyn Observer, rec: &mut Rec) -> R {
    let mut o = Few { ask, plan: &x.plan, last: None, inner, asked: 0, again: 0, telling: 0 };
    let c = drive(&x.sc, cfg, &mut o)?;
    rec.nontrivial = o.again > 1 && o.telling > 0;
    rec.tagn("questions", o.asked);
    rec.tagn("questions asked again at once", o.again);
    rec.tagn("telling answers", o.telling);
    rec.tagn("acts", c.step as u64);
    if rec.want_sample {
        rec.sample = Some(json!(summary(&x.sc, &c)));
    }
    Ok(())
}
fn quiet_cfg(c: Cfg) -> Cfg {
    c.with(Kind::Again, 12).with(Kind::Pass, 8)
}
fn terse_strategy(cfg: Cfg) -> BoxedStrategy<Terse> {
    let codes = |k: Kind| -> Vec<u8> { (0..=255u8).filter(|&c| cfg.kind_of(c) == k).collect() };
    let (pass, again) = (codes(Kind::Pass), codes(Kind::Again));
    let waits = prop::collection::vec((any::<u8>(), 0u8..4), 0..6);
    (scenario(&cfg), prop::collection::vec((any::<u8>(), any::<u16>()), 1..40), waits)
        .prop_map(move |(mut sc, plan, waits)| {
            // now and then the players pause, or one passes, and the last attempt is made again
            for (at, how) in waits {
                let i = if sc.ops.is_empty() { 0 } else { at as usize * sc.ops.len() / 256 };
                let op = |k: &[u8]| RawOp { k: k[k.len() / 2], a: 7919 };
                let mut l = vec![op(&pass)];
                if how > 0 {
                    // both pass, then they go on
                    l.push(op(&pass));
                    l.push(RawOp { k: again[0], a: 3 });
                }
                if how < 3 {
                    l.push(op(&again));
                }
                sc.ops.splice(i..i, l);
            }
            Terse { sc, plan }
        })
        .boxed()
}

fn ask02(g: &mut Game, c: &Ctx, which: u8, p: usize) -> Result<bool, String> {
    let gr = &c.grid;
    let co = gr.coord(p);
    let t = if which % 5 == 1 { opp(c.turn) } else { c.turn };
    let occ = gr.c[p] != E;
    let s = !occ && gr.play(p, t, false).is_suicide;
    match which % 5 {
        0 | 1 if occ => return Ok(false),
        0 | 1 => {
            let v = g.check_suicide(stone(gr, p, t));
            ensure!(v == s, "check_suicide({co:?}, colour {t}) is {v}");
        }
        2 | 3 => {
            let v = g.check_point_by(co, fl(4));
            let want = if occ { Some(PlayError::PointNotEmpty) } else if s { Some(PlayError::Suicide) } else { None };
            ensure!(v == want, "{co:?}, only suicide forbidden: verdict {v:?}, expected {want:?}");
        }
        _ => {
            let v = g.check_point(co);
            let forb = s && c.rule.flag_illegal.contains(IllegalRules::SUICIDE);
            ensure!((v == Some(PlayError::Suicide)) == forb, "{co:?}, suicide {s}: verdict {v:?}");
            ensure!((v == Some(PlayError::PointNotEmpty)) == occ, "{co:?}, occupied {occ}: verdict {v:?}");
        }
    }
    Ok(s)
}
fn ask03(g: &mut Game, c: &Ctx, which: u8, p: usize) -> Result<bool, String> {
    let gr = &c.grid;
    let co = gr.coord(p);
    if gr.c[p] != E {
        return Ok(false);
    }
    let k = c.is_ko(p);
    match which % 3 {
        0 => {
            let v = g.check_ko(stone(gr, p, c.turn));
            ensure!(v == k, "check_ko({co:?}) is {v}");
        }
        1 => {
            let v = g.check_point_by(co, fl(1));
            ensure!(v == if k { Some(PlayError::Ko) } else { None }, "{co:?}, ko {k}, only ko forbidden: verdict {v:?}");
        }
        _ => {
            let v = g.check_point(co);
            let f = c.rule.flag_illegal;
            if !f.contains(IllegalRules::SUPERKO) {
                let want = k && f.contains(IllegalRules::KO);
                ensure!((v == Some(PlayError::Ko)) == want, "{co:?}, ko {k}, rules {f:?}: verdict {v:?}");
            }
        }
    }
    Ok(k || !matches!(c.last, Last::Play { .. }))
}
fn ask04(g: &mut Game, c: &Ctx, which: u8, p: usize) -> Result<bool, String> {
    let gr = &c.grid;
    let co = gr.coord(p);
    if !c.playable(p) {
        return Ok(false);
    }
    let seen = c.seen(&expect_play(c, p).grid);
    match which % 3 {
        0 => {
            let v = g.check_super_ko(stone(gr, p, c.turn));
            ensure!(v == seen, "check_super_ko({co:?}) is {v}");
        }
        1 => {
            let v = g.check_point_by(co, fl(2));
            ensure!(v == if seen { Some(PlayError::Ko) } else { None }, "{co:?}, position seen {seen}, only superko in force: verdict {v:?}");
        }
        _ => {
            let v = g.check_point(co);
            if c.rule.flag_illegal.contains(IllegalRules::SUPERKO) && v != Some(PlayError::FillEye) {
                ensure!((v == Some(PlayError::Ko)) == seen, "{co:?}, position seen {seen}: verdict {v:?}");
            }
        }
    }
    Ok(seen)
}
/// The verdict, the list and an attempt on a copy, one or two of them at a time.
fn ask05(g: &mut Game, c: &Ctx, which: u8, p: usize) -> Result<bool, String> {
    let gr = &c.grid;
    let co = gr.coord(p);
    let verdict = |g: &Game| g.check_point(co);
    let listed = |g: &Game| -> Result<bool, String> { Ok(points(gr, g.legals())?.contains(&p)) };
    let attempt = |g: &Game| g.clone().try_play(Move::Play(co.0, co.1)).err();
    let paused = c.passes >= 2;
    let f = fl(which / 8);
    let (v, w) = match which % 6 {
        0 => {
            let v = verdict(g);
            (v.is_none(), listed(g)?)
        }
        1 => {
            let w = listed(g)?;
            (verdict(g).is_none(), w)
        }
        2 if !paused => {
            let (v, a) = (verdict(g), attempt(g));
            ensure!(v == a, "verdict on {co:?} is {v:?}, attempting it gives {a:?}");
            (true, true)
        }
        3 if !paused => (attempt(g).is_none(), listed(g)?),
        4 => {
            let l = points(gr, g.legals_by(f))?;
            (g.check_point_by(co, f).is_none(), l.contains(&p))
        }
        _ => {
            let v = g.check_point_by(co, f).is_none();
            (v, points(gr, g.legals_by(f))?.contains(&p))
        }
    };
    ensure!(v == w, "verdict, list and attempt disagree on {co:?} (question {})", which % 6);
    Ok(gr.c[p] == E && !v)
}
struct Verdicts;
impl Observer for Verdicts {
    // an attempt fails or succeeds as it does in a game that was never asked anything
    fn after(&mut self, _g: &mut Game, c: &Ctx, s: &StepRes) -> R {
        if let Act::Try(p) = s.act {
            if c.passes >= 2 {
                ensure!(s.err == Some(PlayError::GamePaused), "paused, yet the attempt gave {:?}", s.err);
                return Ok(());
            }
            let f = c.rule.flag_illegal;
            let gr = &c.grid;
            let occ = gr.c[*p] != E;
            ensure!(occ == (s.err == Some(PlayError::PointNotEmpty)), "occupied {occ} but the attempt gave {:?}", s.err);
            if occ || f.contains(IllegalRules::FILLEYE) {
                return Ok(());
            }
            let sui = f.contains(IllegalRules::SUICIDE) && gr.play(*p, c.turn, false).is_suicide;
            let ko = f.contains(IllegalRules::KO) && c.is_ko(*p);
            let rep = f.contains(IllegalRules::SUPERKO) && c.seen(&expect_play(c, *p).grid);
            let want = if sui { Some(PlayError::Suicide) } else if ko || rep { Some(PlayError::Ko) } else { None };
            ensure!(s.err == want, "the attempt at {:?} gave {:?}, expected {want:?}", gr.coord(*p), s.err);
        }
        Ok(())
    }
}
fn ask14(g: &mut Game, c: &Ctx, which: u8, p: usize) -> Result<bool, String> {
    let gr = &c.grid;
    let co = gr.coord(p);
    let (tb, tw) = gr.territory();
    match which % 3 {
        0 => {
            let v = g.calculate_territories();
            ensure!(v == (tb.len(), tw.len()), "territories {v:?}, expected {:?}", (tb.len(), tw.len()));
        }
        1 => {
            let (a, b) = g.get_territories();
            for (it, want) in [(a.collect::<Vec<_>>(), &tb), (b.collect::<Vec<_>>(), &tw)] {
                let v = points(gr, it.into_iter().map(|p| p.coord))?;
                ensure!(v == *want, "territory {v:?}, expected {want:?}");
            }
        }
        _ => {
            let v = g.get_group_from_point(goban::pieces::stones::Point { coord: co, color: g.get_color(co) });
            let v = points(gr, v.into_iter().map(|p| p.coord))?;
            let mut want = gr.region(p);
            want.sort_unstable();
            ensure!(v == want, "region of {co:?} {v:?}, expected {want:?}");
        }
    }
    Ok(!tb.is_empty() && !tw.is_empty())
}
fn ask15(g: &mut Game, c: &Ctx, which: u8, p: usize) -> Result<bool, String> {
    let r = &c.grid;
    let flags = c.rule.flag_score.bits() as u8;
    let pris = g.prisoners();
    let own = score_of(r, pris, g.komi(), flags);
    match which % 6 {
        0 | 1 => ensure!(g.calculate_score() == own, "calculate_score {:?}, expected {own:?}", g.calculate_score()),
        2 => {
            let f = which / 8 % 8;
            let want = score_of(r, pris, g.komi(), f);
            let got = g.calculate_score_by(ScoreRules::from_bits_truncate(f as u32));
            ensure!(got == want, "score with options {f:03b} is {got:?}, expected {want:?}");
        }
        3 => {
            let k = [0., 0.5, 6.5, own.0 - own.1 + g.komi(), -3.25, 7.][p % 6];
            g.set_komi(k);
            ensure!(g.komi() == k, "komi set to {k}, reads {}", g.komi());
        }
        _ => {
            let got = g.outcome();
            if c.resigned.is_none() {
                let want = if c.passes >= 2 { Some(result_of(own)) } else { None };
                ensure!(got == want, "result {got:?}, expected {want:?}, passes {}", c.passes);
            }
        }
    }
    Ok(c.passes >= 2 || pris != (0, 0))
}
fn ask16(g: &mut Game, c: &Ctx, which: u8, p: usize) -> Result<bool, String> {
    let gr = &c.grid;
    let co = gr.coord(p);
    if gr.c[p] != E {
        return Ok(false);
    }
    let t = if which % 5 == 1 { opp(c.turn) } else { c.turn };
    let r = gr.play(p, t, c.suicide_allowed());
    match which % 5 {
        0 | 1 => {
            let v = g.check_suicide(stone(gr, p, t));
            ensure!(v == r.is_suicide, "check_suicide({co:?}, colour {t}) is {v}");
        }
        2 | 3 => {
            let v = g.will_capture(co);
            ensure!(v == !r.captured.is_empty(), "will_capture({co:?}) is {v} but {} stones are removed", r.captured.len());
        }
        _ => {
            if c.playable(p) {
                let b = g.play_for_verification(co);
                let v = Grid::read(&b);
                ensure!(v == r.grid, "simulating {co:?} gives\n{}expected\n{}", v.show(), r.grid.show());
                groups_audit(&b, &v)?;
            }
        }
    }
    Ok(r.is_suicide || !r.captured.is_empty())
}
fn ask18(g: &mut Game, c: &Ctx, which: u8, p: usize) -> Result<bool, String> {
    let gr = &c.grid;
    let co = gr.coord(p);
    let x = if which % 4 == 1 { opp(c.turn) } else { c.turn };
    let fresh = make_game(gr, c.rule, Some(c.turn == W));
    let want = gr.len() > 1 && fresh.check_eye(stone(gr, p, x));
    match which % 4 {
        _ if gr.len() == 1 => return Ok(false),
        0 | 1 => {
            let v = eye_laws(g, gr, p, x)?;
            ensure!(v == want, "check_eye({co:?}, colour {x}) is {v}, on a fresh board {want}");
        }
        2 => {
            if gr.c[p] == E {
                let v = g.check_point_by(co, fl(8));
                ensure!(v == if want { Some(PlayError::FillEye) } else { None }, "{co:?}, own eye {want}: verdict {v:?}");
            }
        }
        _ => {
            if gr.c[p] == E && c.rule.flag_illegal.contains(IllegalRules::FILLEYE) {
                let v = g.check_point(co);
                if v.is_none() || v == Some(PlayError::FillEye) {
                    ensure!(v.is_some() == want, "{co:?}, own eye {want}: verdict {v:?}");
                }
            }
        }
    }
    Ok(want)
}
fn ask22(g: &mut Game, c: &Ctx, _which: u8, _p: usize) -> Result<bool, String> {
    let mut want: Vec<&Grid> = vec![];
    for x in &c.positions {
        if !want.contains(&x) {
            want.push(x);
        }
    }
    let got: Vec<Grid> = g.history().map(Grid::read).collect();
    ensure!(got.len() == want.len(), "{} recorded positions, expected {}", got.len(), want.len());
    ensure!(got.iter().zip(&want).all(|(a, b)| a == *b), "the recorded positions are wrong");
    Ok(want.len() > 5)
}
fn ask24(g: &mut Game, c: &Ctx, _which: u8, _p: usize) -> Result<bool, String> {
    let gr = &c.grid;
    if gr.len() == 1 {
        return Ok(false);
    }
    let a = floating_stones(g, gr)?;
    let b = floating_stones(&make_game(gr, c.rule, Some(c.turn == W)), gr)?;
    ensure!(a == b, "floating groups {a:?}, on a fresh board {b:?}");
    Ok(a.len() < gr.groups().len())
}
fn ask12(g: &mut Game, c: &Ctx, which: u8, p: usize) -> Result<bool, String> {
    let gr = &c.grid;
    let co = gr.coord(p);
    let n = |x: u8| gr.count(x);
    match which % 6 {
        0 => {
            let v = g.number_of_stones();
            ensure!(v == (n(B) as u32, n(W) as u32), "number_of_stones {v:?}");
        }
        1 => {
            let v: Vec<u8> = g.to_vec().into_iter().map(|x| x.map_or(E, uncol)).collect();
            ensure!(v == gr.c, "to_vec {v:?}");
        }
        2 => {
            let v = points(gr, g.get_stones().map(|s| s.coord))?;
            ensure!(v.len() == n(B) + n(W) && v.iter().all(|&p| gr.c[p] != E), "get_stones lists {v:?}");
        }
        3 => {
            let x = [E, B, W][p % 3];
            let v = points(gr, g.get_coords_by_color(if x == E { None } else { Some(col(x)) }))?;
            ensure!(v.len() == n(x) && v.iter().all(|&p| gr.c[p] == x), "the points of colour {x} are {v:?}");
        }
        4 => {
            let v = points(gr, g.get_liberties(co))?;
            let mut want: Vec<usize> = gr.nb(p).into_iter().filter(|&q| gr.c[q] == E).collect();
            want.sort_unstable();
            ensure!(v == want, "liberties of {co:?} {v:?}");
        }
        _ => groups_audit(g.goban(), gr)?,
    }
    Ok(n(B) > 0 && n(W) > 0)
}

macro_rules! part {
    ($cfg:expr, $ask:expr, $inner:expr, $q:expr, $t:expr) => {
        prop!(
            "few questions",
            "games in which most states go by without a question and the same question is often asked again after a pass, a pause or a move; non-trivial: a question asked twice running and a telling answer",
            |_| terse_strategy(quiet_cfg($cfg)),
            |x, rec| terse(x, &quiet_cfg($cfg), $ask, &mut $inner, rec),
            $q,
            $t
        )
    };
}
fn cfg12() -> Cfg {
    Cfg { sizes: [40, 30, 18, 6, 6], ..Cfg::default() }
}
fn cfg14() -> Cfg {
    Cfg { sizes: [36, 34, 22, 6, 2], ..Cfg::default() }
}
pub fn table() -> Vec<(&'static str, Vec<Box<dyn Part>>)> {
    vec![
        ("C02", vec![part!(cfg2(), ask02, O2::default(), 16000, 200000)]),
        ("C03", vec![part!(cfg3(), ask03, O3::default(), 20000, 250000)]),
        ("C04", vec![part!(cfg4(), ask04, O4::default(), 20000, 250000)]),
        ("C05", vec![part!(cfg5(), ask05, Verdicts, 16000, 200000)]),
        ("C12", vec![part!(cfg12(), ask12, Nobody, 16000, 200000)]),
        ("C14", vec![part!(cfg14(), ask14, Nobody, 16000, 200000)]),
        ("C15", vec![part!(cfg15(), ask15, Nobody, 16000, 200000)]),
        ("C16", vec![part!(cfg16(), ask16, Nobody, 16000, 200000)]),
        ("C18", vec![part!(cfg18(), ask18, O18::default(), 16000, 200000)]),
        ("C22", vec![part!(cfg22(), ask22, Nobody, 10000, 100000)]),
        ("C24", vec![part!(cfg24(), ask24, Nobody, 10000, 100000)]),
    ]
}
