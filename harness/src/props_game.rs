//! Properties over histories of moves.
use crate::audit::*;
use crate::grid::*;
use crate::runner::*;
use crate::scen::*;
use goban::pieces::goban::Goban;
use goban::rules::game::Game;
use goban::rules::*;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};
use serde_json::json;
use std::collections::BTreeMap;

const ALL_FLAGS: u8 = 15;
pub fn fl(b: u8) -> IllegalRules {
    IllegalRules::from_bits_truncate(b as u32)
}
const KO: u8 = 1;
const SUPERKO: u8 = 2;
const SUICIDE: u8 = 4;
const FILLEYE: u8 = 8;

fn go(sc: &Scenario, cfg: &Cfg, o: &mut dyn Observer, rec: &mut Rec) -> Result<Ctx, String> {
    let c = drive(sc, cfg, o)?;
    rec.tag(match sc.h as usize * sc.w as usize {
        0..=16 => "board<=16",
        17..=49 => "board<=49",
        50..=100 => "board<=100",
        _ => "board>100",
    });
    if sc.h != sc.w {
        rec.tag("non-square");
    }
    rec.tagn("acts", c.step as u64);
    if rec.want_sample {
        rec.sample = Some(json!(summary(sc, &c)));
    }
    Ok(c)
}

// ---------------------------------------------------------------- C01
struct O1 {
    caps: u64,
    multi: u64,
    two: u64,
    suicides: u64,
    fan: u64,
}
pub(crate) fn expect_play(c: &Ctx, p: usize) -> Played {
    c.grid.play(p, c.turn, c.suicide_allowed())
}
impl Observer for O1 {
    fn state(&mut self, g: &mut Game, c: &Ctx) -> R {
        ensure!(g.size() == (c.grid.h as u8, c.grid.w as u8), "size changed");
        if c.skip(61) {
            return Ok(());
        }
        // every capturing or self-removing move available here, on copies
        let mut pts: Vec<usize> = c.grid.groups().into_iter().filter(|x| x.libs.len() == 1).map(|x| x.libs[0]).collect();
        pts.sort_unstable();
        pts.dedup();
        pts.retain(|&p| c.playable(p));
        pts.truncate(6);
        for p in pts {
            let want = expect_play(c, p).grid;
            let mut k = g.clone();
            let (x, y) = c.grid.coord(p);
            k.play(Move::Play(x, y));
            let got = Grid::read(k.goban());
            ensure!(got == want, "playing {:?} gives\n{}expected\n{}", (x, y), got.show(), want.show());
            self.fan += 1;
        }
        Ok(())
    }
    fn after(&mut self, _g: &mut Game, c: &Ctx, s: &StepRes) -> R {
        let want = match s.act {
            Act::Try(p) | Act::Force(p) if s.accepted => {
                ensure!(c.grid.c[*p] == E, "a move on an occupied point was accepted");
                let r = expect_play(c, *p);
                self.caps += u64::from(!r.captured.is_empty());
                self.multi += u64::from(r.captured.len() > 1);
                let mut kinds: Vec<Vec<usize>> = c.grid.nb(*p).into_iter().filter(|q| r.captured.contains(q)).map(|q| c.grid.region(q)).collect();
                kinds.sort();
                kinds.dedup();
                self.two += u64::from(kinds.len() > 1);
                self.suicides += u64::from(!r.suicided.is_empty());
                r.grid
            }
            _ => c.grid.clone(),
        };
        ensure!(*s.post == want, "board after the move differs, expected\n{}", want.show());
        Ok(())
    }
}
fn cfg1() -> Cfg {
    Cfg { rules: [20, 15, 65], ..Cfg::default() }
}
fn c01(sc: &Scenario, rec: &mut Rec) -> R {
    let mut o = O1 { caps: 0, multi: 0, two: 0, suicides: 0, fan: 0 };
    go(sc, &cfg1(), &mut o, rec)?;
    rec.nontrivial = o.caps + o.suicides > 0;
    rec.tagn("captures", o.caps);
    rec.tagn("captures of several stones", o.multi);
    rec.tagn("captures of several groups", o.two);
    rec.tagn("own groups removed", o.suicides);
    rec.tagn("alternatives tried on copies", o.fan);
    Ok(())
}

// ---------------------------------------------------------------- C02
#[derive(Default)]
pub(crate) struct O2 {
    suicides: u64,
    near: u64,
}
impl Observer for O2 {
    fn state(&mut self, g: &mut Game, c: &Ctx) -> R {
        let gr = &c.grid;
        let f = c.rule.flag_illegal;
        for p in 0..gr.len() {
            let co = gr.coord(p);
            if gr.c[p] != E {
                for b in [0, KO, SUPERKO, SUICIDE, FILLEYE, ALL_FLAGS] {
                    let v = g.check_point_by(co, fl(b));
                    ensure!(v == Some(PlayError::PointNotEmpty), "{co:?} is occupied but the verdict (flags {b}) is {v:?}");
                }
                ensure!(g.check_point(co) == Some(PlayError::PointNotEmpty), "{co:?} is occupied but the verdict is {:?}", g.check_point(co));
                continue;
            }
            let s = gr.play(p, c.turn, false).is_suicide;
            self.suicides += u64::from(s);
            self.near += u64::from(!s && gr.nb(p).iter().all(|&q| gr.c[q] != E));
            ensure!(g.check_suicide(stone(gr, p, c.turn)) == s, "check_suicide({co:?}) is not {s}");
            let v = g.check_point_by(co, fl(0));
            ensure!(v.is_none(), "{co:?} is empty and nothing is forbidden, verdict {v:?}");
            let v = g.check_point_by(co, fl(SUICIDE));
            ensure!(v == if s { Some(PlayError::Suicide) } else { None }, "{co:?}, suicide {s}, only suicide forbidden: verdict {v:?}");
            let v = g.check_point(co);
            let forb = f.contains(IllegalRules::SUICIDE) && s;
            ensure!((v == Some(PlayError::Suicide)) == forb, "{co:?}, suicide {s}, rules {f:?}: verdict {v:?}");
            ensure!(v != Some(PlayError::PointNotEmpty), "{co:?} is empty but refused as occupied");
            ensure!(v != Some(PlayError::GamePaused), "{co:?}: verdict {v:?}");
            if v == Some(PlayError::Ko) {
                ensure!(f.intersects(IllegalRules::KO | IllegalRules::SUPERKO), "{co:?} refused as ko without a ko rule");
            }
            if v == Some(PlayError::FillEye) {
                ensure!(f.contains(IllegalRules::FILLEYE), "{co:?} refused as an eye without that rule");
            }
        }
        Ok(())
    }
    fn after(&mut self, _g: &mut Game, c: &Ctx, s: &StepRes) -> R {
        if let Act::Try(p) = s.act {
            if c.passes >= 2 {
                return Ok(());
            }
            let occ = c.grid.c[*p] != E;
            ensure!((s.err == Some(PlayError::PointNotEmpty)) == occ, "occupied {occ} but the attempt gave {:?}", s.err);
            if !occ {
                let sui = c.rule.flag_illegal.contains(IllegalRules::SUICIDE) && c.grid.play(*p, c.turn, false).is_suicide;
                ensure!((s.err == Some(PlayError::Suicide)) == sui, "forbidden suicide {sui} but the attempt gave {:?}", s.err);
                if !c.rule.flag_illegal.intersects(IllegalRules::KO | IllegalRules::SUPERKO | IllegalRules::FILLEYE) {
                    ensure!(s.accepted != sui, "only suicide matters here, attempt gave {:?}", s.err);
                }
            }
        }
        Ok(())
    }
}
pub(crate) fn cfg2() -> Cfg {
    Cfg { rules: [20, 15, 65], ..Cfg::default() }.with(Kind::Suicide, 8)
}
fn c02(sc: &Scenario, rec: &mut Rec) -> R {
    let mut o = O2 { suicides: 0, near: 0 };
    go(sc, &cfg2(), &mut o, rec)?;
    rec.nontrivial = o.suicides > 0 && o.near > 0;
    rec.tagn("suicidal points judged", o.suicides);
    rec.tagn("surrounded but not suicidal points judged", o.near);
    Ok(())
}

// ---------------------------------------------------------------- C03
#[derive(Default)]
pub(crate) struct O3 {
    kos: u64,
    snap: u64,
    elapsed: u64,
    old: Option<usize>,
}
impl Observer for O3 {
    fn state(&mut self, g: &mut Game, c: &Ctx) -> R {
        let gr = &c.grid;
        let f = c.rule.flag_illegal;
        for p in gr.empties() {
            let co = gr.coord(p);
            let k = c.is_ko(p);
            if k {
                self.kos += 1;
                self.old = Some(p);
            } else if self.old == Some(p) {
                self.elapsed += 1;
            }
            if let Last::Play { captured, pos, .. } = &c.last {
                if !k && captured.contains(&p) && gr.play(p, c.turn, false).captured.contains(pos) {
                    self.snap += 1;
                }
            }
            ensure!(g.check_ko(stone(gr, p, c.turn)) == k, "check_ko({co:?}) is not {k}");
            let v = g.check_point_by(co, fl(KO));
            ensure!(v == if k { Some(PlayError::Ko) } else { None }, "{co:?}, ko {k}, only ko forbidden: verdict {v:?}");
            let v = g.check_point(co);
            if f.contains(IllegalRules::KO) && k {
                ensure!(v == Some(PlayError::Ko), "{co:?} is a ko recapture, verdict {v:?}");
            }
            if v == Some(PlayError::Ko) && !k {
                ensure!(f.contains(IllegalRules::SUPERKO), "{co:?} is no ko recapture, verdict {v:?}");
            }
        }
        Ok(())
    }
    fn after(&mut self, _g: &mut Game, c: &Ctx, s: &StepRes) -> R {
        if let Act::Try(p) = s.act {
            if c.passes >= 2 || c.grid.c[*p] != E || c.rule.flag_illegal.contains(IllegalRules::SUPERKO) {
                return Ok(());
            }
            let k = c.rule.flag_illegal.contains(IllegalRules::KO) && c.is_ko(*p);
            ensure!((s.err == Some(PlayError::Ko)) == k, "ko {k} but the attempt gave {:?}", s.err);
        }
        Ok(())
    }
}
pub(crate) fn cfg3() -> Cfg {
    Cfg { rules: [10, 30, 60], set_flags: KO, ..Cfg::default() }.with(Kind::Retake, 20).with(Kind::Throw, 14).with(Kind::Cap, 18)
}
fn c03(sc: &Scenario, rec: &mut Rec) -> R {
    let mut o = O3 { kos: 0, snap: 0, elapsed: 0, old: None };
    go(sc, &cfg3(), &mut o, rec)?;
    rec.nontrivial = o.kos > 0;
    rec.tagn("ko points judged", o.kos);
    rec.tagn("snapbacks judged", o.snap);
    rec.tagn("former ko points judged", o.elapsed);
    Ok(())
}

// ---------------------------------------------------------------- C04
#[derive(Default)]
pub(crate) struct O4 {
    rep: u64,
    longrep: u64,
    quiet: u64,
    suicide: u64,
    accepted: u64,
}
impl Observer for O4 {
    fn state(&mut self, g: &mut Game, c: &Ctx) -> R {
        let gr = &c.grid;
        let f = c.rule.flag_illegal;
        for p in gr.empties() {
            if !c.playable(p) {
                continue;
            }
            let co = gr.coord(p);
            let r = expect_play(c, p);
            let seen = c.seen(&r.grid);
            if seen {
                self.rep += 1;
                self.longrep += u64::from(!c.is_ko(p));
                self.quiet += u64::from(r.captured.is_empty() && r.suicided.is_empty());
                self.suicide += u64::from(!r.suicided.is_empty());
            }
            ensure!(g.check_super_ko(stone(gr, p, c.turn)) == seen, "check_super_ko({co:?}) is not {seen}");
            let v = g.check_point_by(co, fl(SUPERKO));
            ensure!(v == if seen { Some(PlayError::Ko) } else { None }, "{co:?}, position seen {seen}, only superko in force: verdict {v:?}");
            if f.contains(IllegalRules::SUPERKO) {
                let v = g.check_point(co);
                if v != Some(PlayError::FillEye) {
                    ensure!((v == Some(PlayError::Ko)) == seen, "{co:?}, position seen {seen}: verdict {v:?}");
                } else {
                    ensure!(f.contains(IllegalRules::FILLEYE), "{co:?} refused as an eye without that rule");
                }
            }
        }
        Ok(())
    }
    fn after(&mut self, _g: &mut Game, c: &Ctx, s: &StepRes) -> R {
        if let (Act::Try(p), true, true) = (s.act, s.accepted, c.rule.flag_illegal.contains(IllegalRules::SUPERKO)) {
            ensure!(!c.seen(s.post), "the accepted move at {:?} recreates an earlier position", c.grid.coord(*p));
            self.accepted += 1;
        }
        Ok(())
    }
}
pub(crate) fn cfg4() -> Cfg {
    Cfg { rules: [25, 0, 75], set_flags: SUPERKO, sizes: [60, 28, 9, 2, 1], max_ops: 200, ..Cfg::default() }
        .with(Kind::Retake, 16)
        .with(Kind::Throw, 12)
        .with(Kind::Cap, 16)
        .with(Kind::Cycle, 10)
        .with(Kind::Suicide, 6)
        .with(Kind::NoEye, 20)
        .with(Kind::Pass, 6)
}
fn c04(sc: &Scenario, rec: &mut Rec) -> R {
    let mut o = O4 { rep: 0, longrep: 0, quiet: 0, suicide: 0, accepted: 0 };
    go(sc, &cfg4(), &mut o, rec)?;
    rec.nontrivial = o.longrep > 0;
    rec.tagn("repeating points judged", o.rep);
    rec.tagn("repetitions other than simple ko judged", o.longrep);
    rec.tagn("repetitions by a move removing nothing", o.quiet);
    rec.tagn("repetitions by suicide", o.suicide);
    rec.tagn("moves accepted under superko", o.accepted);
    Ok(())
}

// ---------------------------------------------------------------- C05
struct O5 {
    refused: u64,
    kinds: BTreeMap<&'static str, u64>,
}
pub(crate) fn points(gr: &Grid, it: impl Iterator<Item = (u8, u8)>) -> Result<Vec<usize>, String> {
    let mut v = vec![];
    for c in it {
        ensure!((c.0 as usize) < gr.h && (c.1 as usize) < gr.w, "{c:?} listed, off the board");
        v.push(gr.idx(c));
    }
    v.sort_unstable();
    let n = v.len();
    v.dedup();
    ensure!(v.len() == n, "a point is listed twice");
    Ok(v)
}
impl Observer for O5 {
    fn state(&mut self, g: &mut Game, c: &Ctx) -> R {
        let gr = &c.grid;
        let n = gr.len();
        let e = gr.empties();
        for (what, v) in [
            ("pseudo_legals", points(gr, g.pseudo_legals())),
            ("pseudo_legals_vec", points(gr, g.pseudo_legals_vec().into_iter())),
            ("get_empty_coords", points(gr, g.get_empty_coords())),
        ] {
            let v = v.map_err(|m| format!("{what}: {m}"))?;
            ensure!(v == e, "{what} lists {v:?}, the empty points are {e:?}");
        }
        let mut idx: Vec<usize> = g.get_empty_idx().collect();
        idx.sort_unstable();
        ensure!(idx == e, "get_empty_idx lists {idx:?}, the empty points are {e:?}");
        let legals = points(gr, g.legals()).map_err(|m| format!("legals: {m}"))?;
        let verdict: Vec<Option<PlayError>> = (0..n).map(|p| g.check_point(gr.coord(p))).collect();
        let want: Vec<usize> = (0..n).filter(|&p| verdict[p].is_none()).collect();
        ensure!(legals == want, "legals {legals:?}, points without objection {want:?}");
        ensure!(legals.iter().all(|&p| gr.c[p] == E), "an occupied point is listed as legal: {legals:?}");
        if c.step > 250 && c.step % 149 != 0 {
            return Ok(());
        }
        // attempts
        let big = n > 60;
        for p in 0..n {
            if big && (p + c.step) % 7 != 0 {
                continue;
            }
            let (x, y) = gr.coord(p);
            let mut k = g.clone();
            let got = k.try_play(Move::Play(x, y)).err();
            if c.passes >= 2 {
                ensure!(got == Some(PlayError::GamePaused), "paused, yet attempting {:?} gives {got:?}", (x, y));
            } else {
                ensure!(got == verdict[p], "verdict on {:?} is {:?}, attempting it gives {got:?}", (x, y), verdict[p]);
            }
            if let Some(v) = verdict[p] {
                self.refused += 1;
                let t = match v {
                    PlayError::Ko => "refused as ko",
                    PlayError::Suicide => "refused as suicide",
                    PlayError::FillEye => "refused as eye",
                    _ => "refused as occupied",
                };
                *self.kinds.entry(t).or_insert(0) += 1;
            }
        }
        // composition of the single behaviours
        if big && c.step % 5 != 0 {
            return Ok(());
        }
        let mut single: BTreeMap<u8, Vec<Option<PlayError>>> = BTreeMap::new();
        for b in [KO, SUPERKO, SUICIDE, FILLEYE] {
            single.insert(b, (0..n).map(|p| g.check_point_by(gr.coord(p), fl(b))).collect());
        }
        for b in 0..16u8 {
            let got = points(gr, g.legals_by(fl(b))).map_err(|m| format!("legals_by {b}: {m}"))?;
            let want: Vec<usize> = e.iter().copied().filter(|&p| single.iter().all(|(k, v)| b & k == 0 || v[p].is_none())).collect();
            ensure!(got == want, "legals_by({:?}) lists {got:?}, the single behaviours leave {want:?}", fl(b));
            for p in 0..n {
                let v = g.check_point_by(gr.coord(p), fl(b));
                ensure!(v.is_none() == got.binary_search(&p).is_ok(), "check_point_by({:?}, {:?}) = {v:?} disagrees with legals_by", gr.coord(p), fl(b));
                if gr.c[p] == E {
                    if let Some(v) = v {
                        ensure!(
                            single.iter().any(|(k, s)| b & k != 0 && s[p] == Some(v)),
                            "check_point_by({:?}, {:?}) = {v:?}, which no single behaviour reports",
                            gr.coord(p),
                            fl(b)
                        );
                    }
                }
            }
        }
        Ok(())
    }
    fn after(&mut self, _g: &mut Game, c: &Ctx, s: &StepRes) -> R {
        if c.passes < 2 {
            if let Act::Pass = s.act {
                ensure!(s.accepted, "a pass was refused on an unpaused game: {:?}", s.err);
            }
        }
        Ok(())
    }
}
pub(crate) fn cfg5() -> Cfg {
    Cfg { rules: [25, 20, 55], sizes: [46, 32, 18, 3, 1], max_ops: 120, ..Cfg::default() }
}
fn c05(sc: &Scenario, rec: &mut Rec) -> R {
    let mut o = O5 { refused: 0, kinds: BTreeMap::new() };
    go(sc, &cfg5(), &mut o, rec)?;
    rec.nontrivial = o.kinds.keys().any(|k| *k != "refused as occupied");
    for (k, v) in o.kinds {
        rec.tagn(k, v)
    }
    Ok(())
}

// ---------------------------------------------------------------- C06
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Fork {
    pub sc: Scenario,
    /// where the copy is taken (fraction of the acts) and what is played on it
    pub at: u8,
    pub side: Vec<RawOp>,
    /// every how many acts everything is queried
    pub every: u8,
}
struct O6 {
    twin: Option<Game>,
    at: usize,
    side: Vec<RawOp>,
    every: usize,
    /// copy that follows the original
    follow: Option<Game>,
    refused: u64,
    queries: u64,
    forks: u64,
}
/// Calls every query; any answer will do.
fn poke(g: &Game, gr: &Grid, deep: bool) {
    let _ = g.legals().count();
    let _ = g.pseudo_legals().count();
    let _ = g.pseudo_legals_vec();
    let _ = g.calculate_score();
    let _ = g.outcome();
    let _ = g.is_over();
    let _ = g.get_territories();
    let _ = g.to_vec();
    let _ = g.matrix();
    let _ = g.pretty_string();
    let _ = g.get_floating_stones();
    let _ = g.history().count();
    let _ = g.get_chains_from_stones(g.get_stones().map(|s| (s.coord, Some(s.color)).into())).len();
    for f in 0..16 {
        if deep || f == 15 {
            let _ = g.legals_by(fl(f)).count();
        }
    }
    for s in 0..8 {
        let _ = g.calculate_score_by(ScoreRules::from_bits_truncate(s));
    }
    for p in 0..gr.len() {
        let co = gr.coord(p);
        let _ = g.will_capture(co);
        let _ = g.get_liberties(co).count();
        let _ = g.get_connected_groups_idx(co);
        for c in [B, W] {
            let s = stone(gr, p, c);
            if gr.c[p] == E {
                let _ = g.check_ko(s);
                let _ = g.check_suicide(s);
                let _ = g.check_eye(s);
                if !gr.play(p, uncol(g.turn()), false).is_suicide {
                    let _ = g.check_super_ko(s);
                }
            }
        }
        if gr.c[p] == E && !gr.play(p, uncol(g.turn()), false).is_suicide {
            let _ = g.play_for_verification(co);
        }
    }
}
impl Observer for O6 {
    fn start(&mut self, g: &mut Game, _c: &Ctx) -> R {
        self.twin = Some(g.clone());
        Ok(())
    }
    fn state(&mut self, g: &mut Game, c: &Ctx) -> R {
        if c.skip(29) && c.step != self.at {
            // a refused attempt or two, in between
            for p in [c.step % c.grid.len(), (c.step / 7) % c.grid.len()] {
                let (x, y) = c.grid.coord(p);
                if c.passes >= 2 || g.check_point((x, y)).is_some() {
                    ensure!(g.try_play(Move::Play(x, y)).is_err(), "attempt at {:?} was accepted against the verdict", (x, y));
                    self.refused += 1;
                }
            }
            let t = self.twin.as_ref().unwrap();
            ensure!(g.goban() == t.goban() && g.turn() == t.turn() && g.prisoners() == t.prisoners() && g.is_over() == t.is_over(), "the game differs from its twin that was never queried");
            return Ok(());
        }
        let deep = c.step % self.every == 0;
        if deep {
            let a = observe(g, true);
            poke(g, &c.grid, c.grid.len() <= 49);
            self.queries += 1;
            // refused attempts on the game itself
            for p in 0..c.grid.len() {
                let (x, y) = c.grid.coord(p);
                if c.passes >= 2 || a.verdicts[p].is_some() {
                    let e = g.try_play(Move::Play(x, y)).err();
                    ensure!(e.is_some(), "attempt at {:?} was accepted against the verdict {:?}", (x, y), a.verdicts[p]);
                    self.refused += 1;
                }
            }
            if c.passes >= 2 {
                for m in [Move::Pass, Move::Resign(col(B)), Move::Resign(col(W))] {
                    ensure!(g.try_play(m).is_err(), "{m:?} accepted while paused");
                    self.refused += 1;
                }
            }
            let b = observe(g, true);
            ensure!(a == b, "queries and refused attempts changed the game: {}", obs_diff(&a, &b));
            groups_audit(g.goban(), &c.grid)?;
        }
        let t = self.twin.as_ref().unwrap();
        let (a, b) = (observe(g, deep), observe(t, deep));
        ensure!(a == b, "the game differs from its twin that was never queried: {}", obs_diff(&a, &b));
        ensure!(g.goban() == t.goban(), "board differs from its twin's");
        if let Some(f) = &self.follow {
            let b = observe(f, deep);
            ensure!(a == b, "a copy given the same moves differs: {}", obs_diff(&a, &b));
        }
        if c.step == self.at {
            self.forks += 1;
            self.follow = Some(g.clone());
            let before = observe(g, true);
            let mut k = g.clone();
            let cfg = cfg6();
            let mut kc = c.shallow();
            for &op in &self.side {
                let a = choose(&kc, &cfg, op);
                perform(&mut k, &kc.grid, &a);
                kc.grid = Grid::read(k.goban());
                kc.turn = uncol(k.turn());
                kc.last = Last::None;
                kc.passes = if k.is_over() { 2 } else { 0 };
            }
            let after = observe(g, true);
            ensure!(before == after, "playing on a copy changed the original: {}", obs_diff(&before, &after));
            groups_audit(g.goban(), &c.grid)?;
        }
        Ok(())
    }
    fn after(&mut self, g: &mut Game, c: &Ctx, s: &StepRes) -> R {
        if s.accepted {
            perform(self.twin.as_mut().unwrap(), s.pre, s.act);
            if let Some(f) = self.follow.as_mut() {
                perform(f, s.pre, s.act);
            }
        } else {
            self.refused += 1;
            ensure!(*s.post == c.grid, "a refused attempt changed the board");
            ensure!(uncol(g.turn()) == c.turn, "a refused attempt changed the turn");
        }
        Ok(())
    }
}
fn cfg6() -> Cfg {
    Cfg { rules: [30, 20, 50], sizes: [46, 32, 18, 3, 1], max_ops: 120, ..Cfg::default() }.with(Kind::Wild, 8).with(Kind::Retake, 14)
}
fn c06(f: &Fork, rec: &mut Rec) -> R {
    let mut o = O6 {
        twin: None,
        at: f.sc.ops.len() * f.at as usize / 256,
        side: f.side.clone(),
        every: 1 + f.every as usize % 5,
        follow: None,
        refused: 0,
        queries: 0,
        forks: 0,
    };
    go(&f.sc, &cfg6(), &mut o, rec)?;
    rec.nontrivial = o.refused > 0 && o.forks > 0;
    rec.tagn("refused attempts", o.refused);
    rec.tagn("states queried completely", o.queries);
    rec.tagn("copies played on", o.forks);
    Ok(())
}

// ---------------------------------------------------------------- C07
#[derive(Clone, Debug, PartialEq)]
struct Proto {
    turn: u8,
    passes: u32,
    resigned: Option<u8>,
}
struct O7 {
    m: Proto,
    pauses: u64,
    resumes: u64,
    resigns: u64,
    broken: u64,
}
impl O7 {
    fn agree(&self, g: &Game) -> R {
        ensure!(uncol(g.turn()) == self.m.turn, "turn is {:?}, expected {:?}", g.turn(), self.m);
        let over = self.m.passes >= 2 || self.m.resigned.is_some();
        ensure!(g.is_over() == over, "is_over {} with {:?}", g.is_over(), self.m);
        ensure!(g.outcome().is_some() == over, "outcome {:?} with {:?}", g.outcome(), self.m);
        if let Some(x) = self.m.resigned {
            ensure!(g.outcome() == Some(EndGame::WinnerByResign(col(opp(x)))), "{} resigned, outcome {:?}", x, g.outcome());
            ensure!(g.outcome().unwrap().get_winner() == Some(col(opp(x))), "winner after a resignation");
        }
        Ok(())
    }
}
impl Observer for O7 {
    fn start(&mut self, g: &mut Game, _c: &Ctx) -> R {
        self.m.turn = uncol(g.turn());
        Ok(())
    }
    fn state(&mut self, g: &mut Game, c: &Ctx) -> R {
        self.agree(g)?;
        if c.step > 300 && c.step % 509 != 0 {
            return Ok(());
        }
        let paused = self.m.passes >= 2;
        if !paused {
            let mut k = g.clone();
            let e = k.try_play(Move::Pass).err();
            ensure!(e.is_none(), "a pass gives {e:?} after {} passes", self.m.passes);
            let e = k.try_play(Move::Pass).err();
            ensure!(e == if self.m.passes == 1 { Some(PlayError::GamePaused) } else { None }, "two more passes give {e:?} after {} passes", self.m.passes);
        }
        if paused {
            self.pauses += 1;
            for p in 0..c.grid.len() {
                let (x, y) = c.grid.coord(p);
                let e = g.clone().try_play(Move::Play(x, y)).err();
                ensure!(e == Some(PlayError::GamePaused), "paused, attempting {:?} gives {e:?}", (x, y));
            }
            for m in [Move::Pass, Move::Resign(col(B)), Move::Resign(col(W))] {
                let mut k = g.clone();
                let e = k.try_play(m).err();
                ensure!(e == Some(PlayError::GamePaused), "paused, attempting {m:?} gives {e:?}");
                ensure!(k.turn() == g.turn() && k.is_over(), "refused {m:?} changed the game");
            }
            let mut k = g.clone();
            k.resume();
            ensure!(uncol(k.turn()) == self.m.turn, "resume changed the player to move");
            ensure!(k.is_over() == self.m.resigned.is_some(), "game over after resume");
            ensure!(Grid::read(k.goban()) == c.grid, "resume changed the board");
            let e = k.try_play(Move::Pass).err();
            ensure!(e.is_none(), "after resume a pass gives {e:?}");
            ensure!(k.is_over() == self.m.resigned.is_some(), "one pass after resume ends the game");
            let e = k.try_play(Move::Pass).err();
            ensure!(e.is_none() && k.is_over(), "after resume a second pass gives {e:?}");
            let e = k.try_play(Move::Pass).err();
            ensure!(e == Some(PlayError::GamePaused), "after resume a third pass gives {e:?}");
        }
        for x in [B, W] {
            if self.m.resigned.is_some() {
                break;
            }
            let mut k = g.clone();
            if paused {
                k.play(Move::Resign(col(x)));
            } else {
                let e = k.try_play(Move::Resign(col(x))).err();
                ensure!(e.is_none(), "resignation refused: {e:?}");
            }
            ensure!(k.is_over(), "game not over after a resignation");
            ensure!(k.outcome() == Some(EndGame::WinnerByResign(col(opp(x)))), "{:?} resigns, outcome {:?}", col(x), k.outcome());
            ensure!(k.turn() == g.turn(), "a resignation changed the turn");
            ensure!(Grid::read(k.goban()) == c.grid, "a resignation changed the board");
            ensure!(k.prisoners() == g.prisoners(), "a resignation changed the prisoners");
            self.resigns += 1;
        }
        Ok(())
    }
    fn after(&mut self, g: &mut Game, c: &Ctx, s: &StepRes) -> R {
        if self.m.passes >= 2 && !matches!(s.act, Act::Resume) {
            ensure!(s.err == Some(PlayError::GamePaused), "paused, {:?} gives {:?}", s.act, s.err);
        } else {
            ensure!(s.err != Some(PlayError::GamePaused), "{:?} refused as paused after {} passes", s.act, self.m.passes);
        }
        if s.accepted {
            match s.act {
                Act::Try(_) | Act::Force(_) => {
                    self.broken += u64::from(self.m.passes == 1);
                    self.m.turn = opp(self.m.turn);
                    self.m.passes = 0;
                }
                Act::Pass => {
                    ensure!(*s.post == c.grid, "a pass changed the board");
                    self.m.turn = opp(self.m.turn);
                    self.m.passes += 1;
                }
                Act::Resume => {
                    self.resumes += u64::from(self.m.passes >= 2);
                    self.m.passes = 0;
                }
                Act::Resign(x) => {
                    if self.m.resigned.is_none() || self.m.resigned == Some(*x) {
                        self.m.resigned = Some(*x)
                    }
                }
            }
        }
        self.agree(g)
    }
}
fn cfg7() -> Cfg {
    Cfg { rules: [30, 30, 40], sizes: [50, 30, 15, 3, 2], max_ops: 100, ..Cfg::default() }
        .with(Kind::Pass, 40)
        .with(Kind::Resume, 4)
        .with(Kind::Resign, 3)
        .with(Kind::Wild, 8)
}
fn c07(sc: &Scenario, rec: &mut Rec) -> R {
    let mut o = O7 { m: Proto { turn: B, passes: 0, resigned: None }, pauses: 0, resumes: 0, resigns: 0, broken: 0 };
    let handicap = (sc.via == 1 || sc.via == 2) && sc.start_grid().count(B) > 0;
    if let Some(t) = sc.turn.filter(|_| sc.via != 1) {
        ensure!(uncol(sc.new_game().turn()) == if t { W } else { B }, "requested first player not honoured");
    } else if handicap {
        ensure!(uncol(sc.new_game().turn()) == W, "white does not start a handicap game");
    } else {
        ensure!(uncol(sc.new_game().turn()) == B, "black does not start");
    }
    go(sc, &cfg7(), &mut o, rec)?;
    rec.nontrivial = o.resumes > 0 && o.broken > 0;
    rec.tagn("paused states", o.pauses);
    rec.tagn("resumptions", o.resumes);
    rec.tagn("resignations tried", o.resigns);
    rec.tagn("pass runs broken by a play", o.broken);
    Ok(())
}

// ---------------------------------------------------------------- C08
struct O8 {
    pris: (u32, u32),
    removed: [u64; 3],
}
impl Observer for O8 {
    fn state(&mut self, g: &mut Game, c: &Ctx) -> R {
        let n = g.number_of_stones();
        ensure!(n == (c.grid.count(B) as u32, c.grid.count(W) as u32), "number_of_stones {n:?}");
        let p = g.prisoners();
        for (x, held) in [(B, p.1), (W, p.0)] {
            let set = c.start.count(x);
            let on = c.grid.count(x);
            ensure!(
                on + held as usize == set + c.played[x as usize],
                "colour {x}: {on} on the board + {held} prisoners, but {set} set up + {} played",
                c.played[x as usize]
            );
        }
        self.pris = p;
        Ok(())
    }
    fn after(&mut self, g: &mut Game, c: &Ctx, s: &StepRes) -> R {
        let mut want = self.pris;
        if s.accepted {
            if let Act::Try(p) | Act::Force(p) = s.act {
                let mut put = c.grid.clone();
                put.c[*p] = c.turn;
                for q in 0..put.len() {
                    if put.c[q] != E && s.post.c[q] == E {
                        self.removed[put.c[q] as usize] += 1;
                        if put.c[q] == W {
                            want.0 += 1
                        } else {
                            want.1 += 1
                        }
                    }
                }
            }
        }
        ensure!(g.prisoners() == want, "prisoners {:?}, expected {want:?}", g.prisoners());
        Ok(())
    }
}
fn cfg8() -> Cfg {
    Cfg { rules: [20, 15, 65], ..Cfg::default() }.with(Kind::Cap, 20).with(Kind::Suicide, 8)
}
fn c08(sc: &Scenario, rec: &mut Rec) -> R {
    let mut o = O8 { pris: (0, 0), removed: [0; 3] };
    ensure!(sc.new_game().prisoners() == (0, 0), "prisoners at the start");
    go(sc, &cfg8(), &mut o, rec)?;
    rec.nontrivial = o.removed[1] > 0 && o.removed[2] > 0;
    rec.tagn("black stones removed", o.removed[1]);
    rec.tagn("white stones removed", o.removed[2]);
    Ok(())
}

// ---------------------------------------------------------------- C09 (played games)
struct O9 {
    merges: u64,
    removals: u64,
}
impl Observer for O9 {
    fn state(&mut self, g: &mut Game, c: &Ctx) -> R {
        groups_audit(g.goban(), &c.grid)
    }
    fn after(&mut self, _g: &mut Game, c: &Ctx, s: &StepRes) -> R {
        if let (true, Act::Try(p) | Act::Force(p)) = (s.accepted, s.act) {
            let mut k: Vec<usize> = c.grid.nb(*p).into_iter().filter(|&q| c.grid.c[q] == c.turn).map(|q| c.grid.region(q)[0]).collect();
            k.sort_unstable();
            k.dedup();
            self.merges += u64::from(k.len() > 1);
            let mut put = c.grid.clone();
            put.c[*p] = c.turn;
            self.removals += u64::from(put != *s.post);
        }
        Ok(())
    }
}
fn cfg9() -> Cfg {
    Cfg { rules: [20, 15, 65], sizes: [40, 34, 20, 4, 2], ..Cfg::default() }
}
fn c09(sc: &Scenario, rec: &mut Rec) -> R {
    let mut o = O9 { merges: 0, removals: 0 };
    go(sc, &cfg9(), &mut o, rec)?;
    rec.nontrivial = o.merges > 0 && o.removals > 0;
    rec.tagn("merges", o.merges);
    rec.tagn("removals", o.removals);
    Ok(())
}

// ---------------------------------------------------------------- C16
struct O16 {
    caps: u64,
    points: u64,
    suicides: u64,
}
impl Observer for O16 {
    fn state(&mut self, g: &mut Game, c: &Ctx) -> R {
        if c.skip(31) {
            return Ok(());
        }
        let gr = &c.grid;
        let big = gr.len() > 60;
        let before = if big { None } else { Some(observe(g, false)) };
        for p in gr.empties() {
            let co = gr.coord(p);
            for x in [B, W] {
                let s = gr.play(p, x, false).is_suicide;
                self.suicides += u64::from(s);
                ensure!(g.check_suicide(stone(gr, p, x)) == s, "check_suicide({co:?}, colour {x}) is not {s}");
            }
            let r = expect_play(c, p);
            ensure!(g.will_capture(co) == !r.captured.is_empty(), "will_capture({co:?}) but {} stones are removed", r.captured.len());
            if !c.playable(p) || (big && (p + c.step) % 5 != 0) {
                continue;
            }
            let sim: Goban = g.play_for_verification(co);
            let mut k = g.clone();
            k.play(Move::Play(co.0, co.1));
            let (a, b) = (Grid::read(&sim), Grid::read(k.goban()));
            ensure!(a == b, "simulating {co:?} gives\n{}playing gives\n{}", a.show(), b.show());
            ensure!(a == r.grid, "simulating {co:?} gives\n{}expected\n{}", a.show(), r.grid.show());
            ensure!(sim == *k.goban() && sim.zobrist_hash() == k.zobrist_hash(), "simulated and played boards are not equal at {co:?}");
            let taken = (0..gr.len()).any(|q| gr.c[q] == opp(c.turn) && b.c[q] == E);
            ensure!(g.will_capture(co) == taken, "will_capture({co:?}) is not {taken}");
            self.points += 1;
            self.caps += u64::from(taken);
        }
        if let Some(b) = before {
            let a = observe(g, false);
            ensure!(a == b, "looking ahead changed the game: {}", obs_diff(&b, &a));
        }
        Ok(())
    }
}
pub(crate) fn cfg16() -> Cfg {
    Cfg { rules: [25, 20, 55], ..Cfg::default() }
}
fn c16(sc: &Scenario, rec: &mut Rec) -> R {
    let mut o = O16 { caps: 0, points: 0, suicides: 0 };
    go(sc, &cfg16(), &mut o, rec)?;
    rec.nontrivial = o.caps > 0 && o.suicides > 0;
    rec.tagn("simulated captures", o.caps);
    rec.tagn("points simulated", o.points);
    rec.tagn("suicidal points judged", o.suicides);
    Ok(())
}

// ---------------------------------------------------------------- C17
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Image {
    pub sc: Scenario,
    pub sym: u8,
}
struct O17 {
    t: Sym,
    img: Option<Game>,
    sc: Scenario,
    refused: u64,
    eyes: u64,
    caps: u64,
}
impl O17 {
    fn mapped(&self, g: &Grid, v: &[usize]) -> Vec<usize> {
        let mut x: Vec<usize> = v.iter().map(|&p| self.t.pt(g.h, g.w, p)).collect();
        x.sort_unstable();
        x
    }
}
fn chains_of(g: &Goban, r: &Grid) -> Result<Vec<(u8, Vec<usize>, Vec<usize>)>, String> {
    // groups with stones, found from the points, and their liberties
    let mut out = vec![];
    let mut ids = std::collections::BTreeSet::new();
    for p in 0..r.len() {
        ids.extend(g.get_connected_groups_idx(p));
    }
    for id in ids {
        let (c, mut st) = chain(g, r, id)?;
        st.sort_unstable();
        let mut libs: Vec<usize> = vec![];
        for &s in &st {
            libs.extend(g.get_liberties(r.coord(s)).map(|x| r.idx(x)));
        }
        libs.sort_unstable();
        libs.dedup();
        out.push((c, st, libs));
    }
    out.sort();
    Ok(out)
}
fn libs_of(g: &Goban) -> Vec<(u8, u16, Vec<usize>)> {
    let mut v: Vec<_> = g
        .chains()
        .map(|c| {
            let mut l = c.liberties();
            l.sort_unstable();
            (uncol(c.color), c.num_stones, l)
        })
        .collect();
    v.sort();
    v
}
impl Observer for O17 {
    fn start(&mut self, g: &mut Game, c: &Ctx) -> R {
        let first = uncol(g.turn());
        let t = self.t.colour(first);
        self.img = Some(make_game(&c.start.map(self.t), self.sc.rule.rule(), Some(t == W)));
        Ok(())
    }
    fn state(&mut self, g: &mut Game, c: &Ctx) -> R {
        let t = self.t;
        let i = self.img.as_ref().unwrap();
        let (gr, ig) = (&c.grid, Grid::read(i.goban()));
        let (h, w) = (gr.h, gr.w);
        ensure!(gr.map(t) == ig, "the image game's board is\n{}expected\n{}", ig.show(), gr.map(t).show());
        ensure!(uncol(i.turn()) == t.colour(uncol(g.turn())), "turn of the image game");
        ensure!(i.is_over() == g.is_over(), "is_over of the image game");
        let swap = t.0 & 8 != 0;
        let sw = |p: (u32, u32)| if swap { (p.1, p.0) } else { p };
        ensure!(i.prisoners() == sw(g.prisoners()), "prisoners {:?} and {:?}", g.prisoners(), i.prisoners());
        for p in 0..gr.len() {
            let q = t.pt(h, w, p);
            let (a, b) = (gr.coord(p), ig.coord(q));
            let (x, y) = (g.check_point(a), i.check_point(b));
            ensure!(x == y, "verdict at {a:?} is {x:?}, at its image {b:?} {y:?}");
            self.refused += u64::from(gr.c[p] == E && x.is_some());
            if gr.c[p] != E {
                continue;
            }
            for f in [KO, SUPERKO, SUICIDE, FILLEYE] {
                if f == SUPERKO && !c.playable(p) {
                    continue;
                }
                let (x, y) = (g.check_point_by(a, fl(f)), i.check_point_by(b, fl(f)));
                ensure!(x == y, "verdict at {a:?} under {:?} is {x:?}, at its image {b:?} {y:?}", fl(f));
            }
            ensure!(g.will_capture(a) == i.will_capture(b), "will_capture at {a:?} and its image {b:?}");
            for x in [B, W] {
                let e = g.check_eye(stone(gr, p, x));
                self.eyes += u64::from(e);
                let f = i.check_eye(stone(&ig, q, t.colour(x)));
                ensure!(e == f, "check_eye({a:?}, colour {x}) is {e}, at its image {b:?} {f}");
                let e = g.check_suicide(stone(gr, p, x));
                let f = i.check_suicide(stone(&ig, q, t.colour(x)));
                ensure!(e == f, "check_suicide({a:?}, colour {x}) is {e}, at its image {b:?} {f}");
            }
        }
        // legal lists
        let l = points(gr, g.legals())?;
        let li = points(&ig, i.legals())?;
        ensure!(self.mapped(gr, &l) == li, "legal moves {l:?} map to {li:?}");
        // groups, liberties, territory, score
        let a = chains_of(g.goban(), gr)?;
        let mut a: Vec<_> = a.into_iter().map(|(c, s, l)| (t.colour(c), self.mapped(gr, &s), self.mapped(gr, &l))).collect();
        a.sort();
        let b = chains_of(i.goban(), &ig)?;
        ensure!(a == b, "groups of the image: {b:?} expected {a:?}");
        let mut a: Vec<_> = libs_of(g.goban()).into_iter().map(|(c, n, l)| (t.colour(c), n, self.mapped(gr, &l))).collect();
        a.sort();
        let b = libs_of(i.goban());
        ensure!(a == b, "liberties of the image: {b:?} expected {a:?}");
        let terr = |g: &Game, r: &Grid| -> Result<[Vec<usize>; 2], String> {
            let (x, y) = g.get_territories();
            Ok([points(r, x.map(|p| p.coord))?, points(r, y.map(|p| p.coord))?])
        };
        let [x, y] = terr(g, gr)?;
        let (x, y) = (self.mapped(gr, &x), self.mapped(gr, &y));
        let want = if swap { [y, x] } else { [x, y] };
        let got = terr(i, &ig)?;
        ensure!(got == want, "territories of the image {got:?} expected {want:?}");
        for s in [0, 1, 4, 5] {
            let s = ScoreRules::from_bits_truncate(s);
            let (a, b) = (g.calculate_score_by(s), i.calculate_score_by(s));
            let a = if swap { (a.1, a.0) } else { a };
            ensure!(a == b, "score of the image {b:?} expected {a:?}");
        }
        ensure!(g.history().count() == i.history().count(), "history lengths differ");
        Ok(())
    }
    fn after(&mut self, _g: &mut Game, c: &Ctx, s: &StepRes) -> R {
        let t = self.t;
        let (h, w) = (c.grid.h, c.grid.w);
        let act = match s.act {
            Act::Try(p) => Act::Try(t.pt(h, w, *p)),
            Act::Force(p) => Act::Force(t.pt(h, w, *p)),
            Act::Resign(x) => Act::Resign(t.colour(*x)),
            a => a.clone(),
        };
        self.caps += u64::from(s.post.c.iter().filter(|&&x| x != E).count() < s.pre.c.iter().filter(|&&x| x != E).count() + 1 && s.accepted);
        let ig = s.pre.map(t);
        let (e, _) = perform(self.img.as_mut().unwrap(), &ig, &act);
        ensure!(e == s.err, "{act:?} on the image gives {e:?}, the original gave {:?}", s.err);
        Ok(())
    }
}
fn cfg17() -> Cfg {
    Cfg { rules: [25, 20, 55], sizes: [40, 36, 20, 3, 1], max_ops: 120, ..Cfg::default() }
}
fn c17(x: &Image, rec: &mut Rec) -> R {
    let mut o = O17 { t: Sym(x.sym & 15), img: None, sc: x.sc.clone(), refused: 0, eyes: 0, caps: 0 };
    go(&x.sc, &cfg17(), &mut o, rec)?;
    rec.nontrivial = x.sym & 15 != 0 && o.refused > 0 && o.caps > 0;
    rec.tagn("empty points refused", o.refused);
    rec.tagn("eyes", o.eyes);
    if x.sym & 8 != 0 {
        rec.tag("colour exchange")
    }
    if x.sym & 4 != 0 {
        rec.tag("transposition")
    }
    Ok(())
}

// The same shape, played in two places: other corners of the board, other board sizes,
// turned, mirrored or with the colours exchanged. At least one empty line all round.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Moved {
    pub sh: u8,
    pub sw: u8,
    pub setup: Vec<SetupItem>,
    pub rule: RuleSpec,
    pub sym: u8,
    /// room above, left, below and right of the shape
    pub room: [(u8, u8, u8, u8); 2],
    pub white: bool,
    pub ops: Vec<RawOp>,
}
struct Place {
    t: Sym,
    /// the shape's own height and width, before the symmetry
    sh: usize,
    sw: usize,
    top: usize,
    left: usize,
    grid: Grid,
}
impl Place {
    /// `room` is measured after the symmetry.
    fn new(shape: &Grid, t: Sym, room: (u8, u8, u8, u8)) -> Place {
        let m = shape.map(t);
        let (top, left) = (room.0 as usize, room.1 as usize);
        let mut grid = Grid::new(top + m.h + room.2 as usize, left + m.w + room.3 as usize);
        for q in 0..m.len() {
            grid.c[(top + q / m.w) * grid.w + left + q % m.w] = m.c[q];
        }
        Place { t, sh: shape.h, sw: shape.w, top, left, grid }
    }
    /// The board point of the shape's point p.
    fn pt(&self, p: usize) -> usize {
        let (_, mw) = self.t.dims(self.sh, self.sw);
        let q = self.t.pt(self.sh, self.sw, p);
        (self.top + q / mw) * self.grid.w + self.left + q % mw
    }
    /// Board points by their signed position in the shape.
    fn back(&self) -> std::collections::HashMap<usize, (i32, i32)> {
        // the inverse of the symmetry on the shape's surroundings
        let (mh, mw) = self.t.dims(self.sh, self.sw);
        let mut out = std::collections::HashMap::new();
        for q in 0..self.grid.len() {
            let (mut r, mut c) = ((q / self.grid.w) as i32 - self.top as i32, (q % self.grid.w) as i32 - self.left as i32);
            if r < -1 || c < -1 || r > mh as i32 || c > mw as i32 {
                continue;
            }
            if self.t.0 & 4 != 0 {
                std::mem::swap(&mut r, &mut c);
            }
            if self.t.0 & 2 != 0 {
                c = self.sw as i32 - 1 - c
            }
            if self.t.0 & 1 != 0 {
                r = self.sh as i32 - 1 - r
            }
            out.insert(q, (r, c));
        }
        out
    }
}
/// Everything observed at the shape's points, in the shape's own terms.
#[derive(PartialEq, Debug)]
struct View {
    turn: u8,
    over: bool,
    prisoners: (u32, u32),
    points: Vec<(u8, Option<PlayError>, Vec<Option<PlayError>>, bool, Vec<bool>)>,
    legal: Vec<usize>,
    groups: Vec<(u8, Vec<(i32, i32)>, Vec<(i32, i32)>)>,
    floating: Vec<Vec<(i32, i32)>>,
    terr: [Vec<usize>; 2],
    history: usize,
    after: Vec<Option<Vec<u8>>>,
}
fn view(g: &Game, pl: &Place, step: usize, back: &std::collections::HashMap<usize, (i32, i32)>) -> Result<View, String> {
    let gr = Grid::read(g.goban());
    let t = pl.t;
    let n = pl.sh * pl.sw;
    let swap = t.0 & 8 != 0;
    let rel = |v: &[usize]| -> Result<Vec<(i32, i32)>, String> {
        let mut x = vec![];
        for q in v {
            x.push(*back.get(q).ok_or_else(|| format!("point {:?} is far from every stone", gr.coord(*q)))?);
        }
        x.sort_unstable();
        Ok(x)
    };
    let turn = uncol(g.turn());
    let mut points_ = vec![];
    let mut after = vec![];
    for p in 0..n {
        let q = pl.pt(p);
        let co = gr.coord(q);
        let mut v = vec![];
        let mut eyes = vec![];
        let mut cap = false;
        let mut sim = None;
        let verdict = g.check_point(co);
        if gr.c[q] == E {
            let r = gr.play(q, turn, false);
            for f in [KO, SUICIDE, FILLEYE, SUPERKO] {
                if f == SUPERKO && r.is_suicide {
                    continue;
                }
                v.push(g.check_point_by(co, fl(f)));
            }
            for x in [B, W] {
                eyes.push(g.check_eye(stone(&gr, q, t.colour(x))));
                eyes.push(g.check_suicide(stone(&gr, q, t.colour(x))));
            }
            cap = g.will_capture(co);
            if !r.is_suicide && (cap || (p + step) % 5 == 0) {
                let b = Grid::read(&g.play_for_verification(co));
                sim = Some((0..n).map(|p| t.colour(b.c[pl.pt(p)])).collect());
            }
        }
        points_.push((t.colour(gr.c[q]), verdict, v, cap, eyes));
        after.push(sim);
    }
    let all: std::collections::BTreeSet<usize> = points(&gr, g.legals())?.into_iter().collect();
    let legal = (0..n).filter(|&p| all.contains(&pl.pt(p))).collect();
    let mut groups = vec![];
    for (c, st, libs) in chains_of(g.goban(), &gr)? {
        groups.push((t.colour(c), rel(&st)?, rel(&libs)?));
    }
    groups.sort();
    let mut lib2 = vec![];
    for (c, k, l) in libs_of(g.goban()) {
        lib2.push((t.colour(c), k as usize, rel(&l)?));
    }
    lib2.sort();
    let mut want: Vec<_> = groups.iter().map(|(c, s, l)| (*c, s.len(), l.clone())).collect();
    want.sort();
    ensure!(lib2 == want, "the groups know the liberties {lib2:?}, their stones have {want:?}");
    let mut floating = vec![];
    for f in floating_stones(g, &gr)? {
        floating.push(rel(&f)?);
    }
    floating.sort();
    let (a, b) = g.get_territories();
    let a: std::collections::BTreeSet<usize> = points(&gr, a.map(|p| p.coord))?.into_iter().collect();
    let b: std::collections::BTreeSet<usize> = points(&gr, b.map(|p| p.coord))?.into_iter().collect();
    let of = |s: &std::collections::BTreeSet<usize>| -> Vec<usize> { (0..n).filter(|&p| s.contains(&pl.pt(p))).collect() };
    let terr = if swap { [of(&b), of(&a)] } else { [of(&a), of(&b)] };
    let pr = g.prisoners();
    Ok(View {
        turn: t.colour(turn),
        over: g.is_over(),
        prisoners: if swap { (pr.1, pr.0) } else { pr },
        points: points_,
        legal,
        groups,
        floating,
        terr,
        history: g.history().count(),
        after,
    })
}
fn c17_moved(x: &Moved, rec: &mut Rec) -> R {
    let shape = setup_grid(x.sh as usize, x.sw as usize, &x.setup);
    let pl = [Place::new(&shape, Sym(0), x.room[0]), Place::new(&shape, Sym(x.sym & 15), x.room[1])];
    let mut games: Vec<Game> = pl.iter().map(|p| make_game(&p.grid, x.rule.rule(), Some(p.t.colour(if x.white { W } else { B }) == W))).collect();
    let backs = [pl[0].back(), pl[1].back()];
    let (mut caps, mut refused) = (0, 0);
    let n = shape.len();
    let show = |g: &Game| Grid::read(g.goban()).show();
    for (i, op) in x.ops.iter().enumerate() {
        let v = [view(&games[0], &pl[0], i, &backs[0])?, view(&games[1], &pl[1], i, &backs[1])?];
        if v[0] != v[1] {
            let d = |a: &View| {
                let s = format!("{a:?}");
                s
            };
            let (a, b) = (d(&v[0]), d(&v[1]));
            let k = a.bytes().zip(b.bytes()).take_while(|(x, y)| x == y).count();
            let cut = |s: &str| s.chars().skip(k.saturating_sub(120)).take(300).collect::<String>();
            return Err(format!("before step {i}: the same shape is seen as\n..{}\nand elsewhere as\n..{}\n{}\n{}", cut(&a), cut(&b), show(&games[0]), show(&games[1])));
        }
        let gr = Grid::read(games[0].goban());
        refused += (0..n).filter(|&p| v[0].points[p].0 == E && v[0].points[p].1.is_some()).count();
        let act = |pl: &Place, p: usize| Act::Try(pl.pt(p));
        let mv = if v[0].over {
            Act::Resume
        } else if op.k < 14 {
            Act::Pass
        } else {
            let taking: Vec<usize> = (0..n).filter(|&p| v[0].points[p].3).collect();
            let list: Vec<usize> = if op.k < 110 && !taking.is_empty() { taking } else { (0..n).filter(|&p| v[0].points[p].0 == E).collect() };
            if list.is_empty() {
                Act::Pass
            } else {
                Act::Try(list[op.a as usize % list.len()])
            }
        };
        let before = gr.c.iter().filter(|&&c| c != E).count();
        let mut res = vec![];
        for k in 0..2 {
            let a = match mv {
                Act::Try(p) => act(&pl[k], p),
                ref a => a.clone(),
            };
            let gr = Grid::read(games[k].goban());
            res.push(perform(&mut games[k], &gr, &a));
        }
        ensure!(res[0] == res[1], "step {i}, {mv:?}: {:?}, elsewhere {:?}\n{}\n{}", res[0], res[1], show(&games[0]), show(&games[1]));
        let now = Grid::read(games[0].goban()).c.iter().filter(|&&c| c != E).count();
        caps += u64::from(res[0].1 && matches!(mv, Act::Try(_)) && now <= before);
    }
    rec.nontrivial = caps > 0 && refused > 0;
    rec.tagn("captures", caps);
    rec.tagn("empty points refused", refused as u64);
    if pl[0].grid.h != pl[1].grid.h || pl[0].grid.w != pl[1].grid.w {
        rec.tag("boards of different sizes")
    }
    if rec.want_sample {
        rec.sample = Some(json!(format!("{}x{} and {}x{}, symmetry {}: {}", pl[0].grid.h, pl[0].grid.w, pl[1].grid.h, pl[1].grid.w, x.sym, show(&games[0]).replace('\n', "/"))));
    }
    Ok(())
}
fn s17_moved(_t: bool) -> BoxedStrategy<Moved> {
    let dim = || prop_oneof![6 => 2u8..=4, 1 => Just(1u8), 2 => 4u8..=6, 1 => 6u8..=15];
    (dim(), dim(), 0u8..16)
        .prop_flat_map(|(sh, sw, sym)| {
            let room = |h: u8, w: u8| {
                let one = |d: u8| prop_oneof![2 => Just((1u8, 1u8)), 1 => (1u8..=18 - d, 1u8..=18 - d).prop_map(move |(a, b)| (a, b.min(19 - d - a).max(1))), 1 => (1u8..=18 - d).prop_map(move |a| (a, 19 - d - a))];
                (one(h), one(w)).prop_map(|(v, u)| (v.0, u.0, v.1, u.1))
            };
            let (h2, w2) = if sym & 4 != 0 { (sw, sh) } else { (sh, sw) };
            (
                (Just(sh), Just(sw), Just(sym)),
                setup_strategy(),
                rule_strategy([25, 20, 55], 0, 0),
                (room(sh, sw), room(h2, w2)),
                any::<bool>(),
                prop::collection::vec((any::<u8>(), any::<u16>()).prop_map(|(k, a)| RawOp { k, a }), 4..60),
            )
        })
        .prop_map(|((sh, sw, sym), setup, rule, (a, b), white, ops)| Moved { sh, sw, setup, rule, sym, room: [a, b], white, ops })
        .boxed()
}

// ---------------------------------------------------------------- C18
pub fn eye_laws(g: &Game, gr: &Grid, p: usize, x: u8) -> Result<bool, String> {
    let co = gr.coord(p);
    let v = g.check_eye(stone(gr, p, x));
    if gr.c[p] != E {
        ensure!(!v, "the occupied point {co:?} is an eye of colour {x}");
        return Ok(v);
    }
    let nb = gr.nb(p);
    let dg = gr.diag(p);
    let cross = nb.iter().all(|&q| gr.c[q] == x);
    if v {
        ensure!(cross, "{co:?} is an eye of colour {x} but not every neighbour holds it");
    }
    if cross && dg.iter().all(|&q| gr.c[q] == x) {
        ensure!(v, "{co:?} is fully surrounded by colour {x} but no eye");
    }
    let bad = dg.iter().filter(|&&q| gr.c[q] == opp(x)).count();
    let corner = dg.len() == 1 && nb.len() == 2;
    if bad >= 2 || (corner && bad >= 1) {
        ensure!(!v, "{co:?} has {bad} diagonals of the opponent but is an eye of colour {x}");
    }
    Ok(v)
}
#[derive(Default)]
pub(crate) struct O18 {
    eyes: u64,
    falses: u64,
    partial: u64,
}
impl O18 {
    fn judge(&mut self, g: &Game, gr: &Grid, turn: u8, rule: &Rule, playable: &dyn Fn(usize) -> bool) -> R {
        let mut mine = vec![];
        for p in 0..gr.len() {
            for x in [B, W] {
                let v = eye_laws(g, gr, p, x)?;
                let cross = gr.c[p] == E && gr.nb(p).iter().all(|&q| gr.c[q] == x);
                self.eyes += u64::from(v);
                self.falses += u64::from(cross && !v);
                self.partial += u64::from(v && !gr.diag(p).iter().all(|&q| gr.c[q] == x));
                if v && x == turn {
                    mine.push(p)
                }
            }
            if gr.c[p] == E {
                let v = g.check_point_by(gr.coord(p), fl(FILLEYE));
                let want = mine.contains(&p);
                ensure!(v == if want { Some(PlayError::FillEye) } else { None }, "{:?}, own eye {want}: verdict {v:?}", gr.coord(p));
            }
        }
        let base = rule.flag_illegal - IllegalRules::FILLEYE;
        for b in [base, fl(0), fl(KO), fl(SUICIDE), fl(KO | SUICIDE), fl(SUPERKO)] {
            let a = points(gr, g.legals_by(b))?;
            let e = points(gr, g.legals_by(b | IllegalRules::FILLEYE))?;
            let want: Vec<usize> = a.iter().copied().filter(|p| !mine.contains(p)).collect();
            ensure!(e == want, "legal moves under {b:?} {a:?}, with eye filling forbidden {e:?}, own eyes {mine:?}");
            for &p in &a {
                let v = g.check_point_by(gr.coord(p), b | IllegalRules::FILLEYE);
                let want = if mine.contains(&p) { Some(PlayError::FillEye) } else { None };
                ensure!(v == want, "{:?}: verdict {v:?} under {b:?} with eye filling forbidden, expected {want:?}", gr.coord(p));
            }
        }
        let _ = playable;
        Ok(())
    }
}
impl Observer for O18 {
    fn state(&mut self, g: &mut Game, c: &Ctx) -> R {
        self.judge(g, &c.grid, c.turn, &c.rule, &|p| c.playable(p))
    }
    fn after(&mut self, _g: &mut Game, c: &Ctx, s: &StepRes) -> R {
        if let (Act::Try(p), true) = (s.act, c.rule.flag_illegal.contains(IllegalRules::FILLEYE)) {
            if s.accepted {
                let full = c.grid.nb(*p).iter().chain(&c.grid.diag(*p)).all(|&q| c.grid.c[q] == c.turn);
                ensure!(!full, "filling an own eye at {:?} was accepted", c.grid.coord(*p));
            }
        } else if let (Act::Try(_), Some(PlayError::FillEye)) = (s.act, s.err) {
            return Err("refused as eye filling although that is allowed".into());
        }
        Ok(())
    }
}
pub(crate) fn cfg18() -> Cfg {
    Cfg { rules: [20, 15, 65], set_flags: 0, ..Cfg::default() }.with(Kind::Uniform, 40).with(Kind::NoEye, 8)
}
fn c18(sc: &Scenario, rec: &mut Rec) -> R {
    let mut o = O18 { eyes: 0, falses: 0, partial: 0 };
    go(sc, &cfg18(), &mut o, rec)?;
    rec.nontrivial = o.eyes > 0 && o.falses > 0;
    rec.tagn("eyes judged", o.eyes);
    rec.tagn("surrounded points that are no eyes", o.falses);
    rec.tagn("eyes with an imperfect diagonal", o.partial);
    Ok(())
}

/// Dense positions full of eye shapes.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct EyeGrid {
    pub h: u8,
    pub w: u8,
    pub main: bool,
    /// 0..=255 per point, thresholds decide
    pub cells: Vec<u8>,
    pub dens: u8,
    pub turn: bool,
    pub rule: RuleSpec,
}
pub fn eye_grid(x: &EyeGrid) -> Grid {
    let mut g = Grid::new(x.h as usize, x.w as usize);
    for p in 0..g.len() {
        let v = x.cells[p % x.cells.len()];
        // dens: share of the other colour; about a fifth stays empty
        g.c[p] = if v < 40 {
            E
        } else if v < 40 + x.dens % 90 {
            if x.main { W } else { B }
        } else if x.main {
            B
        } else {
            W
        };
    }
    g.strip_dead();
    g
}
pub fn eye_grid_strategy(_t: bool) -> BoxedStrategy<EyeGrid> {
    (size_strategy([30, 40, 25, 4, 1]), any::<bool>(), any::<u8>(), any::<bool>(), rule_strategy([20, 20, 60], 0, 0))
        .prop_flat_map(|((h, w), main, dens, turn, rule)| {
            prop::collection::vec(any::<u8>(), h as usize * w as usize).prop_map(move |cells| EyeGrid { h, w, main, cells, dens, turn, rule: rule.clone() })
        })
        .boxed()
}
fn c18_static(x: &EyeGrid, rec: &mut Rec) -> R {
    let gr = eye_grid(x);
    let g = make_game(&gr, x.rule.rule(), Some(x.turn));
    let mut o = O18 { eyes: 0, falses: 0, partial: 0 };
    o.judge(&g, &gr, if x.turn { W } else { B }, &x.rule.rule(), &|_| true).map_err(|m| format!("{m}\n{}", gr.show()))?;
    rec.nontrivial = o.eyes > 0 && o.falses > 0;
    rec.tagn("eyes judged", o.eyes);
    rec.tagn("surrounded points that are no eyes", o.falses);
    rec.tagn("eyes with an imperfect diagonal", o.partial);
    if rec.want_sample {
        rec.sample = Some(json!(gr.show().replace('\n', "/")));
    }
    Ok(())
}

// ---------------------------------------------------------------- C22
struct O22 {
    want: Vec<Grid>,
    repeats: u64,
    idle: u64,
}
impl O22 {
    fn agree(&self, g: &Game) -> R {
        // in very long games the last entries, and now and then all of them
        let n = g.history().count();
        let skip = if n > 600 && n % 64 != 0 { n.min(self.want.len()) - 3 } else { 0 };
        if skip > 0 {
            ensure!(n == self.want.len(), "history has {n} entries, expected {}", self.want.len());
            let got: Vec<Grid> = g.history().skip(skip).map(Grid::read).collect();
            ensure!(got == self.want[skip..], "the last entries of the history are wrong");
            return Ok(());
        }
        let got: Vec<Grid> = g.history().map(Grid::read).collect();
        if got != self.want {
            let k = (0..got.len().max(self.want.len())).find(|&k| got.get(k) != self.want.get(k)).unwrap();
            let show = |v: &Vec<Grid>| v.get(k).map_or("nothing\n".into(), |x: &Grid| x.show());
            return Err(format!("history has {} entries, expected {}; entry {k} is\n{}expected\n{}", got.len(), self.want.len(), show(&got), show(&self.want)));
        }
        Ok(())
    }
}
impl Observer for O22 {
    fn state(&mut self, g: &mut Game, c: &Ctx) -> R {
        self.agree(g)?;
        if c.step % 8 == 0 {
            poke(g, &c.grid, false);
            self.agree(g)?;
        }
        Ok(())
    }
    fn after(&mut self, g: &mut Game, c: &Ctx, s: &StepRes) -> R {
        if s.accepted && matches!(s.act, Act::Try(_) | Act::Force(_)) {
            if c.seen_set.contains(&c.grid.c) {
                self.repeats += 1;
            } else {
                self.want.push(c.grid.clone());
            }
        } else {
            self.idle += 1;
        }
        self.agree(g)
    }
    fn finish(&mut self, g: &mut Game, c: &Ctx) -> R {
        // boards of the history are full boards: groups and all
        for (b, r) in g.history().zip(&self.want) {
            groups_audit(b, r)?;
        }
        if let Some(f) = self.want.first() {
            ensure!(*f == c.start, "the first entry is not the starting position");
        }
        if self.repeats == 0 {
            ensure!(g.history().count() == c.played[1] + c.played[2], "entries and plays differ in a game without repetition");
        }
        Ok(())
    }
}
pub(crate) fn cfg22() -> Cfg {
    Cfg { rules: [25, 20, 55], sizes: [50, 32, 15, 2, 1], ..Cfg::default() }.with(Kind::Cycle, 6).with(Kind::Force, 5).with(Kind::Wild, 6)
}
fn c22(sc: &Scenario, rec: &mut Rec) -> R {
    let mut o = O22 { want: vec![], repeats: 0, idle: 0 };
    go(sc, &cfg22(), &mut o, rec)?;
    rec.nontrivial = o.idle > 0 && o.want.len() > 10;
    rec.tagn("repeated positions", o.repeats);
    rec.tagn("steps that must not be recorded", o.idle);
    Ok(())
}

// ---------------------------------------------------------------- C24
struct O24 {
    floating: u64,
    safe: u64,
    rule: Rule,
}
pub(crate) fn floating_stones(g: &Game, r: &Grid) -> Result<Vec<Vec<usize>>, String> {
    let ids = g.get_floating_stones();
    let mut d = ids.clone();
    d.sort_unstable();
    d.dedup();
    ensure!(d.len() == ids.len(), "a group is reported twice: {ids:?}");
    let mut v = vec![];
    for id in ids {
        let (_, mut st) = chain(g.goban(), r, id)?;
        st.sort_unstable();
        v.push(st);
    }
    v.sort();
    Ok(v)
}
fn judge24(g: &Game, r: &Grid) -> Result<(Vec<Vec<usize>>, usize), String> {
    let mut want = vec![];
    let mut safe = 0;
    for x in r.groups() {
        let mut eyes: Vec<usize> = x.libs.clone();
        eyes.retain(|&p| g.check_eye(stone(r, p, x.color)));
        if eyes.len() < 2 {
            want.push(x.stones)
        } else {
            safe += 1
        }
    }
    want.sort();
    let got = guarded(|| floating_stones(g, r)).map_err(|m| format!("panic: {m}"))??;
    ensure!(got == want, "floating groups {got:?}\nexpected {want:?}");
    Ok((got, safe))
}
impl Observer for O24 {
    fn state(&mut self, g: &mut Game, c: &Ctx) -> R {
        if c.grid.len() == 1 || (c.grid.len() > 100 && c.step % 4 != 0) {
            return Ok(());
        }
        let (a, safe) = judge24(g, &c.grid)?;
        self.floating += a.len() as u64;
        self.safe += safe as u64;
        if c.step % 6 == 0 {
            let f = make_game(&c.grid, self.rule, Some(c.turn == W));
            let b = floating_stones(&f, &c.grid)?;
            ensure!(a == b, "floating groups {a:?} on the played board, {b:?} on a fresh one");
        }
        Ok(())
    }
}
pub(crate) fn cfg24() -> Cfg {
    Cfg { rules: [25, 20, 55], sizes: [30, 40, 22, 6, 2], set_flags: FILLEYE, ..Cfg::default() }.with(Kind::Uniform, 40).with(Kind::NoEye, 8)
}
fn c24(sc: &Scenario, rec: &mut Rec) -> R {
    let mut o = O24 { floating: 0, safe: 0, rule: sc.rule.rule() };
    go(sc, &cfg24(), &mut o, rec)?;
    rec.nontrivial = o.floating > 0 && o.safe > 0;
    rec.tagn("floating groups", o.floating);
    rec.tagn("groups with two eyes", o.safe);
    Ok(())
}
fn c24_static(x: &EyeGrid, rec: &mut Rec) -> R {
    let gr = eye_grid(x);
    let g = make_game(&gr, x.rule.rule(), Some(x.turn));
    let (a, safe) = judge24(&g, &gr).map_err(|m| format!("{m}\n{}", gr.show()))?;
    rec.nontrivial = safe > 0;
    rec.tagn("floating groups", a.len() as u64);
    rec.tagn("groups with two eyes", safe as u64);
    if rec.want_sample {
        rec.sample = Some(json!(gr.show().replace('\n', "/")));
    }
    Ok(())
}

pub fn scn(cfg: fn() -> Cfg) -> BoxedStrategy<Scenario> {
    scenario(&cfg())
}
macro_rules! strat {
    ($n:ident, $c:ident) => {
        fn $n(_t: bool) -> BoxedStrategy<Scenario> {
            scn($c)
        }
    };
}
strat!(s1, cfg1);
strat!(s2, cfg2);
strat!(s3, cfg3);
strat!(s4, cfg4);
strat!(s5, cfg5);
strat!(s7, cfg7);
strat!(s8, cfg8);
strat!(s9, cfg9);
strat!(s16, cfg16);
strat!(s18, cfg18);
strat!(s22, cfg22);
strat!(s24, cfg24);
fn s6(_t: bool) -> BoxedStrategy<Fork> {
    (scn(cfg6), any::<u8>(), ops_strategy(60), any::<u8>()).prop_map(|(sc, at, side, every)| Fork { sc, at, side, every }).boxed()
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct LongFork {
    pub m: Marathon,
    pub at: u8,
    pub side: Vec<RawOp>,
    pub every: u8,
}
fn s6_long(_t: bool) -> BoxedStrategy<LongFork> {
    (marathon(&cfg6(), 10), any::<u8>(), ops_strategy(60), any::<u8>()).prop_map(|(m, at, side, every)| LongFork { m, at, side, every }).boxed()
}
fn c06_long(x: &LongFork, rec: &mut Rec) -> R {
    c06(&Fork { sc: x.m.scenario(), at: x.at, side: x.side.clone(), every: x.every }, rec)
}
fn s17(_t: bool) -> BoxedStrategy<Image> {
    (scn(cfg17), 1u8..16).prop_map(|(sc, sym)| Image { sc, sym }).boxed()
}

macro_rules! prop {
    ($name:expr, $rule:expr, $strat:expr, $check:expr, $q:expr, $t:expr) => {
        Box::new(Prop { name: $name, rule: $rule, strat: $strat, check: $check, quick: $q, thorough: $t, shrink: 6000 }) as Box<dyn Part>
    };
}
pub(crate) use prop;

/// A game of thousands of acts.
pub(crate) fn marathon_case(check: fn(&Scenario, &mut Rec) -> R, x: &Marathon, rec: &mut Rec) -> R {
    check(&x.scenario(), rec)?;
    rec.nontrivial &= x.total >= 500;
    if x.total > 200_000 {
        rec.tag("over 200,000 acts")
    } else if x.total > 65536 {
        rec.tag("over 65,536 acts")
    }
    Ok(())
}
macro_rules! marathon_part {
    ($cfg:expr, $weight:expr, $check:expr, $q:expr, $t:expr) => {
        prop!("marathons", "games of 500 to 400,000 acts, a list of operations gone through again and again with other choices; same oracle as the games; non-trivial as there", |_| marathon(&$cfg, $weight), |x, rec| crate::props_game::marathon_case($check, x, rec), $q, $t)
    };
}

/// What is telling about a case that starts with a large group.
fn mass_case(check: fn(&Scenario, &mut Rec) -> R, x: &Scenario, rec: &mut Rec) -> R {
    check(x, rec)?;
    let big = x.start_grid().groups().into_iter().filter(|g| g.libs.len() == 1).map(|g| g.stones.len()).max().unwrap_or(0);
    rec.nontrivial = big > 30;
    if big > 255 {
        rec.tag("over 255 stones")
    }
    Ok(())
}

pub fn table() -> Vec<(&'static str, Vec<Box<dyn Part>>)> {
    vec![
        ("C01", vec![
            marathon_part!(cfg1(), 3, c01, 64, 500),
            prop!("large captures", "games that start with the capture of one group of up to 300 stones, half of them right after it took a single stone on its last liberty; same oracle as the games; non-trivial: a group of over 30 stones in atari at the start", |_| mass_scenario(&cfg1()), |x, rec| mass_case(c01, x, rec), 3000, 20000),
            prop!("games", "random games (sizes 1x1..19x19, all rule flags, setup shapes, tactical move choices); every accepted move and up to 6 capturing alternatives per state compared with a flood-fill reference; non-trivial: a move that removed stones", s1, c01, 36000, 400000)]),
        ("C02", vec![
            marathon_part!(cfg2(), 3, c02, 64, 500),
            prop!("large captures", "games that start with the capture of one group of up to 300 stones, half of them right after it took a single stone on its last liberty; same oracle as the games; non-trivial: a group of over 30 stones in atari at the start", |_| mass_scenario(&cfg2()), |x, rec| mass_case(c02, x, rec), 3000, 20000),
            prop!("games", "random games; in every state every point's verdict compared with the reference; non-trivial: at least one suicidal and one surrounded but playable point", s2, c02, 30000, 300000)]),
        ("C03", vec![
            marathon_part!(cfg3(), 2, c03, 96, 600),
            prop!("large captures", "games that start with the capture of one group of up to 300 stones, half of them right after it took a single stone on its last liberty; same oracle as the games; non-trivial: a group of over 30 stones in atari at the start", |_| mass_scenario(&cfg3()), |x, rec| mass_case(c03, x, rec), 6000, 60000),
            prop!("games", "random games rich in kos; every empty point in every state judged against the definition of the immediate recapture; non-trivial: at least one ko point", s3, c03, 72000, 300000)]),
        ("C04", vec![
            marathon_part!(Cfg { set_flags: 0, rules: [15, 10, 75], ..cfg4() }, 2, c04, 96, 500),
            prop!("large captures", "games that start with the capture of one group of up to 300 stones, half of them right after it took a single stone on its last liberty; same oracle as the games; non-trivial: a group of over 30 stones in atari at the start", |_| mass_scenario(&cfg4()), |x, rec| mass_case(c04, x, rec), 2000, 20000),
            prop!("games", "random games on mostly small boards with long cycles; every playable point compared with the set of earlier positions; non-trivial: a repetition that is not a simple ko", s4, c04, 32000, 200000),
            prop!("colliding fingerprints", "games of 30 to 90 stones built by linear algebra so that the last stone brings back an earlier fingerprint with a different position: it has to be legal; non-trivial: the fingerprints do collide", crate::props_hash::s_games, crate::props_hash::game, 12000, 200000),
        ]),
        ("C05", vec![
            marathon_part!(cfg5(), 4, c05, 48, 300),prop!("games", "random games; lists, verdicts and attempts compared in every state, and all 16 sets of forbidden behaviours with their parts; non-trivial: an empty point refused", s5, c05, 10000, 120000)]),
        ("C06", vec![
            prop!("marathons", "games of 500 to 10,000 acts, a list of operations gone through again and again with other choices; same oracle as the games; non-trivial as there", s6_long, c06_long, 32, 300),
            prop!("games with a twin and copies", "random games followed by a twin that only receives accepted acts, complete query sweeps and refused attempts in between, a copy played apart and a copy played along; non-trivial: a refusal and a copy", s6, c06, 10000, 120000)]),
        ("C07", vec![
            marathon_part!(cfg7(), 1, c07, 64, 500),
            prop!("large captures", "games that start with the capture of one group of up to 300 stones, half of them right after it took a single stone on its last liberty; same oracle as the games; non-trivial: a group of over 30 stones in atari at the start", |_| mass_scenario(&cfg7()), |x, rec| mass_case(c07, x, rec), 2000, 20000),
            prop!("protocols", "random histories rich in passes, pauses, resumptions and resignations against a four-field model; non-trivial: a resumption and a pass run broken by a play", s7, c07, 64000, 250000)]),
        ("C08", vec![
            marathon_part!(cfg8(), 1, c08, 128, 500),
            prop!("large captures", "games that start with the capture of one group of up to 300 stones, half of them right after it took a single stone on its last liberty; same oracle as the games; non-trivial: a group of over 30 stones in atari at the start", |_| mass_scenario(&cfg8()), |x, rec| mass_case(c08, x, rec), 6000, 60000),
            prop!("games", "random games; stone balance of both colours after every act; non-trivial: stones of both colours removed", s8, c08, 96000, 300000)]),
        ("C09", vec![
            marathon_part!(cfg9(), 2, c09, 64, 300),
            prop!("large captures", "games that start with the capture of one group of up to 300 stones, half of them right after it took a single stone on its last liberty; same oracle as the games; non-trivial: a group of over 30 stones in atari at the start", |_| mass_scenario(&cfg9()), |x, rec| mass_case(c09, x, rec), 3000, 20000),
            prop!("games", "random games; complete comparison of the groups with flood fill after every act; non-trivial: a merge and a removal", s9, c09, 18000, 150000)]),
        ("C16", vec![
            marathon_part!(cfg16(), 6, c16, 48, 200),
            prop!("large captures", "games that start with the capture of one group of up to 300 stones, half of them right after it took a single stone on its last liberty; same oracle as the games; non-trivial: a group of over 30 stones in atari at the start", |_| mass_scenario(&cfg16()), |x, rec| mass_case(c16, x, rec), 600, 20000),
            prop!("games", "random games; every playable point of every state simulated and played on a copy; non-trivial: a capture simulated and a suicidal point judged", s16, c16, 5000, 150000)]),
        ("C17", vec![prop!("games and their images", "random games played alongside their image under one of 15 symmetries; all observations compared in every state; non-trivial: an empty point refused and stones removed", s17, c17, 12000, 120000),
            prop!("shapes moved about", "a random shape of up to 15x15 points played in two places, on boards of different sizes, turned, mirrored or with colours exchanged, an empty line all round; everything observed at its points compared after every act; non-trivial: a capture and an empty point refused", s17_moved, c17_moved, 12000, 100000),
        ]),
        ("C18", vec![
            marathon_part!(cfg18(), 4, c18, 64, 200),
            prop!("games", "random games with eyes; every point judged for both colours in every state and the eye filter compared; non-trivial: an eye and a surrounded point that is none", s18, c18, 20000, 120000),
            prop!("positions", "dense random positions; same laws; non-trivial: an eye and a surrounded point that is none", eye_grid_strategy, c18_static, 100000, 600000),
        ]),
        ("C22", vec![
            marathon_part!(cfg22(), 5, c22, 48, 300),
            prop!("large captures", "games that start with the capture of one group of up to 300 stones, half of them right after it took a single stone on its last liberty; same oracle as the games; non-trivial: a group of over 30 stones in atari at the start", |_| mass_scenario(&cfg22()), |x, rec| mass_case(c22, x, rec), 3000, 20000),
            prop!("games", "random games with repetitions; recorded history compared with the observed positions after every act; non-trivial: over ten entries and a step that must not be recorded", s22, c22, 24000, 150000),
            prop!("colliding fingerprints", "games built by linear algebra in which different positions have the same fingerprint: the history lists them all; non-trivial: the fingerprints do collide", crate::props_hash::s_games, crate::props_hash::game, 12000, 200000),
        ]),
        ("C24", vec![
            marathon_part!(cfg24(), 4, c24, 64, 200),
            prop!("large captures", "games that start with the capture of one group of up to 300 stones, half of them right after it took a single stone on its last liberty; same oracle as the games; non-trivial: a group of over 30 stones in atari at the start", |_| mass_scenario(&cfg24()), |x, rec| mass_case(c24, x, rec), 2000, 20000),
            
            prop!("games", "random games with eyes; reported groups compared with counting eyes next to each group; non-trivial: floating and safe groups", s24, c24, 40000, 150000),
            prop!("positions", "dense random positions; same oracle; non-trivial: a group with two eyes", eye_grid_strategy, c24_static, 160000, 600000),
        ]),
    ]
}
