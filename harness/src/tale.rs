//! A game told act by act, and what there is to see after each act: the same code is compiled
//! against the library with other features.
use crate::grid::*;
use goban::pieces::stones::{Color, Stone};
use goban::rules::game::Game;
use goban::rules::*;
use serde::{Deserialize, Serialize};
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Clone, Debug, Default, Serialize, Deserialize)]
pub struct Tale {
    pub size: (u8, u8),
    pub flags: u8,
    pub score: u8,
    pub komi: f32,
    /// point and colour
    pub stones: Vec<(u16, u8)>,
    pub turn: u8,
    /// checked attempt 0, play 1 (with the point), pass 2, resignation of the point's colour 3, resumption 4
    pub acts: Vec<(u8, u16)>,
    /// a record to import instead
    pub sgf: Option<String>,
}

/// Separates what only some features show.
pub const EXTRA: char = '\u{1}';

fn see(g: &Game, deep: bool, extra: fn(&Game) -> String) -> String {
    let r = Grid::read(g.goban());
    let mut s = format!(
        "{} turn {:?} prisoners {:?} over {} outcome {:?} komi {} score {:?} territory {:?} stones {:?} legal",
        r.show(), g.turn(), g.prisoners(), g.is_over(), g.outcome(), g.komi(), g.calculate_score(), g.calculate_territories(), g.number_of_stones()
    );
    let mut l: Vec<_> = g.legals().collect();
    l.sort_unstable();
    s.push_str(&format!("{l:?} verdicts "));
    for p in 0..r.len() {
        let at = r.coord(p);
        let v = g.check_point(at);
        s.push_str(&match v {
            None => "-".to_string(),
            Some(e) => format!("{e:?}")[..2].to_string(),
        });
        if deep && r.c[p] == E {
            for f in 0..4 {
                s.push(if g.check_point_by(at, IllegalRules::from_bits_truncate(1 << f)).is_some() { 'x' } else { '.' });
            }
            for color in [Color::Black, Color::White] {
                let st = Stone { coord: at, color };
                s.push_str(&format!("{}{}", u8::from(g.check_eye(st)), u8::from(g.check_suicide(st))));
            }
            s.push(if g.will_capture(at) { 'c' } else { ' ' });
        }
    }
    if deep {
        let mut groups: Vec<String> = g.chains().map(|c| format!("{:?}{}{:?}", c.color, c.num_stones, c.liberties())).collect();
        groups.sort_unstable();
        s.push_str(&format!(" groups {groups:?} diagram {}", g.pretty_string()));
    }
    s.push(EXTRA);
    s.push_str(&extra(g));
    s
}

/// What is seen at the start and after each act; a panic ends the tale.
pub fn tell(t: &Tale, extra: fn(&Game) -> String) -> Vec<String> {
    let mut seen = vec![];
    let r = catch_unwind(AssertUnwindSafe(|| {
        let mut g = match &t.sgf {
            Some(s) => match Game::from_sgf(s) {
                Ok(g) => g,
                Err(e) => {
                    seen.push(format!("refused: {e}"));
                    return;
                }
            },
            None => {
                let mut b = Game::builder();
                b.size(t.size).turn(col(t.turn)).rule(Rule {
                    komi: t.komi,
                    flag_illegal: IllegalRules::from_bits_truncate(t.flags as u32),
                    flag_score: ScoreRules::from_bits_truncate(t.score as u32),
                });
                for &(p, c) in &t.stones {
                    let w = t.size.1 as u16;
                    b.add(Stone { coord: ((p / w) as u8, (p % w) as u8), color: col(c) });
                }
                match b.build() {
                    Ok(g) => g,
                    Err(e) => {
                        seen.push(format!("not built: {e}"));
                        return;
                    }
                }
            }
        };
        seen.push(see(&g, true, extra));
        let w = (g.size().1 as u16).max(1);
        for (i, &(k, p)) in t.acts.iter().enumerate() {
            let at = Move::Play((p / w) as u8, (p % w) as u8);
            let res = match k {
                0 => g.try_play(at).map(|_| ()),
                1 => {
                    g.play(at);
                    Ok(())
                }
                2 => g.try_play(Move::Pass).map(|_| ()),
                3 => g.try_play(Move::Resign(if p % 2 == 0 { Color::White } else { Color::Black })).map(|_| ()),
                _ => {
                    g.resume();
                    Ok(())
                }
            };
            seen.push(format!("{res:?} {}", see(&g, i % 6 == 0 || r25(&g), extra)));
        }
    }));
    if r.is_err() {
        seen.push("panic".into());
    }
    seen
}
fn r25(g: &Game) -> bool {
    let (h, w) = g.size();
    h as usize * w as usize <= 25
}
