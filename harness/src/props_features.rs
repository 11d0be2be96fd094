//! The library with and without its optional features and its debug assertions.
use crate::audit::*;
use crate::grid::*;
use crate::props_game::prop;
use crate::props_io::{nasty_text, record, s19, s20, Nasty, Record};
use crate::runner::*;
use crate::scen::*;
use crate::tale::{tell, Tale, EXTRA};
use goban::rules::game::Game;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};
use serde_json::json;
use std::cell::RefCell;
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};

const SETS: [&str; 3] = ["none", "history", "deadstones"];

struct Teller {
    child: Child,
    to: ChildStdin,
    from: BufReader<ChildStdout>,
}
impl Teller {
    fn start(set: &str) -> Teller {
        let base = std::env::var("GOBAN_BARE").unwrap_or_else(|_| "/verif/target/bin/goban-bare-".into());
        let r = Command::new(format!("{base}{set}")).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn();
        match r {
            Ok(mut child) => {
                let (to, from) = (child.stdin.take().expect("piped"), BufReader::new(child.stdout.take().expect("piped")));
                Teller { child, to, from }
            }
            Err(e) => {
                // no answer, rather than a violation
                eprintln!("cannot run {base}{set}: {e}");
                std::process::exit(2);
            }
        }
    }
    fn tell(&mut self, line: &str) -> Result<Vec<String>, String> {
        let mut ask = || -> std::io::Result<String> {
            self.to.write_all(line.as_bytes())?;
            self.to.write_all(b"\n")?;
            self.to.flush()?;
            let mut s = String::new();
            self.from.read_line(&mut s)?;
            Ok(s)
        };
        let s = ask().map_err(|e| format!("the program compiled without them died: {e}"))?;
        serde_json::from_str(&s).map_err(|e| format!("the program compiled without them died: {e}"))
    }
}
impl Drop for Teller {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}
thread_local!(static TELLERS: RefCell<Vec<Teller>> = const { RefCell::new(vec![]) });

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Story {
    Played(Scenario),
    Recorded(Record),
    Text(Nasty),
}
#[derive(Default)]
struct O30 {
    acts: Vec<(u8, u16)>,
    stones: u64,
}
impl Observer for O30 {
    fn before(&mut self, _g: &mut Game, _c: &Ctx, a: &Act) -> R {
        self.acts.push(match *a {
            Act::Try(p) => (0, p as u16),
            Act::Force(p) => (1, p as u16),
            Act::Pass => (2, 0),
            Act::Resign(c) => (3, if c == W { 0 } else { 1 }),
            Act::Resume => (4, 0),
        });
        Ok(())
    }
    fn after(&mut self, _g: &mut Game, _c: &Ctx, s: &StepRes) -> R {
        self.stones += u64::from(s.accepted && matches!(s.act, Act::Try(_) | Act::Force(_)));
        Ok(())
    }
}
fn past(g: &Game) -> String {
    g.history().map(|b| Grid::read(b).show()).collect::<Vec<_>>().join("|")
}
/// What is seen without the features too, or all of it.
fn part_of(s: &str, all: bool) -> &str {
    if all {
        s
    } else {
        s.split(EXTRA).next().unwrap_or("")
    }
}
fn cfg30() -> Cfg {
    Cfg { rules: [30, 20, 50], sizes: [40, 30, 20, 6, 4], max_ops: 50, ..Cfg::default() }.with(Kind::Cycle, 6).with(Kind::Resume, 6)
}
fn c30(x: &Story, rec: &mut Rec) -> R {
    let mut stones = 0;
    let t = match x {
        Story::Played(sc) => {
            rec.tag("games");
            let mut o = O30::default();
            drive(sc, &cfg30(), &mut o)?;
            stones = o.stones;
            let start = sc.start_grid();
            let r = sc.rule.rule();
            Tale {
                size: (sc.h, sc.w),
                flags: r.flag_illegal.bits() as u8,
                score: r.flag_score.bits() as u8,
                komi: r.komi,
                stones: (0..start.len()).filter(|&p| start.c[p] != E).map(|p| (p as u16, start.c[p])).collect(),
                turn: uncol(sc.new_game().turn()),
                acts: o.acts,
                sgf: None,
            }
        }
        Story::Recorded(r) => {
            rec.tag("records");
            Tale { sgf: Some(record(r).sgf), ..Tale::default() }
        }
        Story::Text(n) => {
            rec.tag("texts");
            let (s, ex) = nasty_text(n);
            rec.excluded = ex;
            // a few acts on what was imported
            Tale { sgf: Some(s), acts: vec![(0, 0), (0, 1), (2, 0), (0, 2)], ..Tale::default() }
        }
    };
    note(|| json!(t).to_string());
    let here = tell(&t, past);
    let line = json!(t).to_string();
    TELLERS.with(|l| {
        let mut l = l.borrow_mut();
        if l.is_empty() {
            l.extend(SETS.iter().map(|s| Teller::start(s)));
        }
        for (k, set) in SETS.iter().enumerate() {
            let there = match l[k].tell(&line) {
                Ok(v) => v,
                Err(e) => {
                    l.clear();
                    return Err(format!("features {set}: {e}\ntale {line}"));
                }
            };
            let all = *set == "history";
            if let Some(i) = (0..here.len().max(there.len())).find(|&i| here.get(i).map(|s| part_of(s, all)) != there.get(i).map(|s| part_of(s, all))) {
                let n = "nothing".to_string();
                return Err(format!("after {i} acts, all features: {}\nfeatures {set}: {}\ntale {line}", here.get(i).unwrap_or(&n), there.get(i).unwrap_or(&n)));
            }
        }
        Ok(())
    })?;
    let accepted = !here.iter().any(|s| s.starts_with("refused") || s.starts_with("not built"));
    rec.nontrivial = match x {
        Story::Played(_) => stones >= 5,
        _ => accepted,
    };
    if rec.want_sample {
        rec.sample = Some(json!(line.chars().take(600).collect::<String>()));
    }
    Ok(())
}
fn s30(t: bool) -> BoxedStrategy<Story> {
    prop_oneof![6 => scenario(&cfg30()).prop_map(Story::Played), 1 => s19(t).prop_map(Story::Recorded), 1 => s20(t).prop_map(Story::Text)].boxed()
}

pub fn table() -> Vec<(&'static str, Vec<Box<dyn Part>>)> {
    vec![("C30", vec![prop!("feature sets", "random games, records and texts told to this program (all features; with and without debug assertions) and to programs compiled with no feature, with the history only and with the dead stones only: every observation must be the same; non-trivial: five stones played, or an accepted record", s30, c30, 30000, 400000)])]
}
