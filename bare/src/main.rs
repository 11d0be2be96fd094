//! The library compiled with a given set of features: plays the games it is given, one per
//! line, and answers what was seen, one line per game.
#[allow(dead_code)]
#[path = "../../harness/src/grid.rs"]
mod grid;
#[path = "../../harness/src/tale.rs"]
mod tale;
use std::io::{BufRead, Write};

#[cfg(feature = "history")]
fn past(g: &goban::rules::game::Game) -> String {
    g.history().map(|b| grid::Grid::read(b).show()).collect::<Vec<_>>().join("|")
}
#[cfg(not(feature = "history"))]
fn past(_: &goban::rules::game::Game) -> String {
    String::new()
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let mut out = std::io::stdout().lock();
    for line in std::io::stdin().lock().lines().map_while(Result::ok) {
        let seen = match serde_json::from_str::<tale::Tale>(&line) {
            Ok(t) => tale::tell(&t, past),
            Err(e) => vec![format!("unreadable: {e}")],
        };
        if writeln!(out, "{}", serde_json::to_string(&seen).expect("text")).and_then(|_| out.flush()).is_err() {
            return;
        }
    }
}
