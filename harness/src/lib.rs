//! The properties of Sagebati/goban as executable checks over generated inputs.
mod audit;
mod grid;
mod props_board;
mod props_features;
mod props_game;
mod props_hash;
mod props_io;
mod props_misc;
mod props_terse;
pub mod runner;
mod scen;

mod tale;

use runner::Part;

/// The parts of one property's check.
pub fn table(id: &str) -> Vec<Box<dyn Part>> {
    let mut v = vec![];
    for t in [props_game::table(), props_board::table(), props_io::table(), props_misc::table(), props_features::table(), props_terse::table()] {
        for (k, parts) in t {
            if k == id {
                v.extend(parts);
            }
        }
    }
    v
}
