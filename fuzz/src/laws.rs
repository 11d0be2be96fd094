#![no_main]
//! Coverage-guided search over the random choices of a generator (or over SGF texts):
//! FUZZ_ID and FUZZ_PART name the property's part, a failing case is written, shrunk,
//! to FUZZ_FAIL, and FUZZ_STATS receives the counts.
use goban_pbt::runner::{install_hook, Part};
use libfuzzer_sys::fuzz_target;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
use std::sync::OnceLock;

static PART: OnceLock<(Box<dyn Part>, String, String)> = OnceLock::new();
static RUNS: AtomicU64 = AtomicU64::new(0);
static TELLING: AtomicU64 = AtomicU64::new(0);

fn var(n: &str) -> String {
    std::env::var(n).unwrap_or_default()
}

fuzz_target!(|data: &[u8]| {
    let (part, fail, stats) = PART.get_or_init(|| {
        install_hook();
        let (id, name) = (var("FUZZ_ID"), var("FUZZ_PART"));
        let p = goban_pbt::table(&id).into_iter().find(|p| p.name() == name).expect("no such part");
        (p, var("FUZZ_FAIL"), var("FUZZ_STATS"))
    });
    match part.fuzz(data) {
        Ok(t) => {
            TELLING.fetch_add(t as u64, Relaxed);
        }
        Err((case, message)) => {
            let _ = std::fs::write(fail, serde_json::json!({"case": case, "message": message}).to_string());
            std::process::abort();
        }
    }
    let n = RUNS.fetch_add(1, Relaxed) + 1;
    if n % 64 == 0 {
        let _ = std::fs::write(stats, format!("{n} {}", TELLING.load(Relaxed)));
    }
});
