use goban_pbt::runner::{self, *};
use goban_pbt::table;
use serde_json::{json, Value};
use std::time::{Duration, Instant};

fn main() {
    install_hook();
    let a: Vec<String> = std::env::args().collect();
    let opt = |n: &str| a.iter().position(|x| x == n).and_then(|i| a.get(i + 1)).cloned();
    let code = match a.get(1).map(|s| s.as_str()) {
        Some("run") => run(&a[2], &opt),
        // the parts a coverage-guided search can work on
        Some("parts") => {
            println!("{}", json!(table(&a[2]).iter().filter(|p| p.fuzzable()).map(|p| p.name()).collect::<Vec<_>>()));
            0
        }
        Some("describe") => {
            println!("{}", json!(table(&a[2]).iter().map(|p| { let d = p.describe(); json!({"part": p.name(), "rule": d.0, "quick": d.1, "thorough": d.2, "fuzz": p.fuzzable()}) }).collect::<Vec<_>>()));
            0
        }
        Some("replay") => replay(&a[2], opt("--times").and_then(|s| s.parse().ok()).unwrap_or(1)),
        _ => {
            eprintln!("usage: goban-pbt run ID --seed N --tier quick|thorough --profile NAME --out FILE | replay FILE");
            2
        }
    };
    std::process::exit(code);
}

/// Seconds one case may take (they take milliseconds, the longest a few seconds).
const CASE_LIMIT: u64 = 100;

fn rss_mb() -> u64 {
    std::fs::read_to_string("/proc/self/statm").ok().and_then(|s| s.split(' ').nth(1).and_then(|p| p.parse::<u64>().ok())).map_or(0, |p| p * 4096 / 1_000_000)
}

fn run(id: &str, opt: &dyn Fn(&str) -> Option<String>) -> i32 {
    let seed = opt("--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let profile = opt("--profile").unwrap_or("release".into());
    let limit: u64 = opt("--limit").and_then(|s| s.parse().ok()).unwrap_or(600);
    let rc = RunCfg { id: id.into(), seed, thorough: opt("--tier").as_deref() == Some("thorough"), profile: profile.clone(), scale: opt("--scale").and_then(|s| s.parse().ok()).unwrap_or(1.0), until: opt("--budget").and_then(|s| s.parse().ok()).map(|b| Instant::now() + Duration::from_secs(b)) };
    let parts = table(id);
    if parts.is_empty() {
        eprintln!("unknown property {id}");
        return 2;
    }
    let out = opt("--out");
    let only = opt("--part");
    runner::journal(opt("--journal"));
    // A case that does not end, or that eats the memory, is a failure of its own: what is
    // checked here takes milliseconds.
    {
        let out = out.clone();
        let id = id.to_string();
        let profile = profile.clone();
        let started = Instant::now();
        std::thread::spawn(move || loop {
            std::thread::sleep(Duration::from_millis(100));
            let slow = runner::stuck(Duration::from_secs(CASE_LIMIT));
            let why = if !slow.is_empty() {
                format!("a case takes more than {CASE_LIMIT} s")
            } else if rss_mb() > 8000 {
                "more than 8 GB of memory in use".to_string()
            } else if started.elapsed() > Duration::from_secs(limit) {
                format!("the run takes more than {limit} s")
            } else {
                continue;
            };
            let all = if slow.is_empty() { runner::stuck(Duration::ZERO) } else { slow };
            eprintln!("{why}; at work:\n{}", all.iter().map(|s| s.to_string()).collect::<Vec<_>>().join("\n"));
            if let Some(f) = &out {
                let _ = std::fs::write(f, json!({"property": id, "profile": profile, "why": why, "suspects": all}).to_string());
            }
            std::process::exit(3);
        });
    }
    let mut res = vec![];
    let mut failed = false;
    for p in parts {
        if only.as_ref().is_some_and(|o| *o != p.name()) {
            continue;
        }
        let t = Instant::now();
        let r = p.run(&rc);
        let secs = t.elapsed().as_secs_f64();
        eprintln!("{id} [{profile}] {}: {} cases, {} non-trivial, {} distinct, {:.1}s{}", r.name, r.evaluations, r.nontrivial, r.distinct.len(), secs, if r.failure.is_some() { " FAILED" } else { "" });
        failed |= r.failure.is_some();
        if let Some(f) = &r.failure {
            eprintln!("  {}\n  case {}", f.message, f.case);
        }
        res.push(json!({
            "part": r.name, "rule": r.rule, "evaluations": r.evaluations, "nontrivial": r.nontrivial, "distinct": r.distinct.len(),
            "tags": r.tags, "samples": r.samples, "excluded": r.excluded, "known": r.known, "exhaustive": r.exhaustive, "wall_s": secs,
            "failure": r.failure.as_ref().map(|f| json!({"case": f.case, "message": f.message, "notes": f.notes})),
        }));
        // one failure settles it, and the other parts may not even end
        if failed {
            break;
        }
    }
    if let Some(f) = out {
        let v = json!({"property": id, "profile": profile, "seed": seed, "tier": if rc.thorough {"thorough"} else {"quick"}, "parts": res});
        if let Err(e) = std::fs::write(&f, serde_json::to_string_pretty(&v).unwrap()) {
            eprintln!("cannot write {f}: {e}");
            return 2;
        }
    }
    i32::from(failed)
}

fn replay(file: &str, times: u32) -> i32 {
    let Ok(s) = std::fs::read_to_string(file) else {
        eprintln!("cannot read {file}");
        return 2;
    };
    let Ok(v) = serde_json::from_str::<Value>(&s) else {
        eprintln!("not a replay file: {file}");
        return 2;
    };
    let id = v["property"].as_str().unwrap_or("").to_string();
    let part = v["part"].as_str().unwrap_or("").to_string();
    let Some(p) = table(&id).into_iter().find(|p| p.name() == part) else {
        eprintln!("no part {part:?} of property {id:?}");
        return 2;
    };
    let case = v["case"].clone();
    // exit code 3: the case does not end or eats the memory
    std::thread::spawn(|| {
        let t = Instant::now();
        while t.elapsed() < Duration::from_secs(CASE_LIMIT) && rss_mb() < 8000 {
            std::thread::sleep(Duration::from_millis(100));
        }
        println!("the case does not end, or takes more than 8 GB");
        std::process::exit(3);
    });
    let h = std::thread::Builder::new().stack_size(64 << 20).spawn(move || {
        for _ in 0..times {
            p.replay(&case)?;
        }
        Ok::<(), String>(())
    });
    match h.unwrap().join() {
        Ok(Ok(())) => {
            println!("the case passes");
            0
        }
        Ok(Err(m)) => {
            println!("VIOLATION property={id} replay={file}\n{m}");
            1
        }
        Err(_) => 2,
    }
}
