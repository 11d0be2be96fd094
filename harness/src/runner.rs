//! Drives proptest over worker threads, records coverage, shrinks, writes replays.
use proptest::strategy::{BoxedStrategy, Strategy, ValueTree};
use proptest::test_runner::{Config, RngAlgorithm, TestCaseError, TestError, TestRng, TestRunner};
use serde::{de::DeserializeOwned, Serialize};
use serde_json::{json, Value};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::hash::Hasher;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

thread_local! {
    static NOTES: RefCell<Option<Vec<String>>> = const { RefCell::new(None) };
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
    static QUIET: Cell<bool> = const { Cell::new(false) };
}

/// Remembers what the case is doing, only when a trace was asked for.
pub fn note(f: impl FnOnce() -> String) {
    NOTES.with(|n| {
        if let Some(v) = n.borrow_mut().as_mut() {
            v.push(f())
        }
    })
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".into()
        };
        let loc = info.location().map_or(String::new(), |l| format!(" at {}:{}", l.file(), l.line()));
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("{msg}{loc}"));
    }));
}

/// Runs f; Err carries the panic message.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => Err(LAST_PANIC.with(|p| p.borrow().clone())),
    }
}

/// The cases being worked on, for the report of a case that does not end, and the
/// journal directory, for a case that takes the process with it.
static WORKING: Mutex<BTreeMap<u64, (Instant, Value)>> = Mutex::new(BTreeMap::new());
static JOURNAL: Mutex<Option<std::path::PathBuf>> = Mutex::new(None);
pub fn journal(dir: Option<String>) {
    *JOURNAL.lock().unwrap() = dir.map(Into::into);
}
/// The cases at work for longer than the given time.
pub fn stuck(longer: Duration) -> Vec<Value> {
    WORKING.lock().map(|w| w.values().filter(|v| v.0.elapsed() >= longer).map(|v| v.1.clone()).collect()).unwrap_or_default()
}
fn thread_no() -> u64 {
    thread_local!(static ID: u64 = { static N: AtomicUsize = AtomicUsize::new(0); N.fetch_add(1, Ordering::SeqCst) as u64 });
    ID.with(|i| *i)
}
fn working(part: &str, c: Option<Value>) {
    let id = thread_no();
    match c {
        Some(c) => {
            let v = json!({"part": part, "case": c});
            if let Some(d) = JOURNAL.lock().unwrap().as_ref() {
                let _ = std::fs::write(d.join(format!("{id}.json")), v.to_string());
            }
            WORKING.lock().unwrap().insert(id, (Instant::now(), v));
        }
        None => {
            WORKING.lock().unwrap().remove(&id);
        }
    }
}

/// What one case reports about itself.
#[derive(Default)]
pub struct Rec {
    pub tags: BTreeMap<&'static str, u64>,
    pub nontrivial: bool,
    pub sample: Option<Value>,
    pub want_sample: bool,
    pub excluded: u64,
    pub known: Vec<String>,
}
impl Rec {
    pub fn tag(&mut self, t: &'static str) {
        *self.tags.entry(t).or_insert(0) += 1
    }
    pub fn tagn(&mut self, t: &'static str, n: u64) {
        if n > 0 {
            *self.tags.entry(t).or_insert(0) += n
        }
    }
}

pub struct RunCfg {
    pub id: String,
    pub seed: u64,
    pub thorough: bool,
    pub profile: String,
    pub scale: f64,
    /// no new case after this time
    pub until: Option<Instant>,
}

#[derive(Default)]
pub struct PartResult {
    pub name: String,
    pub rule: String,
    pub evaluations: u64,
    pub nontrivial: u64,
    pub distinct: HashSet<u64>,
    pub tags: BTreeMap<String, u64>,
    pub samples: Vec<Value>,
    pub excluded: u64,
    pub known: BTreeMap<String, u64>,
    pub exhaustive: bool,
    pub failure: Option<Failure>,
}
pub struct Failure {
    pub case: Value,
    pub message: String,
    pub notes: Vec<String>,
}

pub trait Part: Sync + Send {
    fn name(&self) -> String;
    fn run(&self, rc: &RunCfg) -> PartResult;
    fn replay(&self, case: &Value) -> Result<(), String>;
    /// One fuzzing input: whether it was non-trivial, or the shrunk failing case.
    fn fuzz(&self, _data: &[u8]) -> Result<bool, (Value, String)> {
        Ok(false)
    }
    fn fuzzable(&self) -> bool {
        false
    }
    /// The rule and the numbers of cases in the two tiers (0: all there are).
    fn describe(&self) -> (String, u32, u32);
}

pub struct Prop<C: 'static> {
    pub name: &'static str,
    pub rule: &'static str,
    pub strat: fn(bool) -> BoxedStrategy<C>,
    pub check: fn(&C, &mut Rec) -> Result<(), String>,
    /// cases in the quick / thorough tier, per profile
    pub quick: u32,
    pub thorough: u32,
    pub shrink: u32,
}

fn fnv(b: &[u8]) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    h.write(b);
    h.finish()
}

fn seed_bytes(parts: &[&str], n: u64, k: u64) -> [u8; 32] {
    let mut out = [0u8; 32];
    for i in 0..4u64 {
        let mut s = String::new();
        for p in parts {
            s.push_str(p);
            s.push('|');
        }
        s.push_str(&format!("{n}|{k}|{i}"));
        // splitmix over an fnv-1a hash: independent of std's hasher
        let mut h: u64 = 0xcbf29ce484222325;
        for b in s.bytes() {
            h = (h ^ b as u64).wrapping_mul(0x100000001b3);
        }
        h ^= h >> 30;
        h = h.wrapping_mul(0xbf58476d1ce4e5b9);
        h ^= h >> 27;
        h = h.wrapping_mul(0x94d049bb133111eb);
        h ^= h >> 31;
        out[i as usize * 8..][..8].copy_from_slice(&h.to_le_bytes());
    }
    out
}

impl<C> Prop<C>
where
    C: Clone + std::fmt::Debug + Serialize + DeserializeOwned + Send + 'static,
{
    fn eval(&self, c: &C, rec: &mut Rec) -> Result<(), String> {
        working(self.name, serde_json::to_value(c).ok());
        let r = match guarded(|| (self.check)(c, rec)) {
            Ok(r) => r,
            Err(m) => Err(format!("panic: {m}")),
        };
        working(self.name, None);
        r
    }
}

impl<C> Part for Prop<C>
where
    C: Clone + std::fmt::Debug + Serialize + DeserializeOwned + Send + 'static,
{
    fn describe(&self) -> (String, u32, u32) {
        (self.rule.to_string(), self.quick, self.thorough)
    }
    fn name(&self) -> String {
        self.name.into()
    }
    fn run(&self, rc: &RunCfg) -> PartResult {
        let cases = ((if rc.thorough { self.thorough } else { self.quick }) as f64 * rc.scale).ceil() as u32;
        let chunks: u32 = 64.min(cases.max(1));
        let next = AtomicUsize::new(0);
        let stop = AtomicBool::new(false);
        let out = Mutex::new(PartResult { name: self.name.into(), rule: self.rule.into(), ..Default::default() });
        let threads = std::thread::available_parallelism().map_or(4, |n| n.get()).min(16);
        let fail: Mutex<Option<(u32, C, String)>> = Mutex::new(None);
        std::thread::scope(|s| {
            for _ in 0..threads {
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(s, || loop {
                        let k = next.fetch_add(1, Ordering::SeqCst) as u32;
                        if k >= chunks || stop.load(Ordering::SeqCst) {
                            return;
                        }
                        let n = cases / chunks + u32::from(k < cases % chunks);
                        let seed = seed_bytes(&[&rc.id, self.name, &rc.profile], rc.seed, k as u64);
                        let cfg = Config {
                            cases: n,
                            failure_persistence: None,
                            max_shrink_iters: self.shrink,
                            max_shrink_time: 60_000,
                            verbose: 0,
                            ..Config::default()
                        };
                        let mut runner = TestRunner::new_with_rng(cfg, TestRng::from_seed(RngAlgorithm::ChaCha, &seed));
                        let strat = (self.strat)(rc.thorough);
                        let part = RefCell::new(PartResult::default());
                        let failed = Cell::new(false);
                        let res = runner.run(&strat, |c| {
                            if !failed.get() && (stop.load(Ordering::Relaxed) || rc.until.is_some_and(|t| Instant::now() > t)) {
                                return Ok(());
                            }
                            let mut rec = Rec { want_sample: k == 0 && part.borrow().samples.len() < 2, ..Default::default() };
                            let r = self.eval(&c, &mut rec);
                            if !failed.get() {
                                let mut p = part.borrow_mut();
                                p.evaluations += 1;
                                p.excluded += rec.excluded;
                                for (t, n) in &rec.tags {
                                    *p.tags.entry(t.to_string()).or_insert(0) += n;
                                }
                                for t in rec.known {
                                    *p.known.entry(t).or_insert(0) += 1;
                                }
                                if rec.nontrivial {
                                    p.nontrivial += 1;
                                    p.distinct.insert(fnv(&serde_json::to_vec(&c).unwrap_or_default()));
                                    if rec.want_sample {
                                        let v = rec.sample.take().unwrap_or_else(|| json!(format!("{c:?}").chars().take(700).collect::<String>()));
                                        p.samples.push(v);
                                    }
                                }
                            }
                            match r {
                                Ok(()) => Ok(()),
                                Err(m) => {
                                    failed.set(true);
                                    stop.store(true, Ordering::SeqCst);
                                    Err(TestCaseError::fail(m))
                                }
                            }
                        });
                        let p = part.into_inner();
                        {
                            let mut o = out.lock().unwrap();
                            o.evaluations += p.evaluations;
                            o.nontrivial += p.nontrivial;
                            o.excluded += p.excluded;
                            o.distinct.extend(p.distinct);
                            o.samples.extend(p.samples);
                            for (t, n) in p.tags {
                                *o.tags.entry(t).or_insert(0) += n
                            }
                            for (t, n) in p.known {
                                *o.known.entry(t).or_insert(0) += n
                            }
                        }
                        if let Err(TestError::Fail(reason, c)) = res {
                            let mut f = fail.lock().unwrap();
                            if f.as_ref().is_none_or(|x| x.0 > k) {
                                *f = Some((k, c, reason.message().to_string()));
                            }
                        }
                    })
                    .expect("thread");
            }
        });
        let mut o = out.into_inner().unwrap();
        if let Some((_, c, msg)) = fail.into_inner().unwrap() {
            NOTES.with(|n| *n.borrow_mut() = Some(vec![]));
            let again = self.eval(&c, &mut Rec::default());
            let notes = NOTES.with(|n| n.borrow_mut().take()).unwrap_or_default();
            let notes = notes.iter().rev().take(3).rev().cloned().collect();
            let message = again.err().unwrap_or(msg);
            o.failure = Some(Failure { case: serde_json::to_value(&c).unwrap(), message, notes });
        }
        o
    }
    fn replay(&self, case: &Value) -> Result<(), String> {
        let c: C = serde_json::from_value(case.clone()).map_err(|e| format!("unreadable case: {e}"))?;
        self.eval(&c, &mut Rec::default())
    }
    fn fuzz(&self, data: &[u8]) -> Result<bool, (Value, String)> {
        // the first four bytes draw a case from the generator, the others replace its list
        // of operations, its cells or its text
        thread_local!(static STRAT: RefCell<Option<Box<dyn std::any::Any>>> = const { RefCell::new(None) });
        let mut head = [0u8; 4];
        let n = data.len().min(4);
        head[..n].copy_from_slice(&data[..n]);
        let seed = seed_bytes(&["fuzz", self.name], u32::from_le_bytes(head) as u64, 0);
        let cfg = Config { failure_persistence: None, ..Config::default() };
        let mut runner = TestRunner::new_with_rng(cfg, TestRng::from_seed(RngAlgorithm::ChaCha, &seed));
        let tree = STRAT.with(|s| {
            let mut s = s.borrow_mut();
            let s = s.get_or_insert_with(|| Box::new((self.strat)(true)));
            s.downcast_ref::<BoxedStrategy<C>>().expect("one part per process").new_tree(&mut runner)
        });
        let Ok(tree) = tree else { return Ok(false) };
        let mut v = serde_json::to_value(tree.current()).unwrap();
        let rest = &data[n..];
        if self.name == "texts" {
            v = json!({ "Text": String::from_utf8_lossy(rest) });
        } else if let Some(ops) = find(&mut v, "ops") {
            replace_ops(ops, rest);
        } else if let Some(Value::Array(cells)) = find(&mut v, "cells") {
            for (c, b) in cells.iter_mut().zip(rest) {
                *c = json!(b);
            }
        }
        let run = |v: &Value, rec: &mut Rec| match serde_json::from_value::<C>(v.clone()) {
            Err(_) => Ok(()),
            Ok(c) => match guarded(|| (self.check)(&c, rec)) {
                Ok(r) => r,
                Err(m) => Err(format!("panic: {m}")),
            },
        };
        if let Ok(f) = std::env::var("FUZZ_DUMP") {
            let _ = std::fs::write(f, v.to_string());
        }
        let mut rec = Rec::default();
        let Err(mut msg) = run(&v, &mut rec) else { return Ok(rec.nontrivial) };
        // shorter lists of operations first, then smaller ones
        let t = Instant::now();
        let len = |v: &mut Value| find(v, "ops").and_then(|o| o.as_array().map(|a| a.len())).unwrap_or(0);
        let mut step = len(&mut v) / 2;
        while step > 0 && t.elapsed() < Duration::from_secs(20) {
            let mut at = 0;
            while at < len(&mut v) && t.elapsed() < Duration::from_secs(20) {
                let mut x = v.clone();
                if let Some(Value::Array(a)) = find(&mut x, "ops") {
                    let end = a.len().min(at + step);
                    a.drain(at..end);
                }
                match run(&x, &mut Rec::default()) {
                    Err(m) => {
                        v = x;
                        msg = m;
                    }
                    Ok(()) => at += step,
                }
            }
            step /= 2;
        }
        Err((v, msg))
    }
    fn fuzzable(&self) -> bool {
        // the cases of the others take too long
        self.quick >= 2000
    }
}

/// The first field of that name, from the top of the value downwards.
fn find<'a>(v: &'a mut Value, key: &str) -> Option<&'a mut Value> {
    let Value::Object(m) = v else { return None };
    if m.contains_key(key) {
        return m.get_mut(key);
    }
    m.values_mut().find_map(|x| find(x, key))
}

/// Replaces a list of operations (small numbers, or tuples or structs of them) by the
/// operations that the bytes stand for.
fn replace_ops(ops: &mut Value, data: &[u8]) {
    let Value::Array(a) = ops else { return };
    let Some(model) = a.first().cloned() else { return };
    let mut b = data.iter().copied();
    let mut out = vec![];
    loop {
        let mut word = || Some(b.next()? as u16 | (b.next()? as u16) << 8);
        let x = match &model {
            Value::Number(_) => word().map(|w| json!(w)),
            Value::Object(m) if m.len() == 2 && m.contains_key("k") => word().map(|w| json!(w)).and_then(|w| Some(json!({"a": w, "k": b.next()?}))),
            Value::Array(t) if t.len() == 2 => word().and_then(|w| Some(json!([b.next()?, w]))),
            Value::Array(t) if t.len() == 3 => word().and_then(|w| Some((w, word()?))).and_then(|(w, x)| Some(json!([b.next()?, w, x]))),
            _ => return,
        };
        match x {
            Some(x) => out.push(x),
            None => break,
        }
    }
    if !out.is_empty() {
        *a = out;
    }
}

/// A finite space enumerated completely.
pub struct Exhaustive {
    pub name: &'static str,
    pub rule: &'static str,
    /// the list of cases
    pub cases: fn(bool) -> Vec<Value>,
    pub check: fn(&Value, &mut Rec) -> Result<(), String>,
}
impl Part for Exhaustive {
    fn describe(&self) -> (String, u32, u32) {
        (self.rule.to_string(), 0, 0)
    }
    fn name(&self) -> String {
        self.name.into()
    }
    fn run(&self, rc: &RunCfg) -> PartResult {
        let cases = (self.cases)(rc.thorough);
        let out = Mutex::new(PartResult { name: self.name.into(), rule: self.rule.into(), exhaustive: true, ..Default::default() });
        let next = AtomicUsize::new(0);
        let threads = std::thread::available_parallelism().map_or(4, |n| n.get()).min(16);
        std::thread::scope(|s| {
            for _ in 0..threads {
                s.spawn(|| loop {
                    let k = next.fetch_add(1, Ordering::SeqCst);
                    if k >= cases.len() || out.lock().unwrap().failure.is_some() {
                        return;
                    }
                    let mut rec = Rec::default();
                    working(self.name, Some(cases[k].clone()));
                    let r = match guarded(|| (self.check)(&cases[k], &mut rec)) {
                        Ok(r) => r,
                        Err(m) => Err(format!("panic: {m}")),
                    };
                    working(self.name, None);
                    let mut o = out.lock().unwrap();
                    o.evaluations += 1;
                    for t in rec.known {
                        *o.known.entry(t).or_insert(0) += 1;
                    }
                    for (t, n) in &rec.tags {
                        *o.tags.entry(t.to_string()).or_insert(0) += n;
                    }
                    if rec.nontrivial {
                        o.nontrivial += 1;
                        o.distinct.insert(fnv(cases[k].to_string().as_bytes()));
                        if o.samples.len() < 2 {
                            o.samples.push(cases[k].clone())
                        }
                    }
                    if let Err(m) = r {
                        if o.failure.is_none() {
                            o.failure = Some(Failure { case: cases[k].clone(), message: m, notes: vec![] });
                        }
                    }
                });
            }
        });
        out.into_inner().unwrap()
    }
    fn replay(&self, case: &Value) -> Result<(), String> {
        match guarded(|| (self.check)(case, &mut Rec::default())) {
            Ok(r) => r,
            Err(m) => Err(format!("panic: {m}")),
        }
    }
}
