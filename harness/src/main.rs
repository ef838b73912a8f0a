//! Bounded search for a failing input against the real code: `vp-harness <property> <seed> <seconds> [only-case]`.
//! Every case is derived from (seed, case number).  Oracles are written from the property texts, not from the code.
#![allow(clippy::all)]
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};
mod gen;
mod oracle;
mod props;

static CASE: AtomicU64 = AtomicU64::new(0);
static STARTED: AtomicU64 = AtomicU64::new(0);
static NOTE: Mutex<String> = Mutex::new(String::new());
pub fn note(s: String) { *NOTE.lock().unwrap_or_else(|e| e.into_inner()) = s; }
fn esc(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() { match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), c if (c as u32) < 32 => o.push(' '), c => o.push(c) } }
    o
}
fn report(found: Option<&str>, case: u64, n: u64, distinct: usize, samples: &[String]) {
    println!("{{\"found\": {}, \"case\": {}, \"evaluations\": {}, \"distinct\": {}, \"samples\": [{}]}}",
        match found { Some(s) => format!("\"{}\"", esc(s)), None => "null".into() }, case, n, distinct,
        samples.iter().map(|s| format!("\"{}\"", esc(s))).collect::<Vec<_>>().join(", "));
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let prop = a[1].clone(); let seed: u64 = a[2].parse().unwrap(); let secs: f64 = a[3].parse().unwrap();
    let only: Option<u64> = a.get(4).map(|x| x.parse().unwrap());
    std::panic::set_hook(Box::new(|i| {
        let mut g = NOTE.lock().unwrap_or_else(|e| e.into_inner());
        if !g.contains("PANIC") { g.push_str(&format!("\nPANIC: {}", i)); }
    }));
    let t0 = Instant::now();
    // a case that does not come back is a violation too
    std::thread::spawn(move || loop {
        std::thread::sleep(Duration::from_millis(500));
        let s = STARTED.load(Ordering::SeqCst);
        if s > 0 && t0.elapsed().as_millis() as u64 > s + 45_000 {
            let g = NOTE.lock().map(|x| x.clone()).unwrap_or_default();
            report(Some(&format!("the call did not return within 45 s: {}", g)), CASE.load(Ordering::SeqCst), 0, 0, &[]);
            std::process::exit(0);
        }
    });
    let mut n = 0u64; let mut seen = std::collections::HashSet::new(); let mut samples: Vec<String> = vec![];
    let mut case = only.unwrap_or(0);
    loop {
        if only.is_none() && t0.elapsed().as_secs_f64() > secs { break; }
        CASE.store(case, Ordering::SeqCst); note(String::new());
        STARTED.store(t0.elapsed().as_millis() as u64 + 1, Ordering::SeqCst);
        let mut g = gen::Rng::new(seed, case);
        let r = catch_unwind(AssertUnwindSafe(|| props::run(&prop, &mut g, case)));
        STARTED.store(0, Ordering::SeqCst);
        n += 1;
        let d = NOTE.lock().unwrap_or_else(|e| e.into_inner()).clone();
        use std::hash::{Hash, Hasher};
        let mut h = std::collections::hash_map::DefaultHasher::new(); d.hash(&mut h); seen.insert(h.finish());
        if samples.len() < 5 && case % 7 == 3 { samples.push(d.chars().take(400).collect()); }
        match r {
            Ok(Ok(())) => {}
            Ok(Err(m)) => { report(Some(&format!("{}\ninput: {}", m, d)), case, n, seen.len(), &samples); return; }
            Err(_) => { report(Some(&format!("the code panicked\ninput: {}", d)), case, n, seen.len(), &samples); return; }
        }
        if only.is_some() { break; }
        case += 1;
    }
    report(None, case, n, seen.len(), &samples);
}
