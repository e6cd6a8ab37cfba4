//! Runs the contract programs on concrete inputs, on the real code.
//!
//!   runner search ROOT SEED MILLIS [DICT-FILE [PROPERTY]]     looks for an input on which a contract fails
//!   runner replay ROOT CASE [DICT-FILE]                       runs one case again and reports what it does
mod gen;
mod roots;
use gen::{Dict, G};
use std::collections::{BTreeMap, HashMap};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub enum Outcome {
    Held,
    Skipped,
    Failed(String),
    Panicked(String),
}

fn run_once(root: &str, case: u64, dict: &Dict, hints: HashMap<&'static str, Vec<u8>>, forced: bool) -> (Outcome, Vec<(String, String)>) {
    let mut g = G::new(case, dict);
    g.hints = hints;
    g.forced = forced;
    contracts::ghost::HINTS.with(|h| h.borrow_mut().clear());
    let r = catch_unwind(AssertUnwindSafe(|| roots::run(root, &mut g)));
    contracts::trace::stop();
    let o = match r {
        Ok(()) => Outcome::Held,
        Err(p) => {
            if p.is::<contracts::ghost::Skip>() {
                Outcome::Skipped
            } else if let Some(f) = p.downcast_ref::<contracts::ghost::Fail>() {
                Outcome::Failed(f.0.to_string())
            } else if let Some(s) = p.downcast_ref::<String>() {
                Outcome::Panicked(s.clone())
            } else if let Some(s) = p.downcast_ref::<&str>() {
                Outcome::Panicked(s.to_string())
            } else {
                Outcome::Panicked("?".into())
            }
        }
    };
    (o, std::mem::take(&mut g.log))
}
/// a case is run a second time, with the hints its first run gave
fn run_case(root: &str, case: u64, dict: &Dict, timing: bool) -> (Outcome, Vec<(String, String)>) {
    let (o, log) = run_once(root, case, dict, HashMap::new(), false);
    if !matches!(o, Outcome::Held) {
        return (o, log);
    }
    let hints: HashMap<&'static str, Vec<u8>> = contracts::ghost::HINTS.with(|h| h.borrow().iter().cloned().collect());
    if hints.is_empty() {
        return (o, log);
    }
    let (o, log) = run_once(root, case, dict, hints.clone(), false);
    if timing && matches!(o, Outcome::Held) {
        // one thread at a time: stepping threads hold each other up
        static ONE: Mutex<()> = Mutex::new(());
        let Ok(_one) = ONE.try_lock() else { return (o, log) };
        let r = steps(root, case, dict, &hints);
        contracts::trace::want(false);
        if let Some(r) = r {
            return r;
        }
    }
    (o, log)
}
/// wrong replies that differ from the right one in different places must be refused by the same instructions
fn steps(root: &str, case: u64, dict: &Dict, hints: &HashMap<&'static str, Vec<u8>>) -> Option<(Outcome, Vec<(String, String)>)> {
    let n = hints.values().map(|h| h.len()).max().unwrap_or(0);
    let at = [n, 0, n.saturating_sub(1), n / 2, 1, case as usize % n.max(1), (case >> 8) as usize % n.max(1), (case >> 16) as usize % n.max(1)];
    let mut run = |p: usize| {
        let mut h = hints.clone();
        for v in h.values_mut() {
            if p < v.len() { v[p] ^= 1 << (case % 8) } else { v.iter_mut().for_each(|x| *x ^= 0xff) }
        }
        contracts::trace::want(true);
        let (_, log) = run_once(root, case, dict, h, true);
        (contracts::trace::last(), log)
    };
    run(at[0]);
    let first = run(at[0]).0?;
    for &p in &at[1..] {
        let (o, mut log) = run(p);
        let o = o?;
        if !o.1 && !first.1 && (o.2, o.3) != (first.2, first.3) {
            // both once more: the difference has to be reproducible
            if run(at[0]).0 == Some(first) && run(p).0 == Some(o) {
                log.push(("instructions executed by the verification step".into(), format!("{} when every byte of the reply is wrong, {} when byte {p} alone is wrong{}", first.2, o.2, if first.2 == o.2 { " (in another order)" } else { "" })));
                return Some((Outcome::Failed(o.0.to_string()), log));
            }
        }
    }
    None
}

fn load(path: Option<&String>) -> Dict {
    let mut d = Dict { ints: vec![], bytes: vec![] };
    if let Some(t) = path.and_then(|p| std::fs::read_to_string(p).ok()) {
        for l in t.lines() {
            let mut w = l.split_whitespace();
            match (w.next(), w.next()) {
                (Some("i"), Some(v)) => d.ints.extend(v.parse::<u64>()),
                (Some("b"), Some(v)) => d.bytes.push((0..v.len() / 2).map(|i| u8::from_str_radix(&v[2 * i..2 * i + 2], 16).unwrap_or(0)).collect()),
                _ => {}
            }
        }
    }
    d
}

// in this program's own code, so that the steps they take are counted
unsafe fn first_difference(a: *const u8, b: *const u8, n: usize) -> i32 {
    for i in 0..n {
        let (x, y) = (a.add(i).read_volatile(), b.add(i).read_volatile());
        if x != y {
            return x as i32 - y as i32;
        }
    }
    0
}
#[no_mangle]
unsafe extern "C" fn memcmp(a: *const u8, b: *const u8, n: usize) -> i32 {
    first_difference(a, b, n)
}
#[no_mangle]
unsafe extern "C" fn bcmp(a: *const u8, b: *const u8, n: usize) -> i32 {
    first_difference(a, b, n)
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let a: Vec<String> = std::env::args().collect();
    if a[1] == "replay" {
        let d = load(a.get(4));
        let (o, log) = run_case(&a[2], a[3].parse().unwrap(), &d, true);
        for (k, v) in log {
            println!("  {k} = {v}");
        }
        match o {
            Outcome::Held => println!("HELD"),
            Outcome::Skipped => println!("SKIPPED"),
            Outcome::Failed(l) => println!("FAILED {l}"),
            Outcome::Panicked(m) => println!("PANICKED {m}"),
        }
        return;
    }
    let root = a[2].clone();
    let seed: u64 = a[3].parse().unwrap();
    let end = Instant::now() + Duration::from_millis(a[4].parse().unwrap());
    let dict = Arc::new(load(a.get(5)));
    let prop = a.get(6).cloned().unwrap_or_default();
    let found: Arc<Mutex<Vec<(u64, String, Vec<(String, String)>)>>> = Arc::default();
    let counts: Arc<[AtomicU64; 3]> = Arc::default();
    let covered: Arc<Mutex<BTreeMap<&'static str, u64>>> = Arc::default();
    let stop = Arc::new(AtomicBool::new(false));
    let n = std::env::var("RUNNER_THREADS").ok().and_then(|v| v.parse().ok()).unwrap_or(4u64);
    let mut busy = vec![];
    for t in 0..n {
        let (root, dict, found, counts, covered, stop, prop) = (root.clone(), dict.clone(), found.clone(), counts.clone(), covered.clone(), stop.clone(), prop.clone());
        let now: Arc<(AtomicU64, Mutex<Instant>)> = Arc::new((AtomicU64::new(0), Mutex::new(Instant::now())));
        let mine = now.clone();
        let h = std::thread::Builder::new().stack_size(16 << 20).spawn(move || {
            let mut i = t;
            while !stop.load(Ordering::Relaxed) && Instant::now() < end {
                let case = seed.wrapping_mul(0x1_0000_0001).wrapping_add(i);
                mine.0.store(case, Ordering::Relaxed);
                *mine.1.lock().unwrap() = Instant::now();
                let (o, log) = run_case(&root, case, &dict, prop == "C23" || prop.is_empty() && i % 32 < n);
                let hit = match &o {
                    Outcome::Held => { counts[0].fetch_add(1, Ordering::Relaxed); None }
                    Outcome::Skipped => { counts[1].fetch_add(1, Ordering::Relaxed); None }
                    Outcome::Failed(l) => Some(format!("FAILED {l}")),
                    Outcome::Panicked(m) => Some(format!("PANICKED {m}")),
                };
                contracts::ghost::COVERED.with(|c| {
                    let mut m = covered.lock().unwrap();
                    for l in c.borrow_mut().drain(..) {
                        *m.entry(l).or_insert(0) += 1;
                    }
                });
                if let Some(h) = hit {
                    counts[2].fetch_add(1, Ordering::Relaxed);
                    let wanted = prop.is_empty() || h.starts_with("PANICKED") || h[7..].split('|').next().unwrap().split(',').any(|p| p == prop);
                    let mut f = found.lock().unwrap();
                    if f.len() < 8 && !f.iter().any(|x| x.1 == h) {
                        f.push((case, h.clone(), log));
                    }
                    if wanted {
                        stop.store(true, Ordering::Relaxed);
                    }
                }
                i += n;
            }
        });
        busy.push((h.unwrap(), now));
    }
    // a case that never ends is a finding too
    loop {
        if busy.iter().all(|b| b.0.is_finished()) {
            break;
        }
        if Instant::now() > end + Duration::from_secs(1) {
            let hung: Vec<u64> = busy.iter().filter(|b| !b.0.is_finished() && b.1 .1.lock().unwrap().elapsed() > Duration::from_secs(20)).map(|b| b.1 .0.load(Ordering::Relaxed)).collect();
            if let Some(c) = hung.first() {
                found.lock().unwrap().push((*c, "PANICKED does not return within 20 s".into(), vec![]));
                break;
            }
        }
        std::thread::sleep(Duration::from_millis(20));
    }
    for (case, h, log) in found.lock().unwrap().iter() {
        println!("FOUND {case} {h}");
        for (k, v) in log {
            println!("  {k} = {v}");
        }
    }
    for (l, c) in covered.lock().unwrap().iter() {
        println!("COVERED {c} {l}");
    }
    println!("COUNTS {} {} {}", counts[0].load(Ordering::Relaxed), counts[1].load(Ordering::Relaxed), counts[2].load(Ordering::Relaxed));
    std::process::exit(0);
}
