#![allow(unexpected_cfgs)]
//! Executes the contracts of the verified functions as oracles on the real
//! crate: validates what the proofs assume about dependencies, and looks for a
//! concrete failing input when an obligation fails or the code cannot be
//! brought before the verifier. Every case is determined by (seed, generator,
//! index).
mod props;
mod qr;

use std::collections::HashSet;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

/// generators with a fixed number of cases that are drawn at random all the same
const DRAWN: [&str; 7] = ["large", "wide", "share", "grid_large", "bitmap_large", "long", "points"];

pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64, gen: &str, idx: u64) -> Self {
        let mut h = 0xcbf29ce484222325u64 ^ seed.wrapping_mul(0x9e3779b97f4a7c15);
        for b in gen.bytes().chain(idx.to_le_bytes()) {
            h = (h ^ b as u64).wrapping_mul(0x100000001b3);
        }
        let mut r = Rng(h);
        r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        ((self.next() as u128 * n as u128) >> 64) as usize
    }
    pub fn range(&mut self, a: i64, b: i64) -> i64 {
        a + self.below((b - a + 1) as usize) as i64
    }
    pub fn chance(&mut self, a: usize, b: usize) -> bool {
        self.below(b) < a
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        (0..n).map(|_| self.next() as u8).collect()
    }
    pub fn pick<T: Copy>(&mut self, s: &[T]) -> T {
        s[self.below(s.len())]
    }
}

/// Ok(Some(h)): held on a non-trivial input with fingerprint h; Ok(None): trivial
pub type Case = Result<Option<u64>, String>;
pub struct Gen {
    pub name: &'static str,
    pub rule: &'static str,
    /// number of cases of a finite space, or None for random cases
    pub total: Option<u64>,
    /// random cases of the quick tier
    pub quick: u64,
    pub run: fn(&mut Rng, u64) -> Case,
}
pub fn fp<T: std::hash::Hash>(t: &T) -> u64 {
    use std::hash::Hasher;
    let mut h = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}
/// Runs the code under test, turning a panic into an error
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|e| {
        let m = e
            .downcast_ref::<String>()
            .cloned()
            .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
            .unwrap_or_default();
        format!("panicked: {m}")
    })
}
fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn one(g: &Gen, seed: u64, idx: u64) -> Case {
    let mut r = Rng::new(seed, g.name, idx);
    match catch_unwind(AssertUnwindSafe(|| (g.run)(&mut r, idx))) {
        Ok(x) => x,
        Err(e) => Err(format!(
            "panicked outside of a guarded call: {}",
            e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default()
        )),
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.get(1).map(|s| s == "hooks").unwrap_or(false) {
        println!("{}", props::missing_hooks().join(" "));
        return;
    }
    std::panic::set_hook(Box::new(|_| ()));
    if a.len() >= 6 && a[1] == "replay" {
        let gens = props::gens(&a[2]);
        let g = gens.iter().find(|g| g.name == a[3]).expect("no such generator");
        let idx = a[5].parse().unwrap();
        match one(g, a[4].parse().unwrap(), idx) {
            Ok(_) => {
                println!("held");
            }
            Err(e) => {
                println!("{e}");
                std::process::exit(1)
            }
        }
        return;
    }
    // run PROPERTY SEED FACTOR SECONDS
    let prop = &a[2];
    let seed: u64 = a[3].parse().unwrap();
    let factor: u64 = a[4].parse().unwrap();
    let secs: u64 = a[5].parse().unwrap();
    let gens = props::gens(prop);
    let threads = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(8);
    let mut parts = Vec::new();
    let mut failed = false;
    let deadline = Instant::now() + Duration::from_secs(secs);
    let left = AtomicU64::new(gens.len() as u64);
    for g in &gens {
        // the random generators share what time is left
        let share = deadline.saturating_duration_since(Instant::now()) / left.load(Ordering::Relaxed).max(1) as u32;
        left.fetch_sub(1, Ordering::Relaxed);
        let stop_at = Instant::now() + share;
        let n = g.total.unwrap_or(g.quick * factor);
        let next = AtomicU64::new(0);
        let stop = AtomicBool::new(false);
        let done = AtomicU64::new(0);
        let seen = Mutex::new(HashSet::new());
        let fail: Mutex<Option<(u64, String)>> = Mutex::new(None);
        let now: Vec<Mutex<Option<(u64, Instant)>>> = (0..threads).map(|_| Mutex::new(None)).collect();
        let alive = AtomicU64::new(threads as u64);
        std::thread::scope(|s| {
            for t in 0..threads {
                let (next, stop, done, seen, fail, now, alive) = (&next, &stop, &done, &seen, &fail, &now, &alive);
                s.spawn(move || {
                    let mut local = HashSet::new();
                    loop {
                        let i = next.fetch_add(1, Ordering::Relaxed);
                        if i >= n || stop.load(Ordering::Relaxed) || (g.total.is_none() && i > 64 && Instant::now() > stop_at) {
                            break;
                        }
                        *now[t].lock().unwrap() = Some((i, Instant::now()));
                        match one(g, seed, i) {
                            Ok(Some(h)) => {
                                local.insert(h);
                            }
                            Ok(None) => {}
                            Err(e) => {
                                let mut f = fail.lock().unwrap();
                                if f.as_ref().map(|x| x.0 > i).unwrap_or(true) {
                                    *f = Some((i, e));
                                }
                                stop.store(true, Ordering::Relaxed);
                            }
                        }
                        done.fetch_add(1, Ordering::Relaxed);
                    }
                    *now[t].lock().unwrap() = None;
                    seen.lock().unwrap().extend(local);
                    alive.fetch_sub(1, Ordering::Relaxed);
                });
            }
            // watchdog: a case that does not end is a failing case
            s.spawn(|| {
                while alive.load(Ordering::Relaxed) > 0 {
                    std::thread::sleep(Duration::from_millis(20));
                    for m in &now {
                        let cur = *m.lock().unwrap();
                        if let Some((i, t)) = cur {
                            if t.elapsed() > Duration::from_secs(60) {
                                println!(
                                    "{{\"generators\":[],\"failure\":{{\"generator\":{},\"seed\":{seed},\"index\":{i},\"what\":\"did not terminate within 60 s\"}}}}",
                                    esc(g.name)
                                );
                                std::process::exit(1);
                            }
                        }
                    }
                }
            });
        });
        let f = fail.into_inner().unwrap();
        parts.push(format!(
            "{{\"name\":{},\"rule\":{},\"exhaustive\":{},\"evaluations\":{},\"distinct_nontrivial\":{}}}",
            esc(g.name),
            esc(g.rule),
            g.total.is_some() && !DRAWN.contains(&g.name) && f.is_none(),
            done.load(Ordering::Relaxed),
            seen.lock().unwrap().len()
        ));
        if let Some((i, e)) = f {
            println!(
                "{{\"generators\":[{}],\"failure\":{{\"generator\":{},\"seed\":{seed},\"index\":{i},\"what\":{}}}}}",
                parts.join(","),
                esc(g.name),
                esc(&e)
            );
            failed = true;
            break;
        }
    }
    if failed {
        std::process::exit(1);
    }
    println!("{{\"generators\":[{}],\"failure\":null}}", parts.join(","));
}
