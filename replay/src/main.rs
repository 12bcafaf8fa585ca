//! kreplay: counterexample search and replay on the real crate.
//!   kreplay search <prop> <seed> <seconds> [threads]   -> "CE <family> <seed> <message>" and exit 1, or exit 0
//!   kreplay replay <family> <seed>                     -> exit 1 when the case still fails
mod net;
mod pure;
mod refc;
mod rng;
use rng::Rng;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub type Res = Result<(), String>;
#[macro_export]
macro_rules! ensure { ($c:expr, $($t:tt)*) => { if !($c) { return Err(format!($($t)*)); } } }
#[derive(Clone, Copy)]
pub enum Kind {
    Exhaustive(fn() -> Res),
    Random(fn(&mut Rng) -> Res),
    /// network scenario: slow, run one at a time per thread, must fail three times in a row to count
    Net(fn(&mut Rng) -> Res),
}
#[derive(Clone, Copy)]
pub struct Fam {
    pub props: &'static str,
    pub name: &'static str,
    pub kind: Kind,
}
pub fn stride() -> u64 {
    std::env::var("KREPLAY_STRIDE").ok().and_then(|s| s.parse().ok()).unwrap_or(251)
}
thread_local! { static MSG: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) }; }
thread_local! { static SLOW: std::cell::Cell<bool> = const { std::cell::Cell::new(false) }; }
/// a network case that failed is repeated with pauses
pub fn slow() -> bool {
    SLOW.with(|s| s.get())
}
pub fn quiet<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).map_err(|_| MSG.with(|m| m.borrow().clone()))
}
fn run1(f: &Fam, seed: u64) -> Res {
    let r = quiet(|| match f.kind {
        Kind::Exhaustive(g) => g(),
        Kind::Random(g) | Kind::Net(g) => g(&mut Rng::new(seed)),
    });
    match r {
        Ok(x) => x,
        Err(p) => Err(format!("panicked: {p}")),
    }
}
fn main() {
    std::panic::set_hook(Box::new(|i| {
        let s = i.to_string().replace('\n', " ");
        MSG.with(|m| *m.borrow_mut() = s);
    }));
    let a: Vec<String> = std::env::args().collect();
    let mut fams = pure::families();
    fams.extend(net::families());
    match a.get(1).map(|s| s.as_str()) {
        Some("replay") => {
            let seed: u64 = a[3].parse().unwrap();
            let f = fams.iter().find(|f| f.name == a[2]).expect("no such family");
            let mut res = run1(f, seed);
            if matches!(f.kind, Kind::Net(_)) {
                for _ in 0..2 {
                    if res.is_ok() {
                        break;
                    }
                    SLOW.with(|s| s.set(true));
                    res = run1(f, seed);
                }
            }
            match res {
                Ok(()) => println!("HOLDS {} {}", f.name, seed),
                Err(e) => {
                    println!("FAILS {} {} {}", f.name, seed, e);
                    std::process::exit(1);
                }
            }
        }
        Some("search") => {
            let prop = a[2].clone();
            let seed: u64 = a[3].parse().unwrap();
            let secs: f64 = a[4].parse().unwrap();
            let threads: usize = a.get(5).and_then(|s| s.parse().ok()).unwrap_or(4);
            let mine: Vec<Fam> = fams.into_iter().filter(|f| f.name == prop || f.props.split(' ').any(|p| p == prop)).collect();
            let found: Arc<Mutex<Vec<(String, u64, String)>>> = Arc::default();
            let counts: Arc<Mutex<std::collections::BTreeMap<String, u64>>> = Arc::default();
            for f in &mine {
                if let Kind::Exhaustive(_) = f.kind {
                    counts.lock().unwrap().insert(f.name.to_string(), 1);
                    if let Err(e) = run1(f, 0) {
                        found.lock().unwrap().push((f.name.into(), 0, e));
                    }
                }
            }
            let rnd: Vec<Fam> = mine.iter().filter(|f| !matches!(f.kind, Kind::Exhaustive(_))).copied().collect();
            let stop = Arc::new(AtomicBool::new(!found.lock().unwrap().is_empty()));
            let next = Arc::new(AtomicU64::new(0));
            let t0 = Instant::now();
            if !rnd.is_empty() {
                let hs: Vec<_> = (0..threads)
                    .map(|_| {
                        let (rnd, found, counts, stop, next) = (rnd.clone(), found.clone(), counts.clone(), stop.clone(), next.clone());
                        std::thread::spawn(move || {
                            let mut local = std::collections::BTreeMap::<&str, u64>::new();
                            while !stop.load(SeqCst) && t0.elapsed() < Duration::from_secs_f64(secs) {
                                let base = next.fetch_add(1, SeqCst);
                                let f = rnd[base as usize % rnd.len()];
                                let reps = if matches!(f.kind, Kind::Net(_)) { 1 } else { 2000 };
                                for k in 0..reps {
                                    let mut h = Rng::new(seed ^ 0x5bd1e995);
                                    h.0 ^= base.wrapping_mul(0x9e3779b97f4a7c15) ^ (k as u64).wrapping_mul(0xc2b2ae3d27d4eb4f);
                                    let s = h.u64() >> 1;
                                    *local.entry(f.name).or_default() += 1;
                                    let mut res = run1(&f, s);
                                    if matches!(f.kind, Kind::Net(_)) && res.is_err() {
                                        // rule out scheduling noise
                                        for _ in 0..3 {
                                            if res.is_err() {
                                                std::thread::sleep(Duration::from_millis(50));
                                                SLOW.with(|s| s.set(true));
                                                res = run1(&f, s);
                                            }
                                        }
                                        SLOW.with(|s| s.set(false));
                                    }
                                    if let Err(e) = res {
                                        found.lock().unwrap().push((f.name.into(), s, e));
                                        stop.store(true, SeqCst);
                                        break;
                                    }
                                    if stop.load(SeqCst) {
                                        break;
                                    }
                                }
                            }
                            let mut c = counts.lock().unwrap();
                            for (k, v) in local {
                                *c.entry(k.to_string()).or_default() += v;
                            }
                        })
                    })
                    .collect();
                for h in hs {
                    let _ = h.join();
                }
            }
            for (k, v) in counts.lock().unwrap().iter() {
                println!("COUNT {k} {v}");
            }
            let f = found.lock().unwrap();
            for (n, s, e) in f.iter().take(3) {
                println!("CE {n} {s} {}", e.replace('\n', " "));
            }
            std::process::exit(if f.is_empty() { 0 } else { 1 });
        }
        Some("families") => {
            for f in fams {
                println!("{} {}", f.name, f.props);
            }
        }
        _ => {
            eprintln!("usage: kreplay search|replay|families");
            std::process::exit(2);
        }
    }
}
