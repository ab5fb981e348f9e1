//! Bounded search for a concrete history on which the real crate breaks a property.
//! Run by the checks only when an obligation failed (to attach a failing input to the
//! report) or could not be decided (as a bounded stand-in).
//!
//! usage: replay <property> <seconds> <seed>      search
//!        replay <property> trial <seed> [-v]     one trial again, printing the history
//! exit 0: nothing found; 1: a failing history, written to stdout.
mod alloc;
mod seq;
mod pair;
mod stress;
mod special;

use std::sync::atomic::{AtomicU64, Ordering};
use std::time::{Duration, Instant};

pub struct Rng(u64);
impl Rng {
    pub fn new(s: u64) -> Self { let mut r = Rng(s ^ 0x9E37_79B9_7F4A_7C15); for _ in 0..4 { r.next(); } r }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize { (self.next() % n as u64) as usize }
    pub fn chance(&mut self, pct: usize) -> bool { self.below(100) < pct }
}

/// A failure: the properties it contradicts and what was seen.
pub struct Fail { pub props: &'static str, pub what: String }
pub type Res = Result<(), Fail>;
pub fn fail<T>(props: &'static str, what: String) -> Result<T, Fail> { Err(Fail { props, what }) }

pub static BEAT: AtomicU64 = AtomicU64::new(0);
pub static TRIAL: AtomicU64 = AtomicU64::new(0);
pub fn beat() { BEAT.fetch_add(1, Ordering::Relaxed); }

fn trial(prop: &str, seed: u64, verbose: bool) -> Res {
    let mut rng = Rng::new(seed);
    let which = rng.below(100);
    match prop {
        "C07" | "C10" if which < 20 => special::run(prop, &mut rng),
        "C14" if which < 10 => special::run(prop, &mut rng),
        "C11" | "C12" | "C13" | "C08" | "C03" | "C01" | "C02" | "C15" if which < 30 => pair::run(prop, &mut rng, verbose),
        "C12" | "C11" | "C08" | "C13" | "C15" if which < 40 => stress::run(prop, &mut rng),
        "C04" | "C01" | "C14" if which < 33 && which >= 30 => stress::run(prop, &mut rng),
        "C01" | "C03" | "C04" | "C11" | "C12" | "C13" if which < 50 && which >= 40 => stress::toggle(prop, &mut rng),
        _ => seq::run(prop, &mut rng, verbose),
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let prop: &'static str = Box::leak(a[1].clone().into_boxed_str());
    std::panic::set_hook(Box::new(|i| { println!("panic: {i}"); }));
    std::thread::spawn(move || {
        let mut last = (0, Instant::now());
        loop {
            std::thread::sleep(Duration::from_millis(250));
            let b = BEAT.load(Ordering::Relaxed);
            if b != last.0 { last = (b, Instant::now()); }
            else if last.1.elapsed() > Duration::from_secs(25) {
                println!("FOUND trial={} an operation does not return (25 s without progress)", TRIAL.load(Ordering::Relaxed));
                std::process::exit(1);
            }
        }
    });
    let one = a[2] == "trial";
    let verbose = one;
    let secs: u64 = if one { 0 } else { a[2].parse().unwrap() };
    let mut seed: u64 = a[3].parse().unwrap();
    if !one { seed = seed.wrapping_mul(1_000_003); }
    let t0 = Instant::now();
    let mut n = 0u64;
    loop {
        beat();
        TRIAL.store(seed, Ordering::Relaxed);
        if !one { use std::io::Write; let mut f = std::fs::OpenOptions::new().create(true).write(true).truncate(true).open(std::env::var("REPLAY_MARK").unwrap_or("/dev/null".into())).unwrap(); let _ = writeln!(f, "{seed}"); }
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| trial(prop, seed, verbose)));
        n += 1;
        let f = match r {
            Ok(Ok(())) => None,
            Ok(Err(f)) if f.props.contains(prop) => Some(f.what),
            Ok(Err(f)) => { if one { println!("other properties: {} {}", f.props, f.what); } None }
            Err(e) => {
                let m = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                Some(format!("panic: {m}"))
            }
        };
        if let Some(w) = f {
            println!("FOUND trial={seed} {w}");
            std::process::exit(1);
        }
        if one || t0.elapsed().as_secs() >= secs { break; }
        seed = seed.wrapping_add(1);
    }
    println!("NOTHING trials={n}");
    std::process::exit(0);
}
