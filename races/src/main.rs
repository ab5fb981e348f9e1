//! Bounded stand-in for what no contract in the verifier's reach expresses: that an optimistic
//! reader does not read a field of a node twice and rely on both reads (there is no call between
//! the reads at which a contract could let the environment act).  Unoptimized, with the
//! standard library's checks of unchecked indexing.  usage: races <seconds>
use congee::Congee;
use std::time::{Duration, Instant};

const BASE: usize = 0x0101_0101_0101_0000;

/// `n` siblings at byte position `pos`; the first is removed and inserted all the time, all but
/// `keep` others are gone; readers look it up and scan around it.
fn race(n: usize, keep: usize, pos: usize, time: Duration) {
    let t: Congee<usize, usize> = Congee::default();
    let k = |b: usize| BASE | b << (8 * (7 - pos)) | if pos == 7 { 0 } else { 7 };
    {
        let g = t.pin();
        for b in 1..=n { t.insert(k(b), b, &g).unwrap(); }
        for b in 2 + keep..=n { t.remove(&k(b), &g); }
    }
    let t0 = Instant::now();
    std::thread::scope(|s| {
        for w in 0..3 {
            let (t, k) = (&t, &k);
            s.spawn(move || while t0.elapsed() < time {
                let g = t.pin();
                for _ in 0..50 { if w < 2 { t.remove(&k(1), &g); } t.insert(k(1), 1, &g).unwrap(); }
            });
        }
        for r in 0..4 {
            let (t, k) = (&t, &k);
            s.spawn(move || {
                let mut buf = [(0, 0); 8];
                while t0.elapsed() < time {
                    let g = t.pin();
                    for _ in 0..50 {
                        if r < 2 {
                            if let Some(v) = t.get(&k(1), &g) { assert_eq!(v, 1); }
                        } else {
                            let c = t.range(&k(0), &k(200), &mut buf, &g);
                            assert!(c <= keep + 1);
                            for (key, v) in &buf[..c] { assert_eq!(*key, k(*v)); }
                        }
                    }
                }
            });
        }
    });
}

fn main() {
    let secs: u64 = std::env::args().nth(1).unwrap().parse().unwrap();
    std::panic::set_hook(Box::new(|i| { println!("FOUND {i}"); std::process::exit(1); }));
    let cases = [(20, 3, 7), (5, 0, 6), (20, 0, 6), (20, 3, 6), (5, 3, 7), (60, 3, 7), (3, 1, 7), (3, 0, 6)];
    for (n, keep, pos) in cases { race(n, keep, pos, Duration::from_millis(1000 * secs / cases.len() as u64)); }
    println!("NOTHING");
}
