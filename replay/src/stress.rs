//! Readers against writers: keys that never change must always be found with their value,
//! keys never stored must never be found.
use crate::alloc::Track;
use crate::seq::kv;
use crate::{beat, fail, Res, Rng};
use congee::Congee;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};
type Tree = Congee<usize, usize, Track>;
struct Sh(Arc<Tree>);
unsafe impl Send for Sh {}

pub fn run(prop: &str, rng: &mut Rng) -> Res {
    let a = Track::new();
    let t = Arc::new(Tree::new(a.clone()));
    let pos = if rng.chance(50) { 7 } else { rng.below(8) };
    let base = if rng.chance(50) { 0 } else { rng.next() as usize };
    let key = move |b: usize| { let mut k = base.to_be_bytes(); k[pos] = b as u8; usize::from_be_bytes(k) };
    let far = move |b: usize, c: usize| { let mut k = key(b).to_be_bytes(); k[(pos + 1) % 8] ^= 1 + (c % 3) as u8; usize::from_be_bytes(k) };
    let val = |k: usize| k.wrapping_mul(0x9E37_79B9) | 1;
    let modulo = [2, 5, 17, 60][rng.below(4)];
    // class 0: always there; 1: churned; 2: never there
    let class = move |b: usize| if b % modulo == 0 { 0 } else if b % 7 == 3 { 2 } else { 1 };
    for b in 0..256 { if class(b) == 0 { t.insert(key(b), val(key(b)), &t.pin()).map_err(|_| ()).unwrap(); } }
    let stable = (0..256).filter(|b| class(*b) == 0).count();
    let stop = Arc::new(AtomicBool::new(false));
    let bad: Arc<Mutex<Option<(&'static str, String)>>> = Arc::new(Mutex::new(None));
    let mut hs = vec![];
    for th in 0..6usize {
        let (t, stop, bad, seed) = (Sh(t.clone()), stop.clone(), bad.clone(), rng.next());
        let prop = prop.to_string();
        hs.push(std::thread::spawn(move || {
            let sh = t; let t = &sh.0;
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            let mut rng = Rng::new(seed);
            let mut buf = vec![(0, 0); 600];
            while !stop.load(Ordering::Relaxed) {
                beat();
                let g = t.pin();
                if th < 3 {
                    let down = rng.chance(50);
                    for _ in 0..40 {
                        let b = rng.below(256);
                        if class(b) == 1 {
                            if down { t.remove(&key(b), &g); } else { let _ = t.insert(key(b), val(key(b)), &g); }
                        }
                        if rng.chance(20) { let k = far(b, rng.below(3)); if rng.chance(50) { t.remove(&k, &g); } else { let _ = t.insert(k, val(k), &g); } }
                    }
                } else if th == 5 && (prop == "C14" || prop == "C12" || prop == "C15") && rng.chance(30) {
                    let n = kv(t);
                    if n < stable || n > 2000 { *bad.lock().unwrap() = Some(("C14 C12", format!("stats count {n} keys, at least {stable} are there all the time"))); }
                    if t.is_empty(&g) { *bad.lock().unwrap() = Some(("C14 C12", "is_empty while keys are there".into())); }
                } else if th == 5 && (prop == "C04" || prop == "C12" || prop == "C15") {
                    let n = t.range(&0, &usize::MAX, &mut buf, &g);
                    let mut seen = 0;
                    for i in 0..n {
                        let (k, v) = buf[i];
                        if i > 0 && buf[i - 1].0 >= k { *bad.lock().unwrap() = Some(("C04 C12", format!("scan out of order: {:#x} then {k:#x}", buf[i - 1].0))); }
                        if v != val(k) { *bad.lock().unwrap() = Some(("C04 C12", format!("scan reports {k:#x} with {v:#x}"))); }
                        if k.to_be_bytes()[pos] as usize % modulo == 0 && k == key(k.to_be_bytes()[pos] as usize) { seen += 1; }
                    }
                    if n < 600 && seen + usize::from(class(255) == 0 && key(255) == usize::MAX) < stable { *bad.lock().unwrap() = Some(("C04 C12", format!("scan reports {seen} of {stable} keys that are always there"))); }
                } else {
                    for _ in 0..60 {
                        let b = rng.below(256);
                        let k = key(b);
                        let r = t.get(&k, &g);
                        let ok = match class(b) { 0 => r == Some(val(k)), 2 => r.is_none(), _ => r.is_none() || r == Some(val(k)) };
                        if !ok { *bad.lock().unwrap() = Some(("C01 C12 C11 C13", format!("get({k:#x}) gives {r:x?} (class {})", class(b)))); }
                    }
                }
            }
            }));
            if let Err(e) = r { let m = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default(); *bad.lock().unwrap() = Some(("C01 C02 C03 C04 C08 C11 C12 C13 C14 C15", format!("panic: {m}"))); }
        }));
    }
    let t0 = Instant::now();
    while t0.elapsed() < Duration::from_millis(700) && bad.lock().unwrap().is_none() { std::thread::sleep(Duration::from_millis(5)); }
    stop.store(true, Ordering::Relaxed);
    for h in hs { let _ = h.join(); }
    if let Some((p, w)) = bad.lock().unwrap().take() { std::mem::forget(t); return fail(p, w); }
    for b in 0..256 { let k = key(b); let r = t.get(&k, &t.pin()); if class(b) == 0 && r != Some(val(k)) || class(b) == 2 && r.is_some() { std::mem::forget(t); return fail("C01 C12 C11 C13", format!("afterwards get({k:#x}) gives {r:x?}")); } }
    if let Some((p, w)) = a.bad() { std::mem::forget(t); return fail(p, w); }
    drop(t);
    a.finish()
}

/// A few keys that stay next to siblings that come and go: every operation on them has one answer.
pub fn toggle(prop: &str, rng: &mut Rng) -> Res {
    let a = Track::new();
    let t = Arc::new(Tree::new(a.clone()));
    let pos = if rng.chance(60) { 7 } else { rng.below(8) };
    let key = move |b: usize| { let mut k = 0x0101_0101_0101_0100usize.to_be_bytes(); k[pos] = b as u8; usize::from_be_bytes(k) };
    // siblings 1..=n have been there, 2..=1+keep stay, 1 (and sometimes one more) is toggled
    let n = [4, 4, 5, 17, 20, 49, 60][rng.below(7)];
    let keep = 2 + rng.below(2);
    let two = rng.chance(40);
    let val = |b: usize| b * 10;
    { let g = t.pin(); for b in 1..=n { t.insert(key(b), val(b), &g).map_err(|_| ()).unwrap(); } for b in 2 + keep..=n { t.remove(&key(b), &g); } }
    let stop = Arc::new(AtomicBool::new(false));
    let bad: Arc<Mutex<Option<(&'static str, String)>>> = Arc::new(Mutex::new(None));
    let mut hs = vec![];
    for th in 0..6usize {
        let (t, stop, bad, seed) = (Sh(t.clone()), stop.clone(), bad.clone(), rng.next());
        let prop = prop.to_string();
        hs.push(std::thread::spawn(move || {
            let sh = t; let t = &sh.0;
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                let mut rng = Rng::new(seed);
                let mut buf = vec![(0, 0); 16];
                let note = |p: &'static str, w: String| *bad.lock().unwrap() = Some((p, w));
                while !stop.load(Ordering::Relaxed) {
                    beat();
                    let g = t.pin();
                    let b = 2 + rng.below(keep);
                    let (k, v) = (key(b), val(b));
                    match if th == 0 { 0 } else { 1 + rng.below(6) } {
                        0 => for _ in 0..50 { let x = if two && rng.chance(50) { 0xf0 } else { 1 }; let _ = t.insert(key(x), val(x), &g); t.remove(&key(x), &g); },
                        1 => for _ in 0..50 { let r = t.get(&k, &g); if r != Some(v) { note("C01 C12 C13 C11", format!("get({k:#x}) gives {r:x?}, it holds {v:#x} all the time")); } },
                        2 | 3 => for _ in 0..50 { let r = t.compute_if_present(&k, |o| Some(o), &g); if r != Some((v, Some(v))) { note("C03 C12 C13 C11", format!("compute_if_present({k:#x}) gives {r:x?}, it holds {v:#x} all the time")); } },
                        4 => for _ in 0..50 { let r = t.compare_exchange(&k, &v, Some(v), &g); if r != Ok(Some(v)) { note("C03 C12 C13", format!("compare_exchange({k:#x}, {v:#x}) gives {r:x?}, it holds {v:#x} all the time")); } },
                        5 if prop != "C04" => for _ in 0..50 { let r = t.insert(k, v, &g); if r.as_ref().ok() != Some(&Some(v)) { note("C01 C12 C13 C11", format!("insert({k:#x}, {v:#x}) gives {:x?}, it holds {v:#x} all the time", r.map_err(|_| ()))); } },
                        _ => for _ in 0..20 {
                            let (lo, hi) = (b, 2 + keep);
                            let r = t.range(&key(lo), &key(hi), &mut buf, &g);
                            let want: Vec<(usize, usize)> = (lo..hi).map(|b| (key(b), val(b))).collect();
                            if r > buf.len() || buf[..r] != want[..] { note("C04 C12", format!("range({:#x}..{:#x}) gives {:x?}, it is {want:x?} all the time", key(lo), key(hi), &buf[..r.min(16)])); }
                        },
                    }
                }
            }));
            if let Err(e) = r { let m = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default(); *bad.lock().unwrap() = Some(("C01 C02 C03 C04 C08 C11 C12 C13 C15", format!("panic: {m}"))); }
        }));
    }
    let t0 = Instant::now();
    while t0.elapsed() < Duration::from_millis(1500) && bad.lock().unwrap().is_none() { std::thread::sleep(Duration::from_millis(5)); }
    stop.store(true, Ordering::Relaxed);
    for h in hs { let _ = h.join(); }
    if let Some((p, w)) = bad.lock().unwrap().take() { std::mem::forget(t); return fail(p, w); }
    drop(t);
    a.finish()
}
