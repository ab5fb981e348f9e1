//! Scenarios that need a particular environment: the integer handle, the default allocator.
use crate::{fail, Res, Rng};
use congee::{Congee, U64Congee};
use std::alloc::{GlobalAlloc, Layout, System};
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicUsize, Ordering};

pub struct Global;
static REFUSE: AtomicUsize = AtomicUsize::new(0);
unsafe impl GlobalAlloc for Global {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { let r = REFUSE.load(Ordering::Relaxed); if r != 0 && l.size() == r && l.align() == 8 { return std::ptr::null_mut(); } System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { System.dealloc(p, l) }
}
#[global_allocator]
static G: Global = Global;
const SIZES: [usize; 6] = [64, 56, 72, 168, 664, 2072];

pub fn run(prop: &str, rng: &mut Rng) -> Res {
    if prop == "C10" {
        for s in SIZES {
            let t = Congee::<usize, usize>::default();
            let g = t.pin();
            t.insert(1, 1, &g).unwrap();
            let n = 2 + rng.below(300);
            let pos = rng.below(8);
            let mut there = vec![1];
            for i in 0..n {
                let mut k = [0u8; 8]; k[7] = 1; k[pos] = i as u8;
                let k = usize::from_be_bytes(k);
                REFUSE.store(s, Ordering::Relaxed);
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| t.insert(k, i, &g)));
                REFUSE.store(0, Ordering::Relaxed);
                match r { Err(_) => { std::mem::forget(t); return fail("C10 C15", format!("insert({k:#x}) panics when the default allocator is out of memory ({s} bytes)")); } Ok(Ok(_)) => there.push(k), Ok(Err(_)) => { t.insert(k, i, &g).unwrap(); there.push(k); } }
            }
            for k in there { if t.get(&k, &g).is_none() { return fail("C10", format!("{k:#x} is gone")); } }
        }
        return Ok(());
    }
    if prop == "C14" {
        let t = Congee::<usize, usize>::default();
        let g = t.pin();
        for k in [0usize, 256, usize::MAX, rng.next() as usize] {
            t.insert(k, 1, &g).unwrap();
            if t.is_empty(&g) { return fail("C14", format!("is_empty with {k:#x} stored")); }
            t.remove(&k, &g);
            if !t.is_empty(&g) { return fail("C14", format!("is_empty is false after {k:#x} was removed again")); }
        }
        return Ok(());
    }
    let t = U64Congee::<usize>::new();
    let c = Congee::<usize, usize>::default();
    let g = c.pin();
    let mut m = BTreeMap::new();
    for k in crate::seq::pool(rng) {
        let v = rng.next() as usize;
        let e = m.insert(k, v);
        let (r, r2) = (t.insert(k as u64, v, &g).unwrap(), c.insert(k, v, &g).unwrap());
        if r != e || r2 != e { return fail("C07", format!("insert({k:#x}) returns {r:?} through U64Congee, {r2:?} through Congee, expected {e:?}")); }
        if rng.chance(20) { let e = m.remove(&k); let (r, r2) = (t.remove(k as u64, &g), c.remove(&k, &g)); if r != e || r2 != e { return fail("C07", format!("remove({k:#x}) returns {r:?} through U64Congee, {r2:?} through Congee, expected {e:?}")); } }
    }
    for k in m.keys() { let (r, r2) = (t.get(*k as u64, &g), c.get(k, &g)); if r != m.get(k).copied() || r2 != r { return fail("C07", format!("get({k:#x}) gives {r:?} / {r2:?}")); } }
    let mut buf = vec![([0u8; 8], 0usize); 400];
    let mut buf2 = vec![(0usize, 0usize); 400];
    let hi = if rng.chance(50) { usize::MAX } else { rng.next() as usize };
    let lo = if rng.chance(50) { 0 } else { rng.next() as usize };
    let want: Vec<_> = if lo < hi { m.range(lo..hi).map(|(k, v)| (*k, *v)).collect() } else { vec![] };
    let n = t.range(lo as u64, hi as u64, &mut buf, &g);
    let got: Vec<_> = buf[..n].iter().map(|(k, v)| (u64::from_be_bytes(*k) as usize, *v)).collect();
    if got != want { return fail("C07", format!("U64Congee::range({lo:#x}..{hi:#x}) gives {got:x?}, expected {want:x?}")); }
    let n = c.range(&lo, &hi, &mut buf2, &g);
    if &buf2[..n] != &want[..] { return fail("C07 C04", format!("Congee::range({lo:#x}..{hi:#x}) gives {:x?}, expected {want:x?}", &buf2[..n])); }
    Ok(())
}
