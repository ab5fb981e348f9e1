// The retry loops, against arbitrary outcomes of the attempts they make.
use std::mem::ManuallyDrop;
macro_rules! oblige {
    ($c:expr, $m:literal) => { if !($c) && kani::any() { assert!(false, $m); } };
}
fn tree() -> ManuallyDrop<RawCongee<8, DefaultAllocator>> {
    ManuallyDrop::new(RawCongee { root: NonNull::dangling(), drain_callback: Arc::new(|_k, _v| {}), allocator: DefaultAllocator {}, _pt_key: PhantomData })
}
static mut KEY: [u8; 8] = [0; 8];
static mut TREE: *const u8 = std::ptr::null();
static mut N: u8 = 0;
static mut DONE: bool = false;
static mut ARG: Option<usize> = None;
static mut GOT: usize = 0;
static mut INS: Option<usize> = None;
static mut OOM: bool = false;
static mut CMP: Option<(usize, Option<usize>)> = None;

fn attempt(t: *const u8, k: *const u8) {
    unsafe {
        assert!(!DONE, "[C01,C02,C03,C13] an operation that took effect is repeated");
        oblige!(t == TREE, "[C01,C02,C03] the attempt is made on another tree");
        oblige!(*(k as *const [u8; 8]) == KEY, "[C01,C02,C03] the attempt is made for another key");
        // every round of the loop starts in the same state; the third stands for all later ones
        N += 1;
        kani::assume(N <= 3);
    }
}
impl<const K_LEN: usize, A: Allocator + Clone + Send> RawCongee<K_LEN, A> {
    fn c_insert_inner<F>(&self, k: &[u8; K_LEN], tid_func: &mut F, _g: &Guard) -> Result<Option<usize>, ArtError> where F: FnMut(Option<usize>) -> usize {
        attempt(self as *const Self as *const u8, k as *const _ as *const u8);
        unsafe {
            // a failed attempt may have applied the function already
            ARG = if kani::any() { Some(kani::any()) } else { None };
            if kani::any() { GOT = tid_func(ARG); }
            match kani::any::<u8>() & 3 {
                0 => Err(ArtError::Locked),
                1 => Err(ArtError::VersionNotMatch),
                2 => { DONE = true; OOM = true; Err(ArtError::Oom) }
                _ => { DONE = true; GOT = tid_func(ARG); INS = ARG; Ok(ARG) }
            }
        }
    }
    fn c_compute_inner<F>(&self, k: &[u8; K_LEN], f: &mut F, _g: &Guard) -> Result<Option<(usize, Option<usize>)>, ArtError> where F: FnMut(usize) -> Option<usize> {
        attempt(self as *const Self as *const u8, k as *const _ as *const u8);
        unsafe {
            match kani::any::<u8>() & 3 {
                0 => Err(ArtError::Locked),
                1 => Err(ArtError::VersionNotMatch),
                2 => { DONE = true; CMP = None; Ok(None) }
                _ => { DONE = true; let o: usize = kani::any(); let n = f(o); CMP = Some((o, n)); Ok(CMP) }
            }
        }
    }
}
fn c_spin(_b: &Backoff) {}

#[kani::proof]
#[kani::stub(RawCongee::insert_inner, RawCongee::c_insert_inner)]
#[kani::stub(crate::utils::Backoff::spin, c_spin)]
#[kani::unwind(10)]
fn insert() {
    let t = tree();
    let g = unsafe { crossbeam_epoch::unprotected() };
    let v: usize = kani::any();
    unsafe { KEY = kani::any(); TREE = &*t as *const RawCongee<8, DefaultAllocator> as *const u8; }
    let r = t.insert(unsafe { &KEY }, v, g);
    unsafe {
        oblige!(DONE, "[C01,C13] a store ends without having taken effect");
        match r {
            Ok(o) => { oblige!(!OOM && o == INS && GOT == v, "[C01,C03] a store does not report its attempt's result, or stores something else than its value"); }
            Err(_) => { oblige!(OOM, "[C10,C13] out of memory is reported for something else"); }
        }
    }
    kani::cover!(true);
}
#[kani::proof]
#[kani::stub(RawCongee::insert_inner, RawCongee::c_insert_inner)]
#[kani::stub(crate::utils::Backoff::spin, c_spin)]
#[kani::unwind(10)]
fn compute_or_insert() {
    let t = tree();
    let g = unsafe { crossbeam_epoch::unprotected() };
    unsafe { KEY = kani::any(); TREE = &*t as *const RawCongee<8, DefaultAllocator> as *const u8; }
    let (mut arg, x) = (None, kani::any::<usize>());
    let r = t.compute_or_insert(unsafe { &KEY }, &mut |o| { arg = o; x ^ o.unwrap_or(7) }, g);
    unsafe {
        oblige!(DONE, "[C03,C13] an update ends without having taken effect");
        match r {
            Ok(o) => { oblige!(!OOM && o == INS && arg == ARG && GOT == x ^ ARG.unwrap_or(7), "[C03] an update does not report its attempt's result, or applies another function"); }
            Err(_) => { oblige!(OOM, "[C10,C13] out of memory is reported for something else"); }
        }
    }
    kani::cover!(true);
}
#[kani::proof]
#[kani::stub(RawCongee::compute_if_present_inner, RawCongee::c_compute_inner)]
#[kani::stub(crate::utils::Backoff::spin, c_spin)]
#[kani::unwind(10)]
fn compute_if_present() {
    let t = tree();
    let g = unsafe { crossbeam_epoch::unprotected() };
    unsafe { KEY = kani::any(); TREE = &*t as *const RawCongee<8, DefaultAllocator> as *const u8; }
    let (mut arg, x) = (None, kani::any::<Option<usize>>());
    let r = t.compute_if_present(unsafe { &KEY }, &mut |o| { arg = Some(o); x }, g);
    unsafe {
        oblige!(DONE, "[C02,C03,C13] an update ends without having taken effect");
        oblige!(r == CMP, "[C02,C03] an update does not report its attempt's result");
        if let Some((o, n)) = CMP { oblige!(arg == Some(o) && n == x, "[C02,C03] an update applies another function"); }
    }
    kani::cover!(true);
}

#[kani::proof]
#[kani::stub(RangeScan::scan, RangeScan::c_scan)]
#[kani::stub(crate::utils::Backoff::spin, c_spin)]
#[kani::unwind(10)]
fn range() {
    use crate::range_scan::verif::wrap::{BOUNDS, BUF, ROOT, SCANNED};
    let t = tree();
    let g = unsafe { crossbeam_epoch::unprotected() };
    let (s, e): ([u8; 8], [u8; 8]) = kani::any();
    let before: [([u8; 8], usize); 2] = kani::any();
    let mut buf = before;
    unsafe { BOUNDS = [s, e]; BUF = buf.as_ptr() as *const u8; ROOT = t.root.as_ptr() as *const u8; }
    let r = t.range(&s, &e, &mut buf, g);
    unsafe {
        match SCANNED {
            Some(n) => oblige!(r == n, "[C04,C05] a range does not return the number of keys its scan found"),
            None => {
                oblige!(s >= e, "[C04] the scan of an interval is left out");
                oblige!(r == 0 && buf == before, "[C04,C05] keys are found in an empty interval");
            }
        }
    }
}
