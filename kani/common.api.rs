use crate::epoch::Guard;
use crate::tree::verif::api::{drainer, mk_raw};
use crate::tree::RawCongee;
use crate::{Allocator, Congee, DefaultAllocator, U64Congee};
use std::marker::PhantomData;
use std::mem::ManuallyDrop;
use std::sync::Arc;
macro_rules! oblige {
    ($c:expr, $m:literal) => { if !($c) && kani::any() { assert!(false, $m); } };
}
pub(crate) static mut KEY: [u8; 8] = [0; 8];
pub(crate) static mut START: [u8; 8] = [0; 8];
pub(crate) static mut END: [u8; 8] = [0; 8];
pub(crate) static mut CUR: Option<usize> = None;
pub(crate) static mut CALLS: usize = 0;
pub(crate) static mut NEW: bool = false;
pub(crate) static mut OOM: bool = false;
pub(crate) static mut PRESENT: bool = false;
pub(crate) static mut MORE: bool = false;
pub(crate) static mut RESULT: [([u8; 8], usize); 3] = [([0; 8], 0); 3];
pub(crate) static mut NRESULT: usize = 0;
pub(crate) static mut DRAINED: ([u8; 8], usize) = ([0; 8], 0);
pub(crate) static mut NDRAINED: usize = 0;

#[derive(Clone, Copy, PartialEq)]
struct K(usize);
impl From<usize> for K { fn from(x: usize) -> K { K(x) } }
impl From<K> for usize { fn from(k: K) -> usize { k.0 } }
#[derive(Clone, Copy, PartialEq)]
struct V(usize);
impl From<usize> for V { fn from(x: usize) -> V { V(x) } }
impl From<V> for usize { fn from(v: V) -> usize { v.0 } }

fn map() -> ManuallyDrop<Congee<K, V>> { ManuallyDrop::new(Congee { inner: mk_raw(DefaultAllocator {}, Arc::new(|_k, _v| {})), pt_key: PhantomData, pt_val: PhantomData }) }
fn map64() -> ManuallyDrop<U64Congee<V>> { ManuallyDrop::new(U64Congee { inner: mk_raw(DefaultAllocator {}, Arc::new(|_k, _v| {})), pt_val: PhantomData }) }
/// bytes in numeric order
fn bytes(mut x: u64) -> [u8; 8] { let mut b = [0; 8]; let mut i = 8; while i > 0 { i -= 1; b[i] = x as u8; x >>= 8; } b }
fn number(b: [u8; 8]) -> usize { let mut x = 0; let mut i = 0; while i < 8 { x = x << 8 | b[i] as usize; i += 1; } x }
fn any_cur() -> Option<usize> { let c = if kani::any() { Some(kani::any()) } else { None }; unsafe { CUR = c; OOM = kani::any(); } c }

macro_rules! api {
    ($(fn $h:ident() $b:block)*) => { $(
        #[kani::proof]
        #[kani::stub(RawCongee::get, RawCongee::c_get)]
        #[kani::stub(RawCongee::insert, RawCongee::c_insert)]
        #[kani::stub(RawCongee::compute_or_insert, RawCongee::c_compute_or_insert)]
        #[kani::stub(RawCongee::compute_if_present, RawCongee::c_compute_if_present)]
        #[kani::stub(RawCongee::range, RawCongee::c_range)]
        #[kani::stub(RawCongee::is_empty, RawCongee::c_is_empty)]
        #[kani::unwind(10)]
        fn $h() $b
    )* };
}
api! {
    fn get() {
        let (t, g, k) = (map(), unsafe { crossbeam_epoch::unprotected() }, kani::any::<usize>());
        unsafe { KEY = bytes(k as u64); }
        let c = any_cur();
        oblige!(t.get(&K(k), g) == c.map(V), "[C07,C01] a looked up value is not passed on unchanged");
        oblige!(unsafe { CUR } == c, "[C01,C07] a lookup changes the tree");
        let t = map64();
        oblige!(t.get(k as u64, g) == c.map(V), "[C07,C01] a looked up value is not passed on unchanged");
    }
    fn insert() {
        let (t, g, k, v) = (map(), unsafe { crossbeam_epoch::unprotected() }, kani::any::<usize>(), kani::any::<usize>());
        unsafe { KEY = bytes(k as u64); }
        let c = any_cur();
        let r = if kani::any() { t.insert(K(k), V(v), g) } else { let t = map64(); t.insert(k as u64, V(v), g) };
        match r {
            Ok(o) => { oblige!(!unsafe { OOM } && o == c.map(V) && unsafe { CUR } == Some(v), "[C07,C01] a stored or a replaced value is not passed on unchanged"); }
            Err(_) => { oblige!(unsafe { OOM } && unsafe { CUR } == c, "[C10,C07] out of memory is not passed on"); }
        }
    }
    fn remove() {
        let (t, g, k) = (map(), unsafe { crossbeam_epoch::unprotected() }, kani::any::<usize>());
        unsafe { KEY = bytes(k as u64); }
        let c = any_cur();
        let r = if kani::any() { t.remove(&K(k), g) } else { let t = map64(); t.remove(k as u64, g) };
        oblige!(r == c.map(V), "[C02,C07] a removed value is not passed on unchanged");
        oblige!(unsafe { CUR }.is_none(), "[C02] a removed key is still there");
    }
    fn compute_if_present() {
        let (t, g, k) = (map(), unsafe { crossbeam_epoch::unprotected() }, kani::any::<usize>());
        unsafe { KEY = bytes(k as u64); }
        let c = any_cur();
        let x: Option<usize> = if kani::any() { Some(kani::any()) } else { None };
        let mut arg = None;
        let r = t.compute_if_present(&K(k), |o| { arg = Some(o); x.map(|x| x ^ o) }, g);
        oblige!(r == c.map(|c| (c, x.map(|x| x ^ c))), "[C03,C07] the values of an update are not passed on unchanged");
        oblige!(c.is_none() || arg == c, "[C03] an update function is not applied to the current value last");
        oblige!(unsafe { CUR } == match c { None => None, Some(c) => x.map(|x| x ^ c) }, "[C03] the result of an update function is not what is stored");
    }
    fn compute_or_insert() {
        let (t, g, k) = (map(), unsafe { crossbeam_epoch::unprotected() }, kani::any::<usize>());
        unsafe { KEY = bytes(k as u64); }
        let c = any_cur();
        let x: usize = kani::any();
        match t.compute_or_insert(K(k), |o| x ^ o.unwrap_or(5), g) {
            Ok(o) => { oblige!(!unsafe { OOM } && o == c.map(V) && unsafe { CUR } == Some(x ^ c.unwrap_or(5)), "[C03,C07] the values of an update are not passed on unchanged"); }
            Err(_) => { oblige!(unsafe { OOM } && unsafe { CUR } == c, "[C10] out of memory is not passed on"); }
        }
    }
    fn compare_exchange() {
        let (t, g, k) = (map(), unsafe { crossbeam_epoch::unprotected() }, kani::any::<usize>());
        unsafe { KEY = bytes(k as u64); }
        let c = any_cur();
        let old: usize = kani::any();
        let new: Option<usize> = if kani::any() { Some(kani::any()) } else { None };
        let r = t.compare_exchange(&K(k), &V(old), new.map(V), g);
        let hit = c == Some(old);
        oblige!(r.is_ok() == hit, "[C03] compare-and-exchange succeeds on another value than the expected one, or fails on it");
        oblige!(unsafe { CUR } == if hit { new } else { c }, "[C03] compare-and-exchange stores something else than it should");
        match r {
            Ok(v) => { oblige!(v == new.map(V), "[C03] compare-and-exchange does not report the new value"); }
            Err(v) => { oblige!(v == c.map(V), "[C03] compare-and-exchange does not report the current value"); }
        }
    }
    fn range() {
        let (t, g) = (map(), unsafe { crossbeam_epoch::unprotected() });
        let (s, e): (usize, usize) = kani::any();
        unsafe { START = bytes(s as u64); END = bytes(e as u64); RESULT = kani::any(); NRESULT = kani::any(); }
        let len: usize = kani::any();
        kani::assume(len <= 3);
        let i: usize = kani::any();
        kani::assume(i < 3);
        if kani::any() {
            let mut buf: [(usize, usize); 3] = kani::any();
            let before = buf[i];
            let n = t.range(&K(s), &K(e), &mut buf[..len], g);
            oblige!(n == if unsafe { NRESULT } < len { unsafe { NRESULT } } else { len }, "[C05,C04,C07] the number of scanned keys is not passed on");
            oblige!(buf[i] == if i < n { let (k, v) = unsafe { RESULT[i] }; (number(k), v) } else { before }, "[C07,C04,C05] a scanned pair is not reported as the number and value it was stored under, or an unused entry is changed");
        } else {
            let t = map64();
            let mut buf: [([u8; 8], usize); 3] = kani::any();
            let before = buf[i];
            let n = t.range(s as u64, e as u64, &mut buf[..len], g);
            oblige!(n == if unsafe { NRESULT } < len { unsafe { NRESULT } } else { len }, "[C05,C04,C07] the number of scanned keys is not passed on");
            oblige!(buf[i] == if i < n { unsafe { RESULT[i] } } else { before }, "[C07,C04,C05] a scanned pair is not reported as it was stored, or an unused entry is changed");
        }
    }
    fn is_empty() {
        let (t, g) = (map(), unsafe { crossbeam_epoch::unprotected() });
        let c = any_cur();
        oblige!(t.is_empty(g) == c.is_none(), "[C14] emptiness is not passed on");
    }
}
/// the drain callback gets the numbers and values the pairs were stored under
#[kani::proof]
#[kani::unwind(10)]
fn drain() {
    unsafe { KEY = kani::any(); NRESULT = kani::any(); }
    let t: Congee<K, V, DefaultAllocator> = Congee::new_with_drainer(DefaultAllocator {}, |k: K, v: V| unsafe {
        oblige!(NDRAINED == 0, "[C09,C07] a pair is drained twice");
        NDRAINED += 1;
        oblige!(k.0 == number(KEY) && v.0 == NRESULT, "[C07,C09] a drained pair is not reported as the number and value it was stored under");
    });
    let t = ManuallyDrop::new(t);
    drainer(&t.inner)(unsafe { KEY }, unsafe { NRESULT });
    oblige!(unsafe { NDRAINED } == 1, "[C09,C07] a pair is not drained");
}
