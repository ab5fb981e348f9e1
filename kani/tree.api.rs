use crate::verif::api::{KEY, START, END, CUR, CALLS, NEW, OOM, RESULT, NRESULT, MORE, PRESENT};
macro_rules! oblige {
    ($c:expr, $m:literal) => { if !($c) && kani::any() { assert!(false, $m); } };
}
pub(crate) fn mk_raw<A: Allocator + Clone + Send>(allocator: A, drain_callback: Arc<dyn Fn([u8; 8], usize)>) -> RawCongee<8, A> {
    RawCongee { root: NonNull::dangling(), drain_callback, allocator, _pt_key: PhantomData }
}
pub(crate) fn drainer<A: Allocator + Clone + Send>(t: &RawCongee<8, A>) -> &Arc<dyn Fn([u8; 8], usize)> { &t.drain_callback }
fn same<const K_LEN: usize>(k: &[u8; K_LEN], e: &[u8; 8]) -> bool {
    let k = unsafe { &*(k as *const [u8; K_LEN] as *const [u8; 8]) };
    u64::from_ne_bytes(*k) == u64::from_ne_bytes(*e)
}
// The map the tree is, seen at the key KEY: CUR is what it holds there.
impl<const K_LEN: usize, A: Allocator + Clone + Send> RawCongee<K_LEN, A> {
    pub(crate) fn c_get(&self, k: &[u8; K_LEN], _g: &Guard) -> Option<usize> { unsafe { CALLS += 1; oblige!(same(k, &KEY), "[C07,C01] a key is not passed on as its number's bytes in numeric order"); CUR } }
    pub(crate) fn c_insert(&self, k: &[u8; K_LEN], v: usize, _g: &Guard) -> Result<Option<usize>, OOMError> {
        unsafe {
            CALLS += 1;
            oblige!(same(k, &KEY), "[C07,C01] a key is not passed on as its number's bytes in numeric order");
            if OOM { return Err(OOMError::new()); }
            let o = CUR; CUR = Some(v); Ok(o)
        }
    }
    pub(crate) fn c_compute_or_insert<F>(&self, k: &[u8; K_LEN], f: &mut F, _g: &Guard) -> Result<Option<usize>, OOMError> where F: FnMut(Option<usize>) -> usize {
        unsafe {
            CALLS += 1;
            oblige!(same(k, &KEY), "[C07,C03] a key is not passed on as its number's bytes in numeric order");
            // an abandoned attempt may have applied the function before
            if kani::any() { let _ = f(if kani::any() { Some(kani::any()) } else { None }); }
            if OOM { return Err(OOMError::new()); }
            let o = CUR; CUR = Some(f(o)); Ok(o)
        }
    }
    pub(crate) fn c_compute_if_present<F>(&self, k: &[u8; K_LEN], f: &mut F, _g: &Guard) -> Option<(usize, Option<usize>)> where F: FnMut(usize) -> Option<usize> {
        unsafe {
            CALLS += 1;
            oblige!(same(k, &KEY), "[C07,C02,C03] a key is not passed on as its number's bytes in numeric order");
            if kani::any() { let _ = f(kani::any()); }
            match CUR { None => None, Some(o) => { CUR = f(o); Some((o, CUR)) } }
        }
    }
    pub(crate) fn c_range(&self, s: &[u8; K_LEN], e: &[u8; K_LEN], r: &mut [([u8; K_LEN], usize)], _g: &Guard) -> usize {
        unsafe {
            CALLS += 1;
            oblige!(same(s, &START) && same(e, &END), "[C07,C04] an interval is not passed on as its numbers' bytes in numeric order");
            let n = if NRESULT < r.len() { NRESULT } else { r.len() };
            let mut i = 0;
            while i < n { r[i].0.copy_from_slice(&RESULT[i].0); r[i].1 = RESULT[i].1; i += 1; }
            n
        }
    }
    pub(crate) fn c_is_empty(&self, _g: &Guard) -> bool { unsafe { CALLS += 1; CUR.is_none() } }
    // the same contracts seen by code that asks for the whole tree: one key that is there, or none
    pub(crate) fn e_get(&self, k: &[u8; K_LEN], _g: &Guard) -> Option<usize> { unsafe { if PRESENT && same(k, &KEY) || MORE && kani::any() { Some(kani::any()) } else { None } } }
    pub(crate) fn e_range(&self, s: &[u8; K_LEN], e: &[u8; K_LEN], r: &mut [([u8; K_LEN], usize)], _g: &Guard) -> usize {
        let (s, e) = unsafe { (&*(s as *const [u8; K_LEN] as *const [u8; 8]), &*(e as *const [u8; K_LEN] as *const [u8; 8])) };
        unsafe {
            let n = if PRESENT && u64::from_be_bytes(*s) <= u64::from_be_bytes(KEY) && u64::from_be_bytes(KEY) < u64::from_be_bytes(*e) { 1 } else { 0 };
            let m = if MORE { kani::any() } else { 0 };
            kani::assume(m < 1000);
            if n + m < r.len() { n + m } else { r.len() }
        }
    }
    pub(crate) fn e_dfs<V: CongeeVisitor<K_LEN>>(&self, v: &mut V) -> Result<(), ArtError> {
        unsafe {
            let mut key = [0u8; K_LEN];
            if PRESENT { key.copy_from_slice(&KEY); v.visit_payload(key, kani::any()); }
            if MORE { let mut k2 = [0u8; K_LEN]; k2[0] = kani::any(); v.visit_payload(k2, kani::any()); }
            CALLS += 1;
            if NEW && kani::any() { kani::assume(CALLS < 3); return Err(ArtError::VersionNotMatch); }
            Ok(())
        }
    }
}
fn tree() -> std::mem::ManuallyDrop<RawCongee<8, DefaultAllocator>> { std::mem::ManuallyDrop::new(mk_raw(DefaultAllocator {}, Arc::new(|_k, _v| {}))) }

#[kani::proof]
#[kani::stub(RawCongee::get, RawCongee::e_get)]
#[kani::stub(RawCongee::range, RawCongee::e_range)]
#[kani::stub(RawCongee::dfs_visitor_slow, RawCongee::e_dfs)]
#[kani::unwind(10)]
fn is_empty() {
    unsafe { KEY = kani::any(); PRESENT = kani::any(); MORE = kani::any(); kani::assume(PRESENT || !MORE); }
    let t = tree();
    let g = unsafe { crossbeam_epoch::unprotected() };
    let r = t.is_empty(g);
    oblige!(r == !unsafe { PRESENT }, "[C14] a tree with a key is reported empty, or an empty one not");
}
#[kani::proof]
#[kani::stub(RawCongee::dfs_visitor_slow, RawCongee::e_dfs)]
#[kani::unwind(10)]
fn value_count() {
    unsafe { KEY = kani::any(); PRESENT = kani::any(); MORE = kani::any(); NEW = true; CALLS = 0; }
    let t = tree();
    let g = unsafe { crossbeam_epoch::unprotected() };
    // at most one pass is disturbed; later rounds start in the same state
    let r = t.value_count(g);
    oblige!(r == unsafe { PRESENT as usize + MORE as usize }, "[C14] keys are counted wrongly");
}
/// the visitors: one drained pair per visited pair, one release per left node
#[kani::proof]
fn drop_visitor() {
    use crate::verif::api::{DRAINED, NDRAINED};
    let mut v = DropVisitor::<8, DefaultAllocator> { allocator: DefaultAllocator {}, drain_callback: Arc::new(|k, v| unsafe { DRAINED = (k, v); NDRAINED += 1; }) };
    let (k, w): ([u8; 8], usize) = kani::any();
    v.visit_payload(k, w);
    oblige!(unsafe { NDRAINED } == 1 && unsafe { DRAINED } == (k, w), "[C09] a drained pair is not handed to the callback once and unchanged");
    std::mem::forget(v);
}
