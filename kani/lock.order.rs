use crate::base_node::verif::lock::room;
use crate::node_4::Node4;

/// The memory order of every access to a version word is part of the contract: the word orders
/// the reader's loads of the node after it and the writer's stores before it.
pub(crate) fn acquires(o: Ordering) -> bool { matches!(o, Ordering::Acquire | Ordering::AcqRel | Ordering::SeqCst) }
pub(crate) fn releases(o: Ordering) -> bool { matches!(o, Ordering::Release | Ordering::AcqRel | Ordering::SeqCst) }

macro_rules! oblige {
    ($c:expr, $m:literal) => { if !($c) && kani::any() { assert!(false, $m); } };
}
fn any_word() -> usize { let v: usize = kani::any(); kani::assume(v < usize::MAX - 16); v }
static mut WORD: usize = 0;
/// while a read guard is taken or validated; later loads may be hints
static mut READING: bool = true;
unsafe fn as_word<T: Copy>(v: T) -> usize { assert!(std::mem::size_of::<T>() == 8); std::mem::transmute_copy(&v) }
unsafe fn of_word<T: Copy>(v: usize) -> T { std::mem::transmute_copy(&v) }
unsafe fn o_load<T: Copy, const V: bool>(_a: *const T, o: Ordering) -> T {
    oblige!(acquires(o) || !READING, "[C12] a version is read without acquire order");
    of_word(WORD)
}
unsafe fn o_cas<T: Copy>(_a: *mut T, old: T, new: T, o: Ordering, _f: Ordering) -> Result<T, T> {
    oblige!(acquires(o) || releases(o), "[C11,C12] a lock is taken without ordering");
    if WORD == as_word(old) && kani::any() { WORD = as_word(new); Ok(old) } else { Err(of_word(WORD)) }
}
unsafe fn o_add<T: Copy, U: Copy>(_a: *mut T, d: U, o: Ordering) -> T {
    oblige!(releases(o), "[C11,C12] a lock is released, or a node marked dead, without release order");
    WORD += as_word(d);
    of_word(WORD - as_word(d))
}
#[kani::proof]
#[kani::stub(core::sync::atomic::atomic_load, o_load)]
#[kani::stub(core::sync::atomic::atomic_compare_exchange_weak, o_cas)]
#[kani::stub(core::sync::atomic::atomic_compare_exchange, o_cas)]
#[kani::stub(core::sync::atomic::atomic_add, o_add)]
fn order() {
    let p: NonNull<BaseNode> = NonNull::from(Box::leak(Box::new(room(64)))).cast();
    unsafe { WORD = any_word(); }
    let g = match BaseNode::read_lock(p) { Ok(g) => g, Err(_) => return };
    let _ = g.check_version();
    unsafe { READING = false; }
    if kani::any() {
        if let Ok(mut w) = g.upgrade() { if kani::any() { w.mark_obsolete(); } }
    } else if let Ok(w) = g.into_typed::<Node4>().upgrade() { if kani::any() { w.mark_obsolete(); } }
}
