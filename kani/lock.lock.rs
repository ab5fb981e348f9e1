use crate::base_node::verif::lock::{room, word, set};
use crate::node_4::Node4;
use crate::node_256::Node256;

macro_rules! oblige {
    ($c:expr, $m:literal) => { if !($c) && kani::any() { assert!(false, $m); } };
}

// an even version with room to grow; the counter has 60 bits and is assumed not to wrap
fn any_word() -> usize { let v: usize = kani::any(); kani::assume(v < usize::MAX - 16); v }

/// Taking a read guard, and what it is worth after any interference by other threads
/// (which replaces the word by an arbitrary one).
fn scenario<W>(up: impl Fn(ReadGuard<'static>) -> Result<W, ()>, dead: impl Fn(&mut W), root: bool) {
    let (v0, v1) = (any_word(), any_word());
    let p: NonNull<BaseNode> = NonNull::from(Box::leak(Box::new(room(v0)))).cast();
    let n: &'static BaseNode = unsafe { &*p.as_ptr() };
    let r = if root { BaseNode::read_lock_root(p.cast::<Node256>()) } else { BaseNode::read_lock(p) };
    oblige!(word(n) == v0, "[C11,C12] taking a read guard changes the version");
    oblige!(r.is_ok() == (v0 & 3 == 0), "[C12,C11] a read guard is given exactly on nodes that are neither locked nor dead");
    let g = match r { Ok(g) => g, Err(e) => { oblige!(!matches!(e, ArtError::Oom), "[C10] a locked node is reported as out of memory"); return; } };
    oblige!(g.as_ref() as *const BaseNode == n as *const BaseNode, "[C12,C15] a guard is for another node");
    set(n, v1);
    let c = g.check_version();
    oblige!(c.is_ok() == (v1 == v0), "[C12,C03] a validation succeeds although the node changed, or fails although it did not");
    oblige!(word(n) == v1, "[C11,C12] a validation changes the version");
    if kani::any() {
        let u = g.unlock();
        oblige!(u.is_ok() == (v1 == v0), "[C12] giving up a guard does not tell whether the node changed");
        oblige!(word(n) == v1, "[C11,C12] giving up a guard changes the version");
        return;
    }
    match up(g) {
        Err(()) => {
            oblige!(v1 != v0, "[C11,C13] an undisturbed node cannot be locked");
            oblige!(word(n) == v1, "[C11,C13] a failed attempt to lock changes the version");
        }
        Ok(mut w) => {
            oblige!(v1 == v0, "[C11,C12,C03] a node is locked although it changed since it was read");
            oblige!(word(n) & 2 == 2, "[C11,C12] an exclusive guard does not lock the node");
            oblige!(BaseNode::read_lock(p).is_err(), "[C11,C12] a locked node can be read");
            let d = kani::any();
            if d {
                dead(&mut w);
                oblige!(word(n) & 3 == 3, "[C11,C12,C08] marking a node dead does not, or releases its lock");
            } else {
                oblige!(word(n) & 1 == 0, "[C11,C12] a locked node is dead");
            }
            drop(w);
            oblige!(word(n) & 2 == 0, "[C11,C13] a lock is still held after its guard is gone");
            oblige!((word(n) & 1 == 1) == d, "[C11,C12,C08] a node is dead exactly when it was marked");
            oblige!(word(n) > v0 + 3 && word(n) <= v0 + 7, "[C11,C12] a version does not advance over a write");
            oblige!(BaseNode::read_lock(p).is_ok() == !d, "[C11,C12] a dead node can be read, or a released one cannot");
        }
    }
    kani::cover!(true);
}

#[kani::proof]
fn untyped() { scenario(|g| g.upgrade().map_err(|_| ()), |w: &mut WriteGuard<'static>| w.mark_obsolete(), kani::any()); }
#[kani::proof]
fn typed() { scenario(|g| g.into_typed::<Node4>().upgrade().map_err(|_| ()), |w: &mut TypedWriteGuard<'static, Node4>| w.mark_obsolete(), kani::any()); }
/// the guards give access to the node they lock
#[kani::proof]
fn access() {
    let p: NonNull<BaseNode> = NonNull::from(Box::leak(Box::new(room(64)))).cast();
    if kani::any() {
        let g = BaseNode::read_lock(p).ok().unwrap().into_typed::<Node4>();
        oblige!(g.as_ref() as *const Node4 as usize == p.as_ptr() as usize, "[C12,C15] a guard is for another node");
        let mut w = g.upgrade().ok().unwrap();
        oblige!(w.as_ref() as *const Node4 as usize == p.as_ptr() as usize && w.as_mut() as *mut Node4 as usize == p.as_ptr() as usize, "[C11,C15] a guard locks another node");
    } else {
        let mut w = BaseNode::read_lock(p).ok().unwrap().upgrade().ok().unwrap();
        oblige!(w.as_ref() as *const BaseNode == p.as_ptr() as *const BaseNode && w.as_mut() as *mut BaseNode == p.as_ptr(), "[C11,C15] a guard locks another node");
    }
}

