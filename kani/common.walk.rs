// Ghost model and contract functions shared by the harnesses.  Included as
// `crate::verif` under cfg(kani).  DESIGN.md, "Abstract nodes", explains the model.
//
// A node of the tree is seen through its contract: the real header (BaseNode) and the
// projection of its child map on two bytes, the next byte of the operated key K and the
// next byte of an arbitrary observer key Q.  Everything off the path of K is opaque: its
// pointers are arbitrary words, so any dereference of them fails a Kani check (the frame).
use crate::base_node::verif::walk::{mk_base, raw_prefix};
use crate::base_node::{BaseNode, NodeType};
use crate::error::{ArtError, OOMError};
use crate::lock::ReadGuard;
use crate::node_4::Node4;
use crate::node_ptr::{NodePtr, PtrType};
use crate::Allocator;
use crossbeam_epoch::Guard;
use std::ptr::NonNull;
use std::sync::atomic::Ordering;

pub(crate) const KL: usize = 8;

/// An obligation that does not hide later ones when it fails.
macro_rules! oblige {
    ($c:expr, $m:literal) => { if !($c) && kani::any() { assert!(false, $m); } };
}
pub(crate) use oblige;

#[repr(C, align(64))]
pub(crate) struct AbsNode {
    pub base: BaseNode,
    pub k: NodePtr,
    pub q: NodePtr,
    pub has_k: bool,
    pub has_q: bool,
    pub k_opaque: bool,
    pub q_opaque: bool,
    /// existed (published) before the operation
    pub pre: bool,
    pub freed: bool,
    pub wrote: bool,
    pub on_path: bool,
    /// something was read from it since the last time its version was validated
    pub unval: bool,
}

pub(crate) static mut K: [u8; KL] = [0; KL];
pub(crate) static mut Q: [u8; KL] = [0; KL];
/// the observer's answer inside the never touched subtree hanging off the path of K
pub(crate) static mut OPAQUE: Option<usize> = None;

pub(crate) fn abs(b: &BaseNode) -> &AbsNode { unsafe { &*(b as *const BaseNode as *const AbsNode) } }
pub(crate) fn abs_mut(b: &mut BaseNode) -> &mut AbsNode { unsafe { &mut *(b as *mut BaseNode as *mut AbsNode) } }
pub(crate) fn kb(l: usize) -> u8 { unsafe { K[l] } }
pub(crate) fn qb(l: usize) -> u8 { unsafe { Q[l] } }
pub(crate) fn any_ptr() -> NodePtr { NodePtr::from_payload(kani::any()) }

impl AbsNode {
    pub fn level(&self) -> usize { raw_prefix(&self.base).0 }
    pub fn lookup(&self, b: u8) -> Option<NodePtr> {
        let l = self.level();
        if b == kb(l) { return if self.has_k { Some(self.k) } else { None }; }
        if b == qb(l) { return if self.has_q { Some(self.q) } else { None }; }
        if kani::any() { Some(any_ptr()) } else { None }
    }
    pub fn version(&self) -> usize { self.base.type_version_lock_obsolete.load(Ordering::Relaxed) }
    pub fn may_write(&mut self) {
        self.wrote = true;
        oblige!(!self.pre || self.version() & 2 == 2, "[C11,C12,C13,C01,C02] a shared node is written without holding its lock");
        oblige!(!self.freed, "[C08,C15] write to a released node");
    }
    pub fn insert(&mut self, b: u8, p: NodePtr) {
        self.may_write();
        let l = self.level();
        if b == kb(l) { oblige!(!self.has_k, "[C01,C06] a byte that is already there is inserted again"); self.has_k = true; self.k = p; self.k_opaque = false; }
        else if b == qb(l) { oblige!(!self.has_q, "[C01,C06] a byte that is already there is inserted again"); self.has_q = true; self.q = p; self.q_opaque = false; }
        self.base.meta.count += 1;
    }
    pub fn change(&mut self, b: u8, p: NodePtr) -> NodePtr {
        self.may_write();
        let l = self.level();
        if b == kb(l) { oblige!(self.has_k, "[C01,C03,C15] an absent byte is changed"); let o = self.k; self.k = p; self.k_opaque = false; return o; }
        if b == qb(l) { oblige!(self.has_q, "[C01,C03,C15] an absent byte is changed"); let o = self.q; self.q = p; self.q_opaque = false; return o; }
        any_ptr()
    }
    pub fn remove(&mut self, b: u8) {
        self.may_write();
        let l = self.level();
        if b == kb(l) { oblige!(self.has_k, "[C02,C15] an absent byte is removed"); self.has_k = false; }
        else if b == qb(l) { oblige!(self.has_q, "[C02,C15] an absent byte is removed"); self.has_q = false; }
        self.base.meta.count -= 1;
    }
}

pub(crate) fn cap(t: NodeType) -> u16 { match t { NodeType::N4 => 4, NodeType::N16 => 16, NodeType::N48 => 48, NodeType::N256 => 256 } }
pub(crate) fn any_type() -> NodeType { match kani::any::<u8>() & 3 { 0 => NodeType::N4, 1 => NodeType::N16, 2 => NodeType::N48, _ => NodeType::N256 } }
pub(crate) fn bigger(t: NodeType) -> NodeType { match t { NodeType::N4 => NodeType::N16, NodeType::N16 => NodeType::N48, _ => NodeType::N256 } }

// ---- ghost allocator and epoch ---------------------------------------------
#[derive(Clone)]
pub(crate) struct GhostAlloc {}
pub(crate) static mut POOL: [*mut AbsNode; 3] = [std::ptr::null_mut(); 3];
pub(crate) static mut NALLOC: usize = 0;
pub(crate) static mut MAY_OOM: bool = false;
pub(crate) static mut OOMED: bool = false;
pub(crate) static mut IN_DEFER: bool = false;
pub(crate) static mut NDEFER: usize = 0;

impl Allocator for GhostAlloc {
    fn allocate(&self, _layout: std::alloc::Layout) -> Result<NonNull<[u8]>, OOMError> {
        unsafe {
            if MAY_OOM && kani::any() { OOMED = true; return Err(OOMError::new()); }
            let i = NALLOC; NALLOC += 1;
            assert!(i < 3, "[C08,C10] more nodes are allocated than an operation needs");
            let p = if i == 0 { POOL[0] } else if i == 1 { POOL[1] } else { POOL[2] };
            Ok(NonNull::new_unchecked(std::ptr::slice_from_raw_parts_mut(p as *mut u8, 64)))
        }
    }
    fn allocate_zeroed(&self, layout: std::alloc::Layout) -> Result<NonNull<[u8]>, OOMError> { self.allocate(layout) }
    unsafe fn deallocate(&self, ptr: NonNull<u8>, layout: std::alloc::Layout) {
        let n = &mut *(ptr.as_ptr() as *mut AbsNode);
        oblige!(!n.freed, "[C08,C15] a node is released twice");
        oblige!(!n.pre || IN_DEFER, "[C08,C12,C15] a published node is released without epoch deferral");
        oblige!(layout == n.base.get_type().node_layout(), "[C08,C15] a node is released with a layout it was not allocated with");
        n.freed = true;
    }
}

pub(crate) fn c_defer<F, R>(_g: &Guard, f: F) where F: FnOnce() -> R, F: Send + 'static {
    unsafe { IN_DEFER = true; NDEFER += 1; }
    f();
    unsafe { IN_DEFER = false; }
}

// ---- concurrent writers ------------------------------------------------------
pub(crate) static mut ENV: bool = false;
/// something interfered with the attempt
pub(crate) static mut DISTURBED: bool = false;

/// A concurrent writer may act on a node at any moment.  The lock contract (lock.rs)
/// reduces that to: the next validation of the node (check_version, unlock, upgrade) or the
/// next attempt to lock it may fail, and nothing read from the node may be used before a
/// validation has succeeded.
pub(crate) fn env_fails() -> bool {
    unsafe {
        if ENV && kani::any() { DISTURBED = true; return true; }
        false
    }
}
/// Everything read so far from the node the walk is at is about to be used.
pub(crate) fn used() {
    unsafe { if DEPTH > 0 { oblige!(!(*CHAIN[DEPTH - 1]).unval, "[C12,C03] something read from a node is used before it is validated"); } }
}

// ---- the arbitrary tree --------------------------------------------------------
/// How the walk of K ends, at position D of its path.
#[derive(Clone, Copy, PartialEq)]
pub(crate) enum End { Mismatch, Absent, Leaf }
pub(crate) static mut D: usize = 0;
pub(crate) static mut END: End = End::Absent;
/// position of the walk: CHAIN[DEPTH-1] is the node it is at
pub(crate) static mut DEPTH: usize = 0;
pub(crate) static mut CHAIN: [*mut AbsNode; 8] = [std::ptr::null_mut(); 8];

pub(crate) struct World { pub n: [*mut AbsNode; 8], pub fresh: [*mut AbsNode; 3], pub p: [u8; 8], pub lv: [usize; 8] }

pub(crate) fn blank() -> AbsNode {
    AbsNode { base: BaseNode::new(NodeType::N4, &[]), k: any_ptr(), q: any_ptr(), has_k: false, has_q: false, k_opaque: false,
        q_opaque: true, pre: false, freed: false, wrote: false, on_path: false, unval: false }
}

pub(crate) fn differs(p: u64, key: u64, from: usize, to: usize) -> bool {
    // bytes from..to (to <= 7) of two big-endian keys differ
    ((p ^ key) & (u64::MAX >> (8 * from)) & !(u64::MAX >> (8 * to))) != 0
}

/// The arbitrary well-formed tree, seen along the path of K: position 0 is the root,
/// position i+1 the child of position i under K's byte.  Levels (= prefix lengths) are
/// symbolic and strictly increasing; node types, counts and the observer's entries too.
pub(crate) fn world_of(n: [*mut AbsNode; 8], fresh: [*mut AbsNode; 3], d: usize, end: End) -> World {
    unsafe {
        K = kani::any(); Q = kani::any(); D = d; END = end; DEPTH = 0;
        OPAQUE = if kani::any() { Some(kani::any()) } else { None };
        POOL = fresh;
    }
    let p: [u8; 8] = kani::any();
    let mut w = World { n, fresh, p, lv: [0; 8] };
    let mut l: usize = 0;
    let mut from = 0;
    let p8 = u64::from_be_bytes(p);
    let k8 = unsafe { u64::from_be_bytes(K) };
    let mut i = 0;
    while i <= d {
        w.lv[i] = l;
        let t = if i == 0 { NodeType::N256 } else { any_type() };
        let hk = if i < d || end == End::Leaf { true } else if end == End::Absent { false } else { kani::any() };
        let hq: bool = kani::any();
        let c: u16 = kani::any();
        let mut lo = if l == 7 { 1 } else { 0 };
        if hk { lo = 1; }
        if kb(l) != qb(l) && hq { lo = if hk { 2 } else { 1 }; }
        kani::assume(c >= lo && c <= cap(t));
        kani::assume(!(t == NodeType::N256 && !hk && c == 256));
        if i < d {
            kani::assume(l < 7);
            kani::assume(!differs(p8, k8, from, l) && p[l] == kb(l));
            unsafe { (*w.n[i]).k = NodePtr::from_node(&(*w.n[i + 1]).base); }
        } else if end == End::Mismatch { kani::assume(differs(p8, k8, from, l)); }
        else {
            kani::assume(!differs(p8, k8, from, l));
            if end == End::Leaf { kani::assume(l == 7); }
        }
        let n = unsafe { &mut *w.n[i] };
        n.base = mk_base(t, p, l, c, 64 + 16 * i);
        n.has_k = hk; n.has_q = hq; n.pre = true; n.k_opaque = i == d && end == End::Mismatch;
        unsafe { CHAIN[i] = n; }
        from = l + 1;
        if i < 7 { let nl: usize = kani::any(); kani::assume(nl <= 7 && nl > l || i == d); l = nl; }
        i += 1;
    }
    w
}
macro_rules! verif_world {
    ($w:ident, $d:expr, $e:expr) => {
        let (mut n0, mut n1, mut n2, mut n3, mut n4, mut n5, mut n6, mut n7) = (blank(), blank(), blank(), blank(), blank(), blank(), blank(), blank());
        let (mut f0, mut f1, mut f2) = (blank(), blank(), blank());
        let $w = world_of([&mut n0, &mut n1, &mut n2, &mut n3, &mut n4, &mut n5, &mut n6, &mut n7], [&mut f0, &mut f1, &mut f2], $d, $e);
    }
}
pub(crate) use verif_world;

/// The value the tree maps `key` (K, or Q when `is_q`) to, before the operation.
pub(crate) fn lookup_before(w: &World, is_q: bool) -> Option<usize> {
    let key = unsafe { if is_q { Q } else { K } };
    let key8 = u64::from_be_bytes(key);
    let p8 = u64::from_be_bytes(w.p);
    let mut r = None;
    let mut alive = true;
    let mut from = 0;
    let mut i = 0;
    while i <= unsafe { D } {
        let l = w.lv[i];
        if alive {
            let n = unsafe { &*w.n[i] };
            let onk = key[l] == kb(l);
            if differs(p8, key8, from, l) { alive = false; }
            else if onk && !n.has_k || !onk && !n.has_q { alive = false; }
            else if l == 7 { r = Some(unsafe { (if onk { n.k } else { n.q }).as_payload_unchecked() }); alive = false; }
            else if !onk || n.k_opaque { r = unsafe { OPAQUE }; alive = false; }
            else { from = l + 1; }
        }
        i += 1;
    }
    r
}

/// The value the tree maps Q to after the operation: a walk over whatever nodes the
/// operation left reachable from the root.  Marks the nodes it visits.
pub(crate) fn lookup_after(w: &World) -> Option<usize> {
    let key = unsafe { Q };
    let key8 = u64::from_be_bytes(key);
    let mut node: *mut AbsNode = w.n[0];
    let mut from = 0;
    let mut step = 0;
    while step < 8 {
        step += 1;
        let nd = unsafe { &mut *node };
        oblige!(!nd.freed, "[C01,C02,C08,C15] a reachable node was released");
        nd.on_path = true;
        let (l, p) = raw_prefix(&nd.base);
        assert!(l >= from && l <= 7, "[C01,C02,C04,C15] a child's prefix does not extend its parent's");
        if differs(u64::from_be_bytes(p), key8, from, l) { return None; }
        oblige!(!differs(u64::from_be_bytes(p), key8, 0, l), "[C01,C04,C09] a node's stored prefix is not its path");
        let onk = key[l] == kb(l);
        if onk && !nd.has_k || !onk && !nd.has_q { return None; }
        let c = if onk { nd.k } else { nd.q };
        if l == 7 { return Some(unsafe { c.as_payload_unchecked() }); }
        if !onk && nd.q_opaque || onk && nd.k_opaque { return unsafe { OPAQUE }; }
        node = c.as_sub().as_ptr() as *mut AbsNode;
        from = l + 1;
    }
    None
}

/// What every attempt must leave behind, whatever it returned.  Call after `lookup_after`.
pub(crate) fn check_frame(w: &World, ok: bool) {
    let mut i = 0;
    while i <= unsafe { D } {
        let n = unsafe { &*w.n[i] };
        oblige!(!ok || !n.unval, "[C12,C01,C03] a result rests on something that was read from a node and not validated");
        let v0 = 64 + 16 * i;
        let v = n.version();
        oblige!(v & 2 == 0 || n.freed, "[C11,C13,C10] a lock is still held");
        oblige!((v & 1 == 1) == n.freed, "[C11,C08,C12] a node is marked dead exactly when it is released");
        oblige!(!n.wrote || v > v0 + 3, "[C11,C12] a node was modified and its version did not advance");
        let (l, p) = raw_prefix(&n.base);
        oblige!(l == w.lv[i] && p == w.p, "[C01,C12,C04] the prefix of a published node changed");
        i += 1;
    }
    if unsafe { K == Q } {
        let mut i = 0;
        while i < 3 {
            let n = unsafe { &*w.fresh[i] };
            if i < unsafe { NALLOC } {
                oblige!(n.freed || n.on_path, "[C08,C10,C13] an allocated node is neither reachable nor given back");
                oblige!(n.freed || n.version() & 3 == 0, "[C11] a new node is published locked or dead");
            }
            i += 1;
        }
    }
}

// ---- contracts standing for the node operations ---------------------------------
pub(crate) fn c_get_child(b: &BaseNode, key: u8) -> Option<NodePtr> {
    unsafe {
        // the walk is at position DEPTH-1 (see `at`); the case split fixes what is there
        let n = CHAIN[DEPTH - 1];
        assert!(abs(b) as *const AbsNode == n as *const AbsNode && key == kb((*n).level()), "[C01,C02,C03,C12] a byte other than the key's next one is looked up");
        (*n).unval = true;
        if DEPTH <= D || END == End::Leaf { assert!((*n).has_k); Some((*n).k) } else { assert!(!(*n).has_k); None }
    }
}
pub(crate) fn c_change(b: &mut BaseNode, key: u8, p: NodePtr) -> NodePtr { abs_mut(b).change(key, p) }
pub(crate) fn c_remove(b: &mut BaseNode, key: u8) { abs_mut(b).remove(key) }
pub(crate) fn c_insert4(n: &mut Node4, key: u8, p: NodePtr) { unsafe { &mut *(n as *mut Node4 as *mut AbsNode) }.insert(key, p) }

impl NodePtr {
    pub(crate) fn c_downcast<const K_LEN: usize>(&self, current_level: usize) -> PtrType {
        unsafe {
            if DEPTH <= D { assert!(current_level < 7, "[C15] the level of the walk is not the node's"); return PtrType::SubNode(self.as_sub()); }
            if END == End::Leaf { assert!(current_level == 7, "[C15] the level of the walk is not the node's"); return PtrType::Payload(self.as_payload_unchecked()); }
        }
        if current_level == K_LEN - 1 { PtrType::Payload(unsafe { self.as_payload_unchecked() }) } else { PtrType::SubNode(self.as_sub()) }
    }
}

// ---- lock acquisition: the real code, at the position the walk must be at --------
pub(crate) fn at(node: *const AbsNode) -> NonNull<BaseNode> {
    unsafe {
        if DEPTH > D { assert!(false, "[C01,C02,C03,C12] the walk leaves the path of the key"); kani::assume(false); }
        used();
        let e = CHAIN[DEPTH];
        DEPTH += 1;
        assert!(e as *const AbsNode == node, "[C01,C02,C03,C12,C15] the walk does not follow the path of the key");
        NonNull::new_unchecked(e as *mut BaseNode)
    }
}
pub(crate) fn c_read_lock<'a>(node: NonNull<BaseNode>) -> Result<ReadGuard<'a>, ArtError> {
    let n = at(node.as_ptr() as *const AbsNode);
    if env_fails() { return Err(ArtError::Locked); }
    crate::base_node::verif::walk::real_read_lock(n)
}
pub(crate) static mut ATTEMPTS: usize = 0;
pub(crate) static mut MAX_ATTEMPTS: usize = 1;
pub(crate) fn c_read_lock_root<'a>(node: NonNull<crate::node_256::Node256>) -> Result<ReadGuard<'a>, ArtError> {
    unsafe {
        if ATTEMPTS > 0 {
            oblige!(DISTURBED, "[C01,C02,C03,C13] an undisturbed attempt is retried");
            if ATTEMPTS >= MAX_ATTEMPTS { kani::assume(false); }
            // a later attempt starts over on nodes left alone
            ENV = false;
            let mut i = 0;
            while i <= D { (*CHAIN[i]).unval = false; i += 1; }
        }
        ATTEMPTS += 1;
        DEPTH = 0;
    }
    let n = at(node.as_ptr() as *const AbsNode);
    if env_fails() { return Err(ArtError::Locked); }
    crate::base_node::verif::walk::real_read_lock(n)
}

// ---- prefix contracts --------------------------------------------------------------
/// first position i in level..len with prefix[i] != key[i], or len
pub(crate) fn mismatch_at(p: &[u8; 8], l: usize, key: &[u8; 8], level: usize) -> usize {
    let mut r = l;
    let mut i = 7;
    while i > 0 { i -= 1; if i >= level && i < l && p[i] != key[i] { r = i; } }
    r
}
fn c_prefix(n: &BaseNode, key: &[u8; 8], level: usize) -> (usize, Option<u8>) {
    let (l, p) = raw_prefix(n);
    assert!(level <= l, "[C15] the walk is below the node's prefix");
    let m = mismatch_at(&p, l, key, level);
    if unsafe { DEPTH <= D || END != End::Mismatch } { assert!(m == l); return (l, None); }
    assert!(m != l);
    (m, Some(p[m]))
}
fn key8<const K_LEN: usize>(k: &[u8; K_LEN]) -> &[u8; 8] { unsafe { &*(k as *const [u8; K_LEN] as *const [u8; 8]) } }
impl<const K_LEN: usize, A: Allocator + Clone + Send> crate::tree::RawCongee<K_LEN, A> {
    pub(crate) fn c_check_prefix(node: &BaseNode, key: &[u8; K_LEN], level: usize) -> Option<usize> {
        match c_prefix(node, key8(key), level) { (l, None) => Some(l), _ => None }
    }
    pub(crate) fn c_check_prefix_not_match(&self, n: &BaseNode, key: &[u8; K_LEN], level: &mut usize) -> Option<u8> {
        let (l, r) = c_prefix(n, key8(key), *level);
        *level = l;
        r
    }
}

/// Contract of inserting into a node that may have to grow (proved in base_node.rs).
pub(crate) fn c_insert_and_unlock<'a, A: Allocator + Send + Clone + 'static>(
    node: ReadGuard<'a>, parent: (u8, Option<ReadGuard>), val: (u8, NodePtr), allocator: &'a A, guard: &Guard,
) -> Result<(), ArtError> {
    let t = node.as_ref().get_type();
    let full = t != NodeType::N256 && node.as_ref().meta.count == cap(t);
    if !full {
        if let Some(p) = parent.1 { p.unlock()?; }
        let mut n = node.upgrade().map_err(|v| v.1)?;
        abs_mut(n.as_mut()).insert(val.0, val.1);
        return Ok(());
    }
    assert!(parent.1.is_some(), "[C01,C06,C15] a full node is inserted into without its parent");
    let p = parent.1.unwrap();
    match abs(p.as_ref()).lookup(parent.0) {
        None => assert!(false, "[C01,C06] the parent does not hold the node under the given byte"),
        Some(c) => assert!(c.as_sub().as_ptr() as *const BaseNode == node.as_ref() as *const BaseNode, "[C01,C06] the parent does not hold the node under the given byte"),
    }
    let mut p = p.upgrade().map_err(|v| v.1)?;
    let mut n = node.upgrade().map_err(|v| v.1)?;
    let mem = allocator.allocate_zeroed(bigger(t).node_layout()).map_err(|_| ArtError::Oom)?;
    let f = unsafe { &mut *(mem.as_ptr() as *mut AbsNode) };
    let o = abs(n.as_ref());
    let (l, pre) = raw_prefix(&o.base);
    f.base = mk_base(bigger(t), pre, l, o.base.meta.count, 0);
    f.k = o.k; f.q = o.q; f.has_k = o.has_k; f.has_q = o.has_q; f.q_opaque = o.q_opaque; f.k_opaque = o.k_opaque;
    f.insert(val.0, val.1);
    abs_mut(p.as_mut()).change(parent.0, NodePtr::from_node(&f.base));
    n.mark_obsolete();
    let ptr = n.as_mut() as *mut BaseNode as usize;
    drop(n);
    let allocator = allocator.clone();
    guard.defer(move || unsafe { BaseNode::drop_node(NonNull::new_unchecked(ptr as *mut BaseNode), allocator); });
    Ok(())
}
pub(crate) fn c_value_count(n: &BaseNode) -> usize {
    unsafe { (*(n as *const BaseNode as *mut AbsNode)).unval = true; }
    n.meta.count as usize
}
