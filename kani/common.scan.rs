// The tree as a traversal sees it: the nodes on the path of one arbitrary key Q, and
// optionally a second, smaller key P that leaves this path at node S and ends in a leaf node of
// its own.  Key bytes, values and bounds are symbolic, the levels of the nodes are those of the
// harness.  An iteration over a node yields the children that lie on these two paths, through
// the contract of the node iterators (proved in node_*.rs).  DESIGN.md, "Traversals", says why
// the other children may be left out.
use crate::base_node::BaseNode;
use crate::base_node::NodeIter;
use crate::error::ArtError;
use crate::lock::ReadGuard;
use crate::node_4::verif::scan::{mk, range, iter};
use crate::node_4::Node4;
use crate::node_ptr::NodePtr;
use std::ptr::NonNull;

macro_rules! oblige {
    ($c:expr, $m:literal) => { if !($c) && kani::any() { assert!(false, $m); } };
}
pub(crate) use oblige;

#[repr(C)]
pub(crate) struct SNode { pub n4: Node4 }
pub(crate) static mut ENV: bool = false;
pub(crate) static mut DISTURBED: bool = false;
/// positions 0..=D: the path of Q; 8: the leaf of P; NONE: no node
pub(crate) static mut NODES: [*mut SNode; 9] = [std::ptr::null_mut(); 9];
pub(crate) static mut D: usize = 0;
/// where P leaves, or 9 when there is no P
pub(crate) static mut S: usize = 9;
pub(crate) static mut UNVAL: [bool; 9] = [false; 9];
pub(crate) static mut FREED: [bool; 9] = [false; 9];
/// [P, Q]
pub(crate) static mut KEYS: [[u8; 8]; 2] = [[0; 8]; 2];
pub(crate) static mut VALS: [usize; 2] = [0; 2];
pub(crate) static mut LV: [usize; 9] = [0, 7, 7, 7, 7, 7, 7, 7, 7];

pub(crate) fn disturbed() -> bool { unsafe { if ENV && kani::any() { DISTURBED = true; return true; } false } }
pub(crate) fn pos(n: *const SNode) -> usize {
    unsafe {
        if n == NODES[0] as *const SNode { return 0; }
        if n == NODES[1] as *const SNode { return 1; }
        if D >= 2 && n == NODES[2] as *const SNode { return 2; }
        if D >= 3 && n == NODES[3] as *const SNode { return 3; }
        if D >= 4 && n == NODES[4] as *const SNode { return 4; }
        if D >= 5 && n == NODES[5] as *const SNode { return 5; }
        if D >= 6 && n == NODES[6] as *const SNode { return 6; }
        if D >= 7 && n == NODES[7] as *const SNode { return 7; }
        if S < D && n == NODES[8] as *const SNode { return 8; }
        assert!(false, "[C04,C09,C15] something that is no node is visited");
        kani::assume(false);
        0
    }
}
pub(crate) fn sblank() -> SNode { SNode { n4: mk([0; 8], 0) } }
fn node(i: usize) -> NodePtr { unsafe { NodePtr::from_node(&*(NODES[i] as *const BaseNode)) } }
pub(crate) fn num(b: &[u8; 8]) -> u64 { u64::from_be_bytes(*b) }

pub(crate) fn setup(n: [*mut SNode; 9], levels: &[usize], s: usize) {
    unsafe {
        NODES = n;
        D = levels.len() - 1;
        S = s;
        KEYS = kani::any();
        VALS = kani::any();
        let mut i = 0;
        while i <= D { LV[i] = levels[i]; (*n[i]).n4 = mk(KEYS[1], levels[i]); i += 1; }
        if s <= D {
            // the keys agree up to the level of node S, where P has the smaller byte
            let mut i = 0;
            while i < levels[s] { KEYS[0][i] = KEYS[1][i]; i += 1; }
            kani::assume(KEYS[0][levels[s]] < KEYS[1][levels[s]]);
            (*n[8]).n4 = mk(KEYS[0], 7);
        }
    }
}
macro_rules! snodes {
    ($levels:expr, $s:expr) => {
        let (mut a0, mut a1, mut a2, mut a3, mut a4, mut a5, mut a6, mut a7, mut a8) = (sblank(), sblank(), sblank(), sblank(), sblank(), sblank(), sblank(), sblank(), sblank());
        setup([&mut a0, &mut a1, &mut a2, &mut a3, &mut a4, &mut a5, &mut a6, &mut a7, &mut a8], $levels, $s);
    };
}
pub(crate) use snodes;

// ---- contracts of the lock, of a lookup and of an iteration --------------------------------
pub(crate) fn validated(i: usize) { unsafe { oblige!(!UNVAL[i], "[C12,C04] something read from a node is used before it is validated"); } }
/// the node whose child node i is
pub(crate) fn parent(i: usize) -> usize { if i == 8 { unsafe { S } } else { i - 1 } }
pub(crate) fn s_read_lock<'a>(node: NonNull<BaseNode>) -> Result<ReadGuard<'a>, ArtError> {
    let i = pos(node.as_ptr() as *const SNode);
    oblige!(!unsafe { FREED[i] }, "[C08,C09,C15] a released node is visited");
    if i > 0 { validated(parent(i)); }
    if disturbed() { return Err(ArtError::Locked); }
    Ok(ReadGuard::new(64, unsafe { NonNull::new_unchecked(NODES[i] as *mut BaseNode) }))
}
pub(crate) fn s_read_lock_root<'a>(node: NonNull<crate::node_256::Node256>) -> Result<ReadGuard<'a>, ArtError> {
    unsafe { UNVAL = [false; 9]; LED_TO = 0; }
    s_read_lock(node.cast())
}
/// the node the traversal was led to last, 9 for a value of P, 10 for one of Q
pub(crate) static mut LED_TO: usize = 0;
fn child(i: usize, q: bool) -> NodePtr {
    unsafe {
        UNVAL[i] = true;
        LED_TO = if LV[i] == 7 { if q { 10 } else { 9 } } else if q { i + 1 } else { 8 };
        if LV[i] == 7 { return NodePtr::from_payload(if q { VALS[1] } else { VALS[0] }); }
        if q { node(i + 1) } else { node(8) }
    }
}
pub(crate) fn s_get_child(b: &BaseNode, key: u8) -> Option<NodePtr> {
    unsafe {
        let i = pos(b as *const BaseNode as *const SNode);
        let l = LV[i];
        UNVAL[i] = true;
        // P is looked up like any other key: as Q
        if i != 8 { let c = child(i, true); if key == KEYS[1][l] { return Some(c); } }
        if i == 8 || i == S { kani::assume(key != KEYS[0][l]); }
        None
    }
}
pub(crate) fn s_get_children(b: &BaseNode, start: u8, end: u8) -> NodeIter<'_> {
    assert!(pos(b as *const BaseNode as *const SNode) < 9);
    iter(unsafe { &*(b as *const BaseNode as *const Node4) }, start, end)
}
/// One step: the next child in ascending order that lies in the interval and on a path.
pub(crate) fn s_next<'a>(it: &mut NodeIter<'a>) -> Option<(u8, NodePtr)> where 'a: 'a {
    match it {
        NodeIter::N4(it) => unsafe {
            let (n, start, end, idx) = range(it);
            let i = pos(n as *const SNode);
            let l = LV[i];
            let step = *idx;
            *idx += 1;
            let q = i != 8 && step == if i == S { 1 } else { 0 };
            UNVAL[i] = true;
            if !q && !(step == 0 && (i == 8 || i == S)) { return None; }
            let c = child(i, q);
            let b = if q { KEYS[1][l] } else { KEYS[0][l] };
            // a node may report children outside the interval asked for, too
            let reported = b >= start && b <= end || kani::any();
            // a P that is not reported might as well not be there
            if i == S && !q { kani::assume(reported); }
            if reported { return Some((b, c)); }
            None
        },
        _ => unreachable!(),
    }
}

// ---- contracts of the prefix comparisons (proved in range_scan.rs and utils.rs) ---------------
/// the bytes on the path to node i
pub(crate) fn path(i: usize) -> [u8; 8] { unsafe { if i == 8 { KEYS[0] } else { KEYS[1] } } }
pub(crate) fn level(i: usize) -> usize { unsafe { LV[i] } }

impl NodePtr {
    /// the real pointer is the one the traversal was led to last; a constant for the verifier
    pub(crate) fn s_downcast<const K_LEN: usize>(&self, current_level: usize) -> crate::node_ptr::PtrType {
        use crate::node_ptr::PtrType;
        unsafe {
            let w = self.as_payload_unchecked();
            if LED_TO >= 9 {
                assert!(current_level == K_LEN - 1, "[C04,C15] a value is taken for a node");
                assert!(w == VALS[LED_TO - 9], "[MODEL] another value than the last one led to is followed");
                return PtrType::Payload(VALS[LED_TO - 9]);
            }
            assert!(current_level < K_LEN - 1, "[C04,C15] a node is taken for a value");
            assert!(self.as_sub_node().as_ptr() as *const SNode == NODES[LED_TO] as *const SNode, "[MODEL] another node than the last one led to is followed");
            PtrType::SubNode(NonNull::new_unchecked(NODES[LED_TO] as *mut BaseNode))
        }
    }
}
