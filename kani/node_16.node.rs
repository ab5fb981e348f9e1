use crate::base_node::verif::node::any_base;
use crate::verif::node::{any_children, header, node_contracts, oblige, oval, val, Rec, KEYS, CHILDREN, LEN};
fn mk() -> Node16 {
    let n = torn_node();
    let c = n.base.meta.count as usize;
    let mut i = 0;
    while i < 15 { kani::assume(i + 1 >= c || n.keys[i] < n.keys[i + 1]); i += 1; }
    n
}
fn torn_node() -> Node16 { Node16 { base: any_base(NodeType::N16, 16), keys: kani::any(), children: any_children() } }
fn at(n: &Node16, b: u8) -> usize {
    let mut r = 16;
    let mut i = 0;
    while i < 16 { if i < n.base.meta.count as usize && n.keys[i] == b { r = i; } i += 1; }
    r
}
fn spec(n: &Node16, b: u8) -> Option<usize> {
    let i = at(n, b);
    if i < 16 { Some(val(n.children[i])) } else { None }
}
fn check(n: &Node16) {
    let c = n.base.meta.count as usize;
    oblige!(c <= 16, "[C06,C15] a node holds more children than fit");
    let i: usize = kani::any();
    kani::assume(i < 15);
    oblige!(i + 1 >= c || n.keys[i] < n.keys[i + 1], "[C01,C04,C06] the keys of a node are not in strictly ascending order");
}
fn present(n: &Node16, k: u8) { kani::assume(spec(n, k).is_some()); }
fn absent(n: &Node16, k: u8) { kani::assume(spec(n, k).is_none()); }
fn watched(_n: &Node16, _b: u8) {}
node_contracts!(Node16, 16, mk, spec, check, present, absent, watched, 18);

/// The interval the iteration covers, and one step of it from any state.
#[kani::proof] #[kani::unwind(18)]
fn next() {
    let n = mk();
    let (start, end, b): (u8, u8, u8) = kani::any();
    let mut it = match n.base().get_children(start, end) { NodeIter::N16(it) => it, _ => unreachable!() };
    let i = at(&n, b);
    if i < 16 && b >= start && b <= end {
        oblige!(it.start_pos <= i && i <= it.end_pos, "[C04,C09,C14] an iteration over a node leaves out a child");
    }
    oblige!(it.start_pos > it.end_pos || it.end_pos < n.base.meta.count as usize, "[C04,C09,C14,C15] an iteration runs past the children");
    let from: usize = kani::any();
    kani::assume(from >= it.start_pos && from <= 16);
    it.start_pos = from;
    match it.next() {
        None => oblige!(from > it.end_pos, "[C04,C09,C14] an iteration over a node ends early"),
        Some((k, c)) => oblige!(from <= it.end_pos && it.start_pos == from + 1 && n.keys[from] == k && val(n.children[from]) == val(c), "[C04,C09,C14] an iteration reports something that is not there"),
    }
}

/// A removal by another thread between the reads of an iteration being set up.
static mut NODE: *mut Node16 = std::ptr::null_mut();
impl Node16 {
    fn r_get_child_pos(&self, _key: u8) -> Option<usize> {
        unsafe {
            (*NODE).base.meta.count = kani::any();
            kani::assume((*NODE).base.meta.count <= 16);
        }
        if kani::any() { let p: usize = kani::any(); kani::assume(p < 16); Some(p) } else { None }
    }
}
#[kani::proof] #[kani::stub(Node16::get_child_pos, Node16::r_get_child_pos)] #[kani::unwind(18)]
fn raced() {
    let mut n = torn_node();
    unsafe { NODE = &mut n; }
    let mut it = n.base().get_children(kani::any(), kani::any());
    let _ = it.next();
}
