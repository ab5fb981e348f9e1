use crate::base_node::verif::node::any_base;
use crate::verif::node::{any_children, header, node_contracts, oblige, oval, val, Rec, KEYS, CHILDREN, LEN};
fn mk() -> Node4 {
    let n = torn_node();
    let c = n.base.meta.count as usize;
    let mut i = 0;
    while i < 3 { kani::assume(i + 1 >= c || n.keys[i] < n.keys[i + 1]); i += 1; }
    n
}
fn torn_node() -> Node4 { Node4 { base: any_base(NodeType::N4, 4), keys: kani::any(), children: any_children() } }
fn spec(n: &Node4, b: u8) -> Option<usize> {
    let mut r = None;
    let mut i = 0;
    while i < 4 { if i < n.base.meta.count as usize && n.keys[i] == b { r = Some(val(n.children[i])); } i += 1; }
    r
}
fn check(n: &Node4) {
    let c = n.base.meta.count as usize;
    oblige!(c <= 4, "[C06,C15] a node holds more children than fit");
    let i: usize = kani::any();
    kani::assume(i < 3);
    oblige!(i + 1 >= c || n.keys[i] < n.keys[i + 1], "[C01,C04,C06] the keys of a node are not in strictly ascending order");
}
fn present(n: &Node4, k: u8) { kani::assume(spec(n, k).is_some()); }
fn absent(n: &Node4, k: u8) { kani::assume(spec(n, k).is_none()); }
fn watched(_n: &Node4, _b: u8) {}
node_contracts!(Node4, 4, mk, spec, check, present, absent, watched, 18);

/// One step of the iteration, from any state it can be in.
#[kani::proof] #[kani::unwind(6)]
fn next() {
    let n = mk();
    let (start, end, b): (u8, u8, u8) = kani::any();
    let mut it = match n.base().get_children(start, end) { NodeIter::N4(it) => it, _ => unreachable!() };
    oblige!(it.idx == 0, "[C04,C09,C14] an iteration does not start at the first child");
    let from: u8 = kani::any();
    kani::assume(from <= it.cnt);
    it.idx = from;
    let r = it.next();
    step(&n, from, it.idx, start, end, b, r);
}
fn step(n: &Node4, from: u8, to: u8, start: u8, end: u8, b: u8, r: Option<(u8, NodePtr)>) {
    // positions of the entries at or after `from`
    let mut pos = 4;
    let mut i = 0;
    while i < 4 { if i < n.base.meta.count as usize && n.keys[i] == b { pos = i; } i += 1; }
    let due = pos < 4 && pos >= from as usize && b >= start && b <= end;
    match r {
        None => oblige!(!due, "[C04,C09,C14] an iteration over a node ends early"),
        Some((k, c)) => {
            oblige!(to > from && spec(n, k) == Some(val(c)) && n.keys[to as usize - 1] == k, "[C04,C09,C14] an iteration reports something that is not there");
            oblige!(!due || pos >= to as usize || b == k, "[C04,C09,C14] an iteration skips a child");
        }
    }
}
