use crate::base_node::verif::node::any_base;
use crate::verif::node::{any_children, header, oblige, oval, val, tokens, Each};
fn mk() -> Node256 { Node256 { base: any_base(NodeType::N256, 256), key_mask: kani::any(), children: any_children() } }
fn bit(n: &Node256, b: u8) -> bool { n.key_mask[b as usize / 8] & (1 << (b % 8)) != 0 }
fn spec(n: &Node256, b: u8) -> Option<usize> { if bit(n, b) { Some(val(n.children[b as usize])) } else { None } }

#[kani::proof]
fn get() {
    let n = mk();
    let k: u8 = kani::any();
    let r = n.base().get_child(k);
    oblige!(oval(r) == spec(&n, k), "[C01,C02,C03,C06,C12,C15] a node's lookup disagrees with its contents");
}
#[kani::proof]
fn full() { let n = mk(); oblige!(!n.is_full(), "[C01,C06,C15] a node misjudges whether it is full"); }
#[kani::proof]
fn insert() {
    let mut n = mk();
    let (k, b, p): (u8, u8, usize) = kani::any();
    // a node with an absent byte has at most 255 children
    kani::assume(spec(&n, k).is_none() && n.base.meta.count < 256);
    let (h, c, old) = (header(n.base()), n.base.meta.count, spec(&n, b));
    n.insert(k, NodePtr::from_payload(p));
    oblige!(spec(&n, b) == if b == k { Some(p) } else { old }, "[C01,C03,C06,C10] after an insertion a byte does not map to what it should");
    oblige!(n.base.meta.count == c + 1, "[C01,C02,C06,C14] the count of a node is wrong after an insertion");
    oblige!(header(n.base()) == h, "[C01,C11,C15] an insertion touches the header");
}
#[kani::proof]
fn remove() {
    let mut n = mk();
    let (k, b): (u8, u8) = kani::any();
    kani::assume(spec(&n, k).is_some() && n.base.meta.count >= 1);
    let (h, c, old) = (header(n.base()), n.base.meta.count, spec(&n, b));
    let base = unsafe { &mut *(&mut n as *mut Node256 as *mut BaseNode) };
    base.remove(k);
    oblige!(spec(&n, b) == if b == k { None } else { old }, "[C02,C03,C06,C08] after a removal a byte does not map to what it should");
    oblige!(n.base.meta.count == c - 1, "[C02,C06,C08,C14] the count of a node is wrong after a removal");
    oblige!(header(n.base()) == h, "[C02,C11,C15] a removal touches the header");
}
#[kani::proof]
fn change() {
    let mut n = mk();
    let (k, b, p): (u8, u8, usize) = kani::any();
    kani::assume(spec(&n, k).is_some());
    let (h, c, old, oldk) = (header(n.base()), n.base.meta.count, spec(&n, b), spec(&n, k));
    let base = unsafe { &mut *(&mut n as *mut Node256 as *mut BaseNode) };
    let r = base.change(k, NodePtr::from_payload(p));
    oblige!(Some(val(r)) == oldk, "[C03,C15] replacing a child does not return the old one");
    oblige!(spec(&n, b) == if b == k { Some(p) } else { old }, "[C01,C03,C06] after replacing a child a byte does not map to what it should");
    oblige!(n.base.meta.count == c, "[C02,C14] replacing a child changes the count");
    oblige!(header(n.base()) == h, "[C01,C11,C15] replacing a child touches the header");
}
#[kani::proof] #[kani::unwind(257)]
fn copy_to() {
    let n = mk();
    let b: u8 = kani::any();
    let of = |k: u8| spec(&n, k);
    let mut d = Each { of, seen: [false; 256] };
    n.copy_to(&mut d);
    oblige!(d.seen[b as usize] == spec(&n, b).is_some(), "[C01,C06,C08] copying a node loses, invents or changes a child");
}
/// One step of the iteration from the state at byte `from`, on any contents.
fn step(n: &Node256, from: u16, start: u8, end: u8, b: u8, it: &mut Node256Iter) {
    let due = b as u16 >= from && b <= end && spec(n, b).is_some();
    match it.next() {
        None => oblige!(!due, "[C04,C09,C14] an iteration over a node ends early"),
        Some((k, c)) => {
            oblige!(k as u16 >= from && k <= end && it.idx + start as u16 == k as u16 + 1 && spec(n, k) == Some(val(c)), "[C04,C09,C14] an iteration reports something that is not there");
            oblige!(!due || b >= k, "[C04,C09,C14] an iteration skips a child");
        }
    }
}
fn fresh(n: &Node256, start: u8, end: u8) -> Node256Iter<'_> {
    let it = match n.base().get_children(start, end) { NodeIter::N256(it) => it, _ => unreachable!() };
    oblige!(it.start == start && it.end == end && it.idx == 0, "[C04,C09,C14] an iteration over a node does not cover the interval asked for");
    it
}
/// from any state, up to the next child at most 16 bytes further on, or the end
#[kani::proof] #[kani::unwind(19)]
fn next() {
    let n = Node256 { base: any_base(NodeType::N256, 256), key_mask: kani::any(), children: tokens() };
    let (start, end, b): (u8, u8, u8) = kani::any();
    let mut it = fresh(&n, start, end);
    let from: u16 = kani::any();
    kani::assume(from >= start as u16 && from <= 256);
    it.idx = from - start as u16;
    let gap: u16 = kani::any();
    kani::assume(gap <= 16);
    let stop = from + gap;
    kani::assume(stop > end as u16 || bit(&n, stop as u8));
    step(&n, from, start, end, b, &mut it);
}
/// from the first byte, however far the next child is
#[kani::proof] #[kani::unwind(258)]
fn first() {
    let mut n = mk();
    n.children = tokens();
    let (end, b): (u8, u8) = kani::any();
    let mut it = fresh(&n, 0, end);
    step(&n, 0, 0, end, b, &mut it);
}
