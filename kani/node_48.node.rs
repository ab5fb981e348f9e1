use crate::base_node::verif::node::any_base;
use crate::verif::node::{any_children, header, node_contracts, oblige, oval, val, tokens, Each};

// Ghost witness of the invariant: RANK[s] is the position of slot s in the free list, or FULL
// when the slot is taken, by the byte OWNER[s].  The invariant is assumed at the bytes and
// slots an operation touches and asserted at an arbitrary one, for the updated witness.
const FULL: u8 = 255;
static mut RANK: [u8; 48] = [0; 48];
static mut OWNER: [u8; 48] = [0; 48];

fn inv_byte(n: &Node48, b: u8) -> bool {
    let s = n.child_idx[b as usize];
    s == EMPTY_MARKER || s < 48 && unsafe { RANK[s as usize] == FULL && OWNER[s as usize] == b }
}
fn inv_slot(n: &Node48, s: usize) -> bool {
    let m = 48 - n.base.meta.count as usize;
    unsafe {
        if RANK[s] == FULL { return n.child_idx[OWNER[s] as usize] as usize == s; }
        let r = RANK[s] as usize;
        if r >= m { return false; }
        let p = val(n.children[s]);
        if r + 1 == m { p == 48 } else { p < 48 && RANK[p] as usize == r + 1 }
    }
}
fn inv_head(n: &Node48) -> bool {
    if n.base.meta.count == 48 { n.next_empty == 48 } else { n.next_empty < 48 && unsafe { RANK[n.next_empty as usize] == 0 } }
}
fn inv_pair(s: usize, t: usize) -> bool { unsafe { s == t || RANK[s] == FULL || RANK[s] != RANK[t] } }

fn torn_node() -> Node48 {
    let n = Node48 { base: any_base(NodeType::N48, 48), child_idx: kani::any(), next_empty: kani::any(), children: any_children() };
    // no writer ever stores a slot number out of range
    let mut i = 0;
    while i < 256 { kani::assume(n.child_idx[i] <= 48); i += 1; }
    n
}
fn mk() -> Node48 {
    let n = Node48 { base: any_base(NodeType::N48, 48), child_idx: kani::any(), next_empty: kani::any(), children: any_children() };
    unsafe { RANK = kani::any(); OWNER = kani::any(); }
    kani::assume(inv_head(&n));
    if n.next_empty < 48 {
        let h = n.next_empty as usize;
        kani::assume(inv_slot(&n, h));
        let nx = val(n.children[h]);
        if nx < 48 { kani::assume(inv_slot(&n, nx) && inv_pair(h, nx)); }
    }
    n
}
fn watched(n: &Node48, b: u8) { kani::assume(inv_byte(n, b)); let s = n.child_idx[b as usize] as usize; if s < 48 { kani::assume(inv_slot(n, s)); } }
fn spec(n: &Node48, b: u8) -> Option<usize> {
    let s = n.child_idx[b as usize];
    if s == EMPTY_MARKER { None } else { Some(val(n.children[s as usize])) }
}
fn present(n: &Node48, k: u8) { watched(n, k); kani::assume(spec(n, k).is_some() && n.base.meta.count >= 1); }
fn absent(n: &Node48, k: u8) { watched(n, k); kani::assume(spec(n, k).is_none()); }

#[kani::proof]
fn get() {
    let n = mk();
    let k: u8 = kani::any();
    watched(&n, k);
    let r = n.base().get_child(k);
    oblige!(oval(r) == spec(&n, k), "[C01,C02,C03,C06,C12,C15] a node's lookup disagrees with its contents");
}
#[kani::proof]
fn full() {
    let n = mk();
    oblige!(n.is_full() == (n.base.meta.count == 48), "[C01,C06,C15] a node misjudges whether it is full");
}
/// the invariant at an arbitrary byte, slot and pair of slots
fn check(n: &Node48, b: u8, s: usize, t: usize) {
    oblige!(n.base.meta.count <= 48, "[C06,C15] a node holds more children than fit");
    oblige!(inv_head(n), "[C06,C01,C15] the free list of a node does not start at a free slot");
    oblige!(inv_byte(n, b), "[C06,C01,C15] two children share a slot, or a child sits in a free one");
    oblige!(inv_slot(n, s), "[C06,C01,C15] the free list of a node is broken");
    oblige!(inv_pair(s, t), "[C06,C01,C15] the free list of a node repeats a slot");
}
fn any_points(n: &Node48) -> (u8, usize, usize) {
    let (b, s, t): (u8, usize, usize) = kani::any();
    kani::assume(s < 48 && t < 48);
    watched(n, b);
    kani::assume(inv_slot(n, s) && inv_slot(n, t) && inv_pair(s, t));
    unsafe { if RANK[s] != FULL { let nx = val(n.children[s]); if nx < 48 { kani::assume(inv_slot(n, nx)); } } else { kani::assume(inv_byte(n, OWNER[s])); } }
    if n.next_empty < 48 { kani::assume(inv_pair(s, n.next_empty as usize) && inv_pair(t, n.next_empty as usize)); }
    (b, s, t)
}
#[kani::proof]
fn insert() {
    let mut n = mk();
    let (k, p): (u8, usize) = kani::any();
    kani::assume(n.base.meta.count < 48);
    absent(&n, k);
    let (b, s, t) = any_points(&n);
    let (h, c, old) = (header(n.base()), n.base.meta.count, spec(&n, b));
    let pos = n.next_empty as usize;
    n.insert(k, NodePtr::from_payload(p));
    oblige!(spec(&n, b) == if b == k { Some(p) } else { old }, "[C01,C03,C06,C10] after an insertion a byte does not map to what it should");
    oblige!(n.base.meta.count == c + 1, "[C01,C02,C06,C14] the count of a node is wrong after an insertion");
    oblige!(header(n.base()) == h, "[C01,C11,C15] an insertion touches the header");
    // the new witness: the head of the list is taken by k, the others move up
    unsafe {
        let mut i = 0;
        while i < 48 { if RANK[i] != FULL { RANK[i] = RANK[i].wrapping_sub(1); } i += 1; }
        RANK[pos] = FULL;
        OWNER[pos] = k;
    }
    check(&n, b, s, t);
    check(&n, k, pos, s);
}
#[kani::proof]
fn remove() {
    let mut n = mk();
    let k: u8 = kani::any();
    present(&n, k);
    let (b, s, t) = any_points(&n);
    let pos = n.child_idx[k as usize] as usize;
    kani::assume(inv_slot(&n, pos));
    let (h, c, old) = (header(n.base()), n.base.meta.count, spec(&n, b));
    let base = unsafe { &mut *(&mut n as *mut Node48 as *mut BaseNode) };
    base.remove(k);
    oblige!(spec(&n, b) == if b == k { None } else { old }, "[C02,C03,C06,C08] after a removal a byte does not map to what it should");
    oblige!(n.base.meta.count == c - 1, "[C02,C06,C08,C14] the count of a node is wrong after a removal");
    oblige!(header(n.base()) == h, "[C02,C11,C15] a removal touches the header");
    unsafe {
        let mut i = 0;
        while i < 48 { if RANK[i] != FULL { RANK[i] = RANK[i].wrapping_add(1); } i += 1; }
        RANK[pos] = 0;
    }
    check(&n, b, s, t);
    check(&n, k, pos, s);
}
#[kani::proof]
fn change() {
    let mut n = mk();
    let (k, p): (u8, usize) = kani::any();
    present(&n, k);
    let (b, s, t) = any_points(&n);
    let (h, c, old, oldk) = (header(n.base()), n.base.meta.count, spec(&n, b), spec(&n, k));
    let base = unsafe { &mut *(&mut n as *mut Node48 as *mut BaseNode) };
    let r = base.change(k, NodePtr::from_payload(p));
    oblige!(Some(val(r)) == oldk, "[C03,C15] replacing a child does not return the old one");
    oblige!(spec(&n, b) == if b == k { Some(p) } else { old }, "[C01,C03,C06] after replacing a child a byte does not map to what it should");
    oblige!(n.base.meta.count == c, "[C02,C14] replacing a child changes the count");
    oblige!(header(n.base()) == h, "[C01,C11,C15] replacing a child touches the header");
    check(&n, b, s, t);
}
/// a fresh node
#[kani::proof] #[kani::unwind(257)]
fn init() {
    let mut n = Node48 { base: any_base(NodeType::N48, 0), child_idx: [0; 256], next_empty: 0, children: [NodePtr::from_payload(0); 48] };
    n.init_empty();
    let (b, s, t): (u8, usize, usize) = kani::any();
    kani::assume(s < 48 && t < 48);
    unsafe { let mut i = 0; while i < 48 { RANK[i] = i as u8; i += 1; } }
    oblige!(spec(&n, b).is_none(), "[C01,C06] a fresh node is not empty");
    check(&n, b, s, t);
}
/// Copying treats the children as opaque words (it only moves them), so one distinct word per
/// slot stands for any children.
#[kani::proof] #[kani::unwind(257)]
fn copy_to() {
    let mut n = torn_node();
    n.children = tokens();
    let b: u8 = kani::any();
    let of = |k: u8| spec(&n, k);
    let mut d = Each { of, seen: [false; 256] };
    n.copy_to(&mut d);
    oblige!(d.seen[b as usize] == spec(&n, b).is_some(), "[C01,C06,C08] copying a node loses, invents or changes a child");
}
/// One step of the iteration from the state at byte `from`, on any contents.
fn step(n: &Node48, from: u16, end: u8, b: u8, it: &mut Node48Iter) {
    let due = b as u16 >= from && b <= end && spec(n, b).is_some();
    match it.next() {
        None => oblige!(!due, "[C04,C09,C14] an iteration over a node ends early"),
        Some((k, c)) => {
            oblige!(k as u16 >= from && k <= end && it.start == k as u16 + 1 && spec(n, k) == Some(val(c)), "[C04,C09,C14] an iteration reports something that is not there");
            oblige!(!due || b >= k, "[C04,C09,C14] an iteration skips a child");
        }
    }
}
fn fresh(n: &Node48, start: u8, end: u8) -> Node48Iter<'_> {
    let it = match n.base().get_children(start, end) { NodeIter::N48(it) => it, _ => unreachable!() };
    oblige!(it.start == start as u16 && it.end == end as u16, "[C04,C09,C14] an iteration over a node does not cover the interval asked for");
    it
}
/// from any state, up to the next child at most 16 bytes further on, or the end
#[kani::proof] #[kani::unwind(19)]
fn next() {
    let n = Node48 { base: any_base(NodeType::N48, 48), child_idx: kani::any(), next_empty: kani::any(), children: tokens() };
    let (start, end, b): (u8, u8, u8) = kani::any();
    let mut it = fresh(&n, start, end);
    let from: u16 = kani::any();
    kani::assume(from >= it.start && from <= 256);
    it.start = from;
    let gap: u16 = kani::any();
    kani::assume(gap <= 16);
    let stop = from + gap;
    kani::assume(stop > end as u16 || n.child_idx[stop as usize] < 48);
    let mut i = 0;
    while i < 17 { let k = from + i; if k < 256 { kani::assume(n.child_idx[k as usize] <= 48); } i += 1; }
    kani::assume(n.child_idx[b as usize] <= 48);
    step(&n, from, end, b, &mut it);
}
/// from the first byte, however far the next child is
#[kani::proof] #[kani::unwind(258)]
fn first() {
    let mut n = torn_node();
    n.children = tokens();
    let (end, b): (u8, u8) = kani::any();
    let mut it = fresh(&n, 0, end);
    step(&n, 0, end, b, &mut it);
}
#[kani::proof] #[kani::unwind(257)]
fn torn() {
    let n = torn_node();
    let _ = n.base().get_child(kani::any());
}
