use crate::base_node::verif::prefix::mk;
use std::mem::ManuallyDrop;
macro_rules! oblige {
    ($c:expr, $m:literal) => { if !($c) && kani::any() { assert!(false, $m); } };
}
/// first position in level..len where prefix and key differ, or len
fn first_difference(p: &[u8; 8], len: usize, key: &[u8; 8], level: usize) -> usize {
    let mut r = len;
    let mut i = 7;
    while i > 0 { i -= 1; if i >= level && i < len && p[i] != key[i] { r = i; } }
    r
}
fn any_case() -> (BaseNode, [u8; 8], usize, [u8; 8], usize) {
    let (p, key): ([u8; 8], [u8; 8]) = kani::any();
    let (len, level): (usize, usize) = kani::any();
    kani::assume(len <= 7 && level <= len);
    (mk(p, len), p, len, key, level)
}
#[kani::proof] #[kani::unwind(9)]
fn check_prefix() {
    let (b, p, len, key, level) = any_case();
    let m = first_difference(&p, len, &key, level);
    let r = RawCongee::<8, DefaultAllocator>::check_prefix(&b, &key, level);
    oblige!(r == if m == len { Some(len) } else { None }, "[C01,C02,C03,C15] a key is matched against a node's prefix wrongly");
}
#[kani::proof] #[kani::unwind(10)]
fn check_prefix_not_match() {
    let (b, p, len, key, level) = any_case();
    let m = first_difference(&p, len, &key, level);
    let t = ManuallyDrop::new(RawCongee::<8, DefaultAllocator> { root: NonNull::dangling(), drain_callback: Arc::new(|_k, _v| {}), allocator: DefaultAllocator {}, _pt_key: PhantomData });
    let mut l = level;
    let r = t.check_prefix_not_match(&b, &key, &mut l);
    oblige!(l == m, "[C01,C03,C15] the walk does not stop where the key leaves a node's prefix");
    oblige!(r == if m == len { None } else { Some(p[m]) }, "[C01,C03,C15] the byte at which a node's prefix leaves the key is wrong");
}
#[kani::proof]
fn downcast() {
    let w: usize = kani::any();
    let l: usize = kani::any();
    kani::assume(l <= 7);
    let p = NodePtr::from_payload(w);
    match p.downcast::<8>(l) {
        PtrType::Payload(v) => { oblige!(l == 7 && v == w, "[C15,C01,C07] a node is taken for a value, or a value is changed"); }
        PtrType::SubNode(_) => { oblige!(l < 7, "[C15,C01] a value is taken for a node"); }
    }
    match RawCongee::<8, DefaultAllocator>::is_last_level(l) {
        Ok(_) => { oblige!(l == 7, "[C15,C01] a node is stored where values are"); }
        Err(_) => { oblige!(l < 7, "[C15,C01] a value is stored where nodes are"); }
    }
    let b = BaseNode::new(crate::base_node::NodeType::N4, &[]);
    if let PtrType::SubNode(s) = NodePtr::from_node(&b).downcast::<8>(0) { oblige!(s.as_ptr() as *const BaseNode == &b as *const BaseNode, "[C15,C01] a pointer to a node is changed"); }
}
