pub(crate) fn mk(prefix: Prefix, len: usize) -> BaseNode {
    let mut b = BaseNode::new(NodeType::N4, &[]);
    b.meta.prefix = prefix; b.meta.prefix_cnt = len as u32;
    b
}
pub(crate) fn parts(b: &BaseNode) -> (usize, Prefix, u16, NodeType, usize) {
    (b.meta.prefix_cnt as usize, b.meta.prefix, b.meta.count, b.meta.node_type, b.type_version_lock_obsolete.load(Ordering::Relaxed))
}
macro_rules! oblige {
    ($c:expr, $m:literal) => { if !($c) && kani::any() { assert!(false, $m); } };
}
/// A new header holds exactly the prefix it is given.
#[kani::proof] #[kani::unwind(9)]
fn new() {
    let bytes: [u8; 8] = kani::any();
    let l: usize = kani::any();
    kani::assume(l <= 7);
    let t = match kani::any::<u8>() & 3 { 0 => NodeType::N4, 1 => NodeType::N16, 2 => NodeType::N48, _ => NodeType::N256 };
    let b = BaseNode::new(t, &bytes[..l]);
    let (n, p, c, ty, v) = parts(&b);
    let i: usize = kani::any();
    kani::assume(i < 8);
    oblige!(n == l && (i >= l || p[i] == bytes[i]), "[C01,C04,C06] a new node does not hold its prefix");
    oblige!(c == 0 && ty == t && v == 0, "[C01,C11,C06] a new node is not empty, unlocked and of its type");
    oblige!(b.prefix().len() == l && (i >= l || b.prefix()[i] == bytes[i]) && b.get_type() == t && b.value_count() == 0, "[C01,C04,C12] a header is misread");
}
