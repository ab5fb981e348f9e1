pub(crate) fn raw_prefix(b: &BaseNode) -> (usize, Prefix) { (b.meta.prefix_cnt as usize, b.meta.prefix) }
pub(crate) fn any_base(t: NodeType, cap: u16) -> BaseNode {
    let count: u16 = kani::any();
    kani::assume(count <= cap);
    let cnt: u32 = kani::any();
    kani::assume(cnt <= 7);
    BaseNode { type_version_lock_obsolete: AtomicUsize::new(kani::any()), meta: NodeMeta { prefix_cnt: cnt, count, node_type: t, prefix: kani::any() } }
}
