pub(crate) fn mk_base(t: NodeType, prefix: Prefix, cnt: usize, count: u16, version: usize) -> BaseNode {
    BaseNode { type_version_lock_obsolete: AtomicUsize::new(version), meta: NodeMeta { prefix_cnt: cnt as u32, count, node_type: t, prefix } }
}
pub(crate) fn raw_prefix(b: &BaseNode) -> (usize, Prefix) { (b.meta.prefix_cnt as usize, b.meta.prefix) }
pub(crate) fn real_read_lock<'a>(node: NonNull<BaseNode>) -> Result<ReadGuard<'a>, ArtError> { BaseNode::read_lock_inner(node) }
