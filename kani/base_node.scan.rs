pub(crate) fn mk_base(t: NodeType, prefix: Prefix, cnt: usize, count: u16, version: usize) -> BaseNode {
    BaseNode { type_version_lock_obsolete: AtomicUsize::new(version), meta: NodeMeta { prefix_cnt: cnt as u32, count, node_type: t, prefix } }
}
