use crate::base_node::verif::scan::mk_base;
/// A node as far as a traversal looks at it directly: its header.
pub(crate) fn mk(p: [u8; 8], l: usize) -> Node4 {
    Node4 { base: mk_base(NodeType::N4, p, l, 2, 64), keys: [0; 4], children: [NodePtr::from_payload(0); 4] }
}
pub(crate) fn iter(node: &Node4, start: u8, end: u8) -> crate::base_node::NodeIter<'_> { crate::base_node::NodeIter::N4(Node4Iter { start, end, idx: 0, cnt: 0, node }) }
pub(crate) fn range<'a, 'b>(it: &'a mut Node4Iter<'b>) -> (*const Node4, u8, u8, &'a mut u8) { (it.node, it.start, it.end, &mut it.idx) }
