// Two node types for the generic growth function: the abstract node under the names it grows
// from and to.  `insert_grow` is generic, so what holds for these holds for every pair of types
// that meets the node contracts.
use super::walk::*;
use crate::base_node::{BaseNode, Node, NodeIter, NodeType};
use crate::error::ArtError;
use crate::lock::{ReadGuard, TypedReadGuard};
use crate::node_ptr::NodePtr;
use crate::Allocator;
use crossbeam_epoch::Guard;

pub(crate) static mut FULL: bool = false;
pub(crate) static mut COPIED: bool = false;

macro_rules! abstract_node {
    ($T:ident, $type:ident) => {
        #[repr(transparent)]
        pub(crate) struct $T(pub AbsNode);
        impl Node for $T {
            fn base(&self) -> &BaseNode { &self.0.base }
            fn is_full(&self) -> bool { unsafe { (*(self as *const Self as *mut AbsNode)).unval = true; self.0.pre && FULL } }
            fn insert(&mut self, key: u8, node: NodePtr) {
                oblige!(!self.0.pre || unsafe { !FULL }, "[C01,C06,C15] a child is inserted into a full node");
                oblige!(self.0.pre || unsafe { COPIED }, "[C01,C06] the new child is inserted before the old ones are copied");
                self.0.insert(key, node)
            }
            fn change(&mut self, key: u8, val: NodePtr) -> NodePtr { self.0.change(key, val) }
            fn get_child(&self, key: u8) -> Option<NodePtr> { self.0.lookup(key) }
            fn get_children(&self, _s: u8, _e: u8) -> NodeIter<'_> { unreachable!() }
            fn remove(&mut self, k: u8) { self.0.remove(k) }
            /// contract: every child is inserted into `dst` once
            fn copy_to<N: Node>(&self, dst: &mut N) {
                let o = &self.0;
                oblige!(o.version() & 2 == 2, "[C11,C12,C01] a node is copied without holding its lock");
                let d = unsafe { &mut *(dst as *mut N as *mut AbsNode) };
                oblige!(!d.pre, "[C06,C11] a node is copied over a published one");
                d.k = o.k; d.q = o.q; d.has_k = o.has_k; d.has_q = o.has_q; d.k_opaque = o.k_opaque; d.q_opaque = o.q_opaque;
                d.base.meta.count += o.base.meta.count;
                unsafe { COPIED = true; }
            }
            fn get_type() -> NodeType { NodeType::$type }
        }
    };
}
abstract_node!(Cur, N4);
abstract_node!(Big, N16);

// ---- which types a node grows from and to ---------------------------------------------
pub(crate) static mut CUR: Option<NodeType> = None;
pub(crate) static mut BIGGER: Option<NodeType> = None;
pub(crate) static mut ARGS: (usize, u8, bool, u8, usize) = (0, 0, false, 0, 0);
pub(crate) static mut RESULT: u8 = 0;
pub(crate) fn c_insert_grow<CurT: Node, BiggerT: Node, A: Allocator + Send + Clone + 'static>(
    n: TypedReadGuard<CurT>, parent: (u8, Option<ReadGuard>), val: (u8, NodePtr), _allocator: &A, _guard: &Guard,
) -> Result<(), ArtError> {
    unsafe {
        CUR = Some(CurT::get_type());
        BIGGER = Some(BiggerT::get_type());
        ARGS = (n.as_ref() as *const CurT as usize, parent.0, parent.1.is_some(), val.0, val.1.as_payload_unchecked());
        match RESULT { 0 => Ok(()), 1 => Err(ArtError::Oom), 2 => Err(ArtError::Locked), _ => Err(ArtError::VersionNotMatch) }
    }
}
