#[repr(C)] pub(crate) struct Room { pub base: BaseNode, room: [u64; 8] }
pub(crate) fn room(version: usize) -> Room { Room { base: mk(version), room: [0; 8] } }
fn mk(version: usize) -> BaseNode { let b = BaseNode::new(NodeType::N4, &[]); b.type_version_lock_obsolete.store(version, Ordering::Relaxed); b }
pub(crate) fn word(b: &BaseNode) -> usize { b.type_version_lock_obsolete.load(Ordering::Relaxed) }
pub(crate) fn set(b: &BaseNode, v: usize) { b.type_version_lock_obsolete.store(v, Ordering::Relaxed) }
