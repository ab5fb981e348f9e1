use crate::verif::scan::{pos, path, level, SNode};
impl<const K_LEN: usize> KeyTracker<K_LEN> {
    pub(crate) fn c_append_prefix(node: NodePtr, key_tracker: &KeyTracker<K_LEN>) -> Result<KeyTracker<K_LEN>, ArtError> {
        let mut r = key_tracker.clone();
        match node.downcast_key_tracker::<K_LEN>(key_tracker) {
            PtrType::Payload(_) => Ok(r),
            PtrType::SubNode(s) => {
                let n = BaseNode::read_lock(s)?;
                let i = pos(n.as_ref() as *const BaseNode as *const SNode);
                let mut j = r.len();
                while j < level(i) { r.push(path(i)[j]); j += 1; }
                Ok(r)
            }
        }
    }
}
