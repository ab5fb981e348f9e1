impl NodePtr { pub(crate) fn as_sub(&self) -> NonNull<BaseNode> { unsafe { self.sub_node } } }
