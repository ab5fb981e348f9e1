impl NodePtr { pub(crate) fn as_sub_node(&self) -> NonNull<BaseNode> { unsafe { self.sub_node } } }
