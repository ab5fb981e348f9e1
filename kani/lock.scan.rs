use crate::verif::scan::{disturbed, pos, SNode, UNVAL};
impl<'a> ReadGuard<'a> {
    pub(crate) fn s_check_version(&self) -> Result<usize, ArtError> {
        if disturbed() { return Err(ArtError::VersionNotMatch); }
        unsafe { UNVAL[pos(self.node.as_ptr() as *const SNode)] = false; }
        Ok(self.version)
    }
}
