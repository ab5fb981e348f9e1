use crate::verif::walk::{abs_mut, env_fails};
impl<'a, T: Node> TypedReadGuard<'a, T> {
    pub(crate) fn c_upgrade(self) -> Result<TypedWriteGuard<'a, T>, (Self, ArtError)> {
        let n = abs_mut(unsafe { &mut *(self.node as *mut BaseNode) });
        if env_fails() || n.version() != self.version { return Err((self, ArtError::VersionNotMatch)); }
        n.unval = false;
        n.base.type_version_lock_obsolete.store(self.version + 2, Ordering::Relaxed);
        Ok(TypedWriteGuard { node: unsafe { &mut *(self.node as *mut T) } })
    }
}
