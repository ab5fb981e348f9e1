use crate::verif::walk::{abs_mut, env_fails};

/// Contract of the optimistic lock (proved below): a validation succeeds only if the node
/// is exactly as it was when the guard was taken; it may fail because of another thread.
impl<'a> ReadGuard<'a> {
    pub(crate) fn c_check_version(&self) -> Result<usize, ArtError> {
        let n = abs_mut(unsafe { &mut *self.node.as_ptr() });
        if env_fails() || n.version() != self.version { return Err(ArtError::VersionNotMatch); }
        n.unval = false;
        Ok(self.version)
    }
    pub(crate) fn c_upgrade(self) -> Result<WriteGuard<'a>, (Self, ArtError)> {
        let n = abs_mut(unsafe { &mut *self.node.as_ptr() });
        if env_fails() || n.version() != self.version { return Err((self, ArtError::VersionNotMatch)); }
        n.unval = false;
        n.base.type_version_lock_obsolete.store(self.version + 2, Ordering::Relaxed);
        Ok(WriteGuard { node: unsafe { &mut *(self.node.as_ptr()) } })
    }
}
