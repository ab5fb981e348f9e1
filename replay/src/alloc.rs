//! An allocator that records every node, keeps freed memory poisoned, and can refuse.
use congee::verif_hooks::{oom_error, OOMError};
use congee::Allocator;
use std::alloc::Layout;
use std::collections::HashMap;
use std::ptr::NonNull;
use std::sync::{Arc, Mutex};

#[derive(Default)]
pub struct State {
    pub live: HashMap<usize, (Layout, u64)>,
    pub freed: Vec<(usize, Layout)>,
    pub op: u64,
    /// an operation is running with a guard pinned: published nodes must survive it
    pub pinned: bool,
    /// fail the n-th allocation from now
    pub refuse: Option<u64>,
    pub refused: bool,
    pub bad: Option<(&'static str, String)>,
}
#[derive(Clone)]
pub struct Track { pub s: Arc<Mutex<State>>, pub hook: Arc<Mutex<Option<Box<dyn FnOnce() + Send>>>> }
const POISON: u8 = 0xA5;

impl Track {
    pub fn new() -> Self { Track { s: Arc::new(Mutex::new(State::default())), hook: Arc::new(Mutex::new(None)) } }
    pub fn bad(&self) -> Option<(&'static str, String)> { self.s.lock().unwrap_or_else(|e| e.into_inner()).bad.clone() }
    /// after everything has been dropped
    pub fn finish(&self) -> crate::Res {
        for _ in 0..2000 {
            if self.s.lock().unwrap().live.is_empty() { break; }
            crossbeam_flush();
        }
        let mut s = self.s.lock().unwrap();
        if let Some((p, w)) = s.bad.take() { return crate::fail(p, w); }
        for (p, l) in s.freed.drain(..) {
            let b = unsafe { std::slice::from_raw_parts(p as *const u8, l.size()) };
            let dirty = b.iter().any(|x| *x != POISON);
            unsafe { std::alloc::dealloc(p as *mut u8, l) };
            if dirty { return crate::fail("C08 C12 C15 C11", "a released node was written to".into()); }
        }
        if !s.live.is_empty() {
            let n = s.live.len();
            s.live.clear();
            return crate::fail("C08 C09 C10 C13", format!("{n} node(s) were never released"));
        }
        Ok(())
    }
}
pub fn crossbeam_flush() { for _ in 0..8 { congee::epoch::pin().flush(); } }

impl Allocator for Track {
    fn allocate(&self, layout: Layout) -> Result<NonNull<[u8]>, OOMError> {
        let h = self.hook.lock().unwrap_or_else(|e| e.into_inner()).take();
        if let Some(h) = h { h(); }
        let mut s = self.s.lock().unwrap_or_else(|e| e.into_inner());
        if let Some(n) = s.refuse {
            if n == 0 { s.refuse = None; s.refused = true; return Err(oom_error()); }
            s.refuse = Some(n - 1);
        }
        let p = unsafe { std::alloc::alloc(layout) };
        let op = s.op;
        s.live.insert(p as usize, (layout, op));
        Ok(NonNull::new(std::ptr::slice_from_raw_parts_mut(p, layout.size())).unwrap())
    }
    unsafe fn deallocate(&self, ptr: NonNull<u8>, layout: Layout) {
        let mut s = self.s.lock().unwrap_or_else(|e| e.into_inner());
        let p = ptr.as_ptr() as usize;
        match s.live.remove(&p) {
            None => { if s.bad.is_none() { s.bad = Some(("C08 C09 C15", "a node is released twice or was never allocated".into())); } }
            Some((l, op)) => {
                if l != layout && s.bad.is_none() { s.bad = Some(("C08 C09 C15", format!("allocated with {l:?}, released with {layout:?}"))); }
                if s.pinned && op != s.op && s.bad.is_none() { s.bad = Some(("C08 C12 C15", "a published node is released while a guard is pinned".into())); }
                std::ptr::write_bytes(ptr.as_ptr(), POISON, l.size());
                s.freed.push((p, l));
            }
        }
    }
}
