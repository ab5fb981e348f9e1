use crate::verif::scan::{oblige, setup, snodes, sblank, num, NODES, S, D, KEYS, VALS, ENV, DISTURBED, UNVAL, SNode, LED_TO, pos, path, level, parent, validated, disturbed};

// ---- contracts of the callees (proved in range_scan.bound.rs) ---------------------------------
static mut START: u64 = 0;
static mut END: u64 = 0;
/// reported so far: P, Q
static mut WROTE: [bool; 2] = [false; 2];
/// the buffer is full
static mut FULL: bool = false;
static mut FOUND: usize = 0;
impl<'a, const K_LEN: usize> RangeScan<'a, K_LEN> {
    pub(crate) fn c_check_prefix_compare(&self, n: &BaseNode, k: &[u8; K_LEN], fill_key: u8, key_tracker: &mut KeyTracker<K_LEN>) -> cmp::Ordering {
        let i = pos(n as *const BaseNode as *const SNode);
        let p = path(i);
        let _ = fill_key;
        let mut r = cmp::Ordering::Equal;
        let mut j = key_tracker.len();
        assert!(j <= level(i), "[C04,C15] a scan is below the prefix of a node");
        while j < level(i) {
            if r == cmp::Ordering::Equal { if p[j] < k[j] { r = cmp::Ordering::Less; } else if p[j] > k[j] { r = cmp::Ordering::Greater; } }
            key_tracker.push(p[j]);
            j += 1;
        }
        r
    }
    fn c_check_prefix_equals(&self, n: &BaseNode, key_tracker: &mut KeyTracker<K_LEN>) -> PrefixCheckEqualsResult {
        let i = pos(n as *const BaseNode as *const SNode);
        let p = path(i);
        let mut r = 0;
        let mut j = key_tracker.len();
        assert!(j <= level(i), "[C04,C15] a scan is below the prefix of a node");
        while j < level(i) {
            if r == 0 && (p[j] != self.start[j] || p[j] != self.end[j]) { r = if p[j] >= self.start[j] && p[j] <= self.end[j] { 1 } else { 2 }; }
            key_tracker.push(p[j]);
            j += 1;
        }
        if r == 0 { PrefixCheckEqualsResult::BothMatch } else if r == 1 { PrefixCheckEqualsResult::Contained } else { PrefixCheckEqualsResult::NotMatch }
    }
    /// write_result for the complete path to key w
    fn report(&mut self, w: usize) {
        unsafe {
            let key = num(&KEYS[w]);
            if START <= key && key < END {
                if FULL { self.to_continue = true; return; }
                if kani::any() { FULL = true; self.to_continue = true; return; }
                oblige!(!WROTE[w], "[C04] a scan reports a key twice");
                oblige!(!WROTE[1], "[C04,C05] a scan reports keys in the wrong order");
                WROTE[w] = true;
                FOUND += 1;
                self.result_found += 1;
            }
        }
    }
    fn c_write_result(&mut self, payload: usize, key_tracker: &KeyTracker<K_LEN>) {
        unsafe {
            assert!(key_tracker.len() == 8, "[C04,C15] a scan reports something that is no key");
            let w = if LED_TO >= 9 { LED_TO - 9 } else { assert!(false, "[C04,C15] a scan reports a node as a value"); kani::assume(false); 0 };
            assert!(payload == VALS[w], "[MODEL] another value than the last one led to is reported");
            oblige!(!UNVAL[if w == 1 { D } else if S == D { D } else { 8 }], "[C12,C04] a scan reports something it has not validated");
            let p = unsafe { key_tracker.as_last_level_unchecked() };
            oblige!(same(p.key(), &KEYS[w], 8), "[C04,C07] a scan reports a value under another key than its own");
            self.report(w);
        }
    }
    /// Everything below a node is reported, in order, until the buffer is full.
    fn report_all(&mut self, i: usize) {
        unsafe {
            if i == 8 || S <= D && i <= S { self.report(0); if self.to_continue { return; } }
            if i != 8 { self.report(1); }
        }
    }
    fn c_copy_node_recursive(&mut self, node: NodePtr, key_tracker: &KeyTracker<K_LEN>) -> Result<(), ArtError> {
        let p = unsafe { key_tracker.as_last_level_unchecked() };
        match node.downcast_key_tracker::<K_LEN>(key_tracker) {
            PtrType::Payload(v) => { self.c_write_result(v, key_tracker); Ok(()) }
            PtrType::SubNode(_) => {
                let i = unsafe { LED_TO };
                oblige!(key_tracker.len() == level(i) && same(p.key(), &path(i), level(i)), "[C04,C15] a scan copies a node under a wrong path");
                if i > 0 { validated(parent(i)); }
                if disturbed() { return Err(ArtError::Locked); }
                self.report_all(i);
                Ok(())
            }
        }
    }
    fn c_find(&mut self, node: NonNull<BaseNode>, parent_node: &ReadGuard, key_tracker: &KeyTracker<K_LEN>, bound: &[u8; K_LEN]) -> Result<(), ArtError> {
        let i = pos(node.as_ptr() as *const SNode);
        let up = pos(parent_node.as_ref() as *const BaseNode as *const SNode);
        let p = unsafe { key_tracker.as_last_level_unchecked() };
        oblige!(up == parent(i), "[C04,C12] a node is visited with another than its parent");
        oblige!(key_tracker.len() == level(up) + 1 && same(p.key(), &path(i), level(up) + 1), "[C04,C15] a scan visits a node under a wrong path");
        oblige!(same(p.key(), bound, level(up) + 1), "[C04] a scan looks for a bound where it is not");
        validated(up);
        if disturbed() { return Err(ArtError::Locked); }
        self.report_all(i);
        Ok(())
    }
    fn c_find_start(&mut self, node: NonNull<BaseNode>, parent_node: &ReadGuard, key_tracker: KeyTracker<K_LEN>) -> Result<(), ArtError> { let b = self.start; self.c_find(node, parent_node, &key_tracker, b) }
    fn c_find_end(&mut self, node: NonNull<BaseNode>, parent_node: &ReadGuard, key_tracker: KeyTracker<K_LEN>) -> Result<(), ArtError> { let b = self.end; self.c_find(node, parent_node, &key_tracker, b) }
}
fn same<const N: usize, const M: usize>(a: &[u8; N], b: &[u8; M], n: usize) -> bool {
    let mut r = true;
    let mut j = 0;
    while j < n { if a[j] != b[j] { r = false; } j += 1; }
    r
}
/// The whole scan, or one of the functions it is made of, from the node below node 0 (`copy`:
/// from node 0) on.
#[derive(Clone, Copy, PartialEq)]
enum What { Scan, Start, End, Copy }
fn run(what: What, env: bool) {
    let (s, e): ([u8; 8], [u8; 8]) = kani::any();
    kani::assume(num(&s) < num(&e));
    let mut buf = [([0; 8], 0); 1];
    unsafe { ENV = env; START = num(&s); END = num(&e); FULL = false; FOUND = 0; WROTE = [false; 2]; }
    let mut scan = RangeScan::<8>::new(&s, &e, &mut buf, unsafe { NonNull::new_unchecked(NODES[0] as *mut Node256) });
    let mut t = KeyTracker::<8>::empty();
    let n = if what == What::Start || what == What::End { level(0) + 1 } else { level(0) };
    let mut j = 0;
    while j < n && what != What::Scan { t.push(path(0)[j]); j += 1; }
    let g = ReadGuard::new(64, unsafe { NonNull::new_unchecked(NODES[0] as *mut BaseNode) });
    let r = match what {
        // an abandoned attempt may have left anything in its fields
        What::Scan => { scan.result_found = kani::any(); kani::assume(scan.result_found < 1000); scan.to_continue = kani::any(); scan.scan() }
        What::Copy => unsafe { LED_TO = 0; scan.copy_node_recursive(NodePtr::from_node(&*(NODES[0] as *const BaseNode)), &t).map(|_| scan.result_found) },
        What::Start => unsafe { kani::assume(same(&path(1), &s, n)); LED_TO = 1; scan.find_start(NonNull::new_unchecked(NODES[1] as *mut BaseNode), &g, t).map(|_| scan.result_found) },
        What::End => unsafe { kani::assume(same(&path(1), &e, n)); LED_TO = 1; scan.find_end(NonNull::new_unchecked(NODES[1] as *mut BaseNode), &g, t).map(|_| scan.result_found) },
    };
    let inside = |k: &[u8; 8]| num(&s) <= num(k) && num(k) < num(&e);
    unsafe {
        let p_due = S <= D && inside(&KEYS[0]);
        let q_due = inside(&KEYS[1]);
        match r {
            Err(_) => { oblige!(DISTURBED, "[C04,C12] an undisturbed scan is abandoned"); }
            Ok(c) => {
                oblige!(!DISTURBED, "[C12,C04] a scan ignores that a node changed while it was read");
                let mut j = 0;
                while j < 9 { oblige!(!UNVAL[j], "[C12,C04] a scan rests on something that was read from a node and not validated"); j += 1; }
                oblige!(c == FOUND && scan.to_continue == FULL, "[C04,C05] a scan does not return the number of keys it reported");
                oblige!(FULL || WROTE[1] == q_due, "[C04,C05] a scan misses a key in the interval");
                oblige!(FULL || WROTE[0] == p_due, "[C04,C05] a scan misses a key in the interval");
                oblige!(!(WROTE[1] && p_due && !WROTE[0]), "[C05,C04] a truncated scan leaves out a smaller key than one it reports");
            }
        }
    }
}
macro_rules! scans {
    ($what:ident $m:tt $($h:ident $l:tt $s:literal $env:literal;)*) => { $(
        scans! { @ $m fn $h() { snodes!(&$l, $s); run(What::$what, $env); } }
    )* };
    (@ [$($m:meta),*] $f:item) => {
        #[kani::proof]
        #[kani::stub(BaseNode::read_lock, crate::verif::scan::s_read_lock)]
        #[kani::stub(BaseNode::read_lock_root, crate::verif::scan::s_read_lock_root)]
        #[kani::stub(BaseNode::get_child, crate::verif::scan::s_get_child)]
        #[kani::stub(BaseNode::get_children, crate::verif::scan::s_get_children)]
        #[kani::stub(NodePtr::downcast, NodePtr::s_downcast)]
        #[kani::stub(ReadGuard::check_version, ReadGuard::s_check_version)]
        #[kani::stub(<crate::base_node::NodeIter as core::iter::Iterator>::next, crate::verif::scan::s_next)]
        #[kani::stub(RangeScan::check_prefix_compare, RangeScan::c_check_prefix_compare)]
        #[kani::stub(RangeScan::check_prefix_equals, RangeScan::c_check_prefix_equals)]
        #[kani::stub(RangeScan::write_result, RangeScan::c_write_result)]
        #[kani::stub(KeyTracker::append_prefix, KeyTracker::c_append_prefix)]
        $(#[$m])*
        #[kani::unwind(10)]
        $f
    };
}
scans! { Scan []
    one_07 [0, 7] 9 false;
    two_07_0 [0, 7] 0 false;
    two_07_1 [0, 7] 1 false;
}
scans! { Scan [kani::stub(RangeScan::copy_node_recursive, RangeScan::c_copy_node_recursive), kani::stub(RangeScan::find_start, RangeScan::c_find_start), kani::stub(RangeScan::find_end, RangeScan::c_find_end)]
    //! family Scan
}
scans! { Start [kani::stub(RangeScan::copy_node_recursive, RangeScan::c_copy_node_recursive)]
    //! family Start
}
scans! { End [kani::stub(RangeScan::copy_node_recursive, RangeScan::c_copy_node_recursive)]
    //! family End
}
scans! { Copy []
    //! family Copy
}
