macro_rules! oblige {
    ($c:expr, $m:literal) => { if !($c) && kani::any() { assert!(false, $m); } };
}
pub(crate) fn tracker(len: usize, data: [u8; 8]) -> KeyTracker<8> { KeyTracker { len, data } }
pub(crate) fn parts(t: &KeyTracker<8>) -> (usize, [u8; 8]) { (t.len, t.data) }

/// The tracker is a stack of at most as many bytes as a key has.
#[kani::proof] #[kani::unwind(9)]
fn key_tracker() {
    let (len, data): (usize, [u8; 8]) = kani::any();
    kani::assume(len <= 8);
    let e = KeyTracker::<8>::empty();
    oblige!(e.len() == 0, "[C04,C09] a new path is not empty");
    let mut t = tracker(len, data);
    oblige!(t.len() == len, "[C04,C09] the length of a path is misread");
    let c = t.clone();
    let i: usize = kani::any();
    kani::assume(i < 8);
    oblige!(c.len == len && (i >= len || c.data[i] == data[i]), "[C04,C09] a copied path differs");
    if len < 8 {
        let b: u8 = kani::any();
        t.push(b);
        oblige!(t.len == len + 1 && (i > len || t.data[i] == if i == len { b } else { data[i] }), "[C04,C09,C15] a byte is not appended to a path");
        let r = t.pop();
        oblige!(r == b, "[C04,C09] a path is not shortened by its last byte");
        oblige!(t.len == len && (i >= len || t.data[i] == data[i]), "[C04,C09] shortening a path changes the rest of it");
    } else {
        oblige!(unsafe { t.as_last_level_unchecked() }.key()[i] == data[i], "[C04,C07,C09] a complete path is not read as the key it is");
    }
}

static mut NODE: *const BaseNode = std::ptr::null();
static mut LOCKS: bool = false;
static mut LOCKED: usize = 0;
fn c_read_lock<'a>(node: std::ptr::NonNull<BaseNode>) -> Result<crate::lock::ReadGuard<'a>, ArtError> {
    unsafe {
        oblige!(node.as_ptr() as *const BaseNode == NODE, "[C04,C15] another node is visited than the one given");
        LOCKED += 1;
        if LOCKS { Ok(crate::lock::ReadGuard::new(64, node)) } else { Err(ArtError::Locked) }
    }
}
#[kani::proof] #[kani::unwind(9)]
#[kani::stub(BaseNode::read_lock, c_read_lock)]
fn append_prefix() {
    let (len, data, p, pl): (usize, [u8; 8], [u8; 8], usize) = kani::any();
    kani::assume(len >= 1 && len <= 8);
    let t = tracker(len, data);
    let i: usize = kani::any();
    kani::assume(i < 8);
    if len == 8 {
        let r = KeyTracker::append_prefix(NodePtr::from_payload(kani::any()), &t);
        match r { Ok(r) => { oblige!(r.len == 8 && r.data[i] == data[i], "[C04] the path to a value is changed"); } Err(_) => oblige!(false, "[C04] a value is taken for a node") }
        return;
    }
    kani::assume(pl >= len && pl <= 7);
    let b = crate::base_node::verif::prefix::mk(p, pl);
    unsafe { NODE = &b; LOCKS = kani::any(); }
    match KeyTracker::append_prefix(NodePtr::from_node(&b), &t) {
        Ok(r) => {
            oblige!(unsafe { LOCKS && LOCKED == 1 }, "[C12,C04] the prefix of a node is read without validating it");
            oblige!(r.len == pl && (i >= pl || r.data[i] == if i < len { data[i] } else { p[i] }), "[C04] the prefix of a node is not appended to the path");
        }
        Err(_) => oblige!(!unsafe { LOCKS }, "[C04,C12] an undisturbed scan is abandoned"),
    }
    oblige!(t.len == len && (i >= len || t.data[i] == data[i]), "[C04] extending a copy of a path changes the path");
}
