// The beginning and the end of a tree.
use std::alloc::Layout;
macro_rules! oblige {
    ($c:expr, $m:literal) => { if !($c) && kani::any() { assert!(false, $m); } };
}
static mut ID: u8 = 0;
static mut GIVEN: usize = 0;
static mut RELEASED: [(usize, usize, usize, u8); 2] = [(0, 0, 0, 0); 2];
static mut ASKED: usize = 0;
static mut BLOCK: *mut u8 = std::ptr::null_mut();
/// an allocator that can be told from another of its kind
struct Own(u8);
impl Clone for Own { fn clone(&self) -> Self { Own(self.0) } }
impl Allocator for Own {
    fn allocate(&self, l: Layout) -> Result<NonNull<[u8]>, OOMError> {
        unsafe {
            ASKED += 1;
            oblige!(self.0 == ID, "[C08,C10] memory is taken from another allocator than the tree's");
            oblige!(l == Layout::new::<Node256>(), "[C15,C08] the root is allocated with a wrong layout");
            Ok(NonNull::new_unchecked(std::ptr::slice_from_raw_parts_mut(BLOCK, l.size())))
        }
    }
    unsafe fn deallocate(&self, p: NonNull<u8>, l: Layout) {
        if GIVEN < 2 { RELEASED[GIVEN] = (p.as_ptr() as usize, l.size(), l.align(), self.0); }
        GIVEN += 1;
    }
}
static mut ROUNDS: usize = 0;
static mut PAIR: ([u8; 8], usize) = ([0; 8], 0);
static mut NODE: [usize; 2] = [0; 2];
static mut DRAINED: usize = 0;
static mut SAME: bool = true;
impl<const K_LEN: usize, A: Allocator + Clone + Send> RawCongee<K_LEN, A> {
    /// the contract of the traversal (proved in tree.dfs.rs), for a root with one node below it, of one pair
    fn d_dfs<V: CongeeVisitor<K_LEN>>(&self, v: &mut V) -> Result<(), ArtError> {
        unsafe {
            ROUNDS += 1;
            let (a, b) = (NonNull::new_unchecked(NODE[0] as *mut BaseNode), NonNull::new_unchecked(NODE[1] as *mut BaseNode));
            oblige!(self.root.as_ptr() as usize == NODE[0], "[C09] another tree is dropped");
            v.pre_visit_sub_node(a, 0);
            v.pre_visit_sub_node(b, 1);
            let mut k = [0; K_LEN];
            k.copy_from_slice(&PAIR.0);
            v.visit_payload(k, PAIR.1);
            v.post_visit_sub_node(b, 1);
            v.post_visit_sub_node(a, 0);
            Ok(())
        }
    }
}
/// a guard that pins nothing
fn c_pin() -> Guard { unsafe { std::ptr::read(crossbeam_epoch::unprotected()) } }

#[kani::proof]
#[kani::stub(RawCongee::dfs_visitor_slow, RawCongee::d_dfs)]
#[kani::stub(crossbeam_epoch::pin, c_pin)]
#[kani::unwind(130)]
fn drop_tree() {
    unsafe { ID = kani::any(); PAIR = kani::any(); }
    let mut root: std::mem::MaybeUninit<Node256> = std::mem::MaybeUninit::zeroed();
    let mut leaf: std::mem::MaybeUninit<Node256> = std::mem::MaybeUninit::zeroed();
    let types = [crate::base_node::NodeType::N4, crate::base_node::NodeType::N16, crate::base_node::NodeType::N48, crate::base_node::NodeType::N256];
    let t = types[kani::any::<usize>() % 4];
    unsafe {
        std::ptr::write(root.as_mut_ptr() as *mut BaseNode, BaseNode::new(crate::base_node::NodeType::N256, &[]));
        std::ptr::write(leaf.as_mut_ptr() as *mut BaseNode, BaseNode::new(t, &PAIR.0[..7]));
        NODE = [root.as_mut_ptr() as usize, leaf.as_mut_ptr() as usize];
    }
    let tree = RawCongee::<8, Own> {
        root: unsafe { NonNull::new_unchecked(root.as_mut_ptr()) },
        drain_callback: Arc::new(|k, v| unsafe { DRAINED += 1; SAME &= (k, v) == PAIR; }),
        allocator: Own(unsafe { ID }),
        _pt_key: PhantomData,
    };
    drop(tree);
    unsafe {
        oblige!(ROUNDS == 1, "[C09] dropping a tree does not visit it exactly once");
        oblige!(DRAINED == 1 && SAME, "[C09] a remaining pair is not handed to the drain callback once and unchanged");
        let of = |ty: crate::base_node::NodeType| match ty {
            crate::base_node::NodeType::N4 => Layout::new::<Node4>(),
            crate::base_node::NodeType::N16 => Layout::new::<crate::node_16::Node16>(),
            crate::base_node::NodeType::N48 => Layout::new::<crate::node_48::Node48>(),
            crate::base_node::NodeType::N256 => Layout::new::<Node256>(),
        };
        oblige!(GIVEN == 2, "[C08,C09] a remaining node is not released exactly once");
        oblige!(RELEASED[0] == (NODE[1], of(t).size(), of(t).align(), ID) && RELEASED[1] == (NODE[0], of(crate::base_node::NodeType::N256).size(), of(crate::base_node::NodeType::N256).align(), ID),
            "[C08,C09] a remaining node is released wrongly, or to another allocator");
    }
}

#[kani::proof]
#[kani::unwind(10)]
fn new() {
    unsafe { ID = kani::any(); PAIR = kani::any(); }
    let mut root: std::mem::MaybeUninit<Node256> = std::mem::MaybeUninit::uninit();
    unsafe { BLOCK = root.as_mut_ptr() as *mut u8; }
    let t = std::mem::ManuallyDrop::new(RawCongee::<8, Own>::new(Own(unsafe { ID }), Arc::new(|k, v| unsafe { DRAINED += 1; SAME &= (k, v) == PAIR; })));
    unsafe {
        oblige!(ASKED == 1 && GIVEN == 0 && t.root.as_ptr() as *mut u8 == BLOCK, "[C08,C15] the root of a new tree is not the node allocated for it");
        let n = &*t.root.as_ptr();
        oblige!(n.base().get_type() == crate::base_node::NodeType::N256, "[C01,C15] the root has a wrong type");
        oblige!(n.base().prefix().is_empty() && n.base().value_count() == 0 && n.base().get_child(kani::any()).is_none(), "[C01,C14] a new tree is not empty");
        oblige!(n.base().type_version_lock_obsolete.load(std::sync::atomic::Ordering::Relaxed) & 3 == 0, "[C11] the root of a new tree is locked or dead");
        oblige!(t.allocator.0 == ID, "[C08,C09] a tree keeps another allocator than it was given");
        (t.drain_callback)(PAIR.0, PAIR.1);
        oblige!(DRAINED == 1 && SAME, "[C09] a tree keeps another drain callback than it was given");
    }
}
