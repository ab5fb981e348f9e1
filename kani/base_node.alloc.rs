// Allocation and release of nodes of every type, with the real layouts.
use crate::error::OOMError;
macro_rules! oblige {
    ($c:expr, $m:literal) => { if !($c) && kani::any() { assert!(false, $m); } };
}
static mut LAYOUT: Option<std::alloc::Layout> = None;
static mut MEM: *mut u8 = std::ptr::null_mut();
static mut REFUSE: bool = false;
static mut PTR: usize = 0;
static mut FREED: bool = false;
#[derive(Clone)]
struct OneNode {}
impl Allocator for OneNode {
    fn allocate(&self, _l: std::alloc::Layout) -> Result<NonNull<[u8]>, OOMError> { Err(OOMError::new()) }
    fn allocate_zeroed(&self, l: std::alloc::Layout) -> Result<NonNull<[u8]>, OOMError> {
        unsafe {
            assert!(LAYOUT.is_none(), "[C08,C10] more nodes are allocated than are needed");
            LAYOUT = Some(l);
            if REFUSE { return Err(OOMError::new()); }
            let p = MEM;
            PTR = p as usize;
            Ok(NonNull::new_unchecked(std::ptr::slice_from_raw_parts_mut(p, l.size())))
        }
    }
    unsafe fn deallocate(&self, p: NonNull<u8>, l: std::alloc::Layout) {
        oblige!(p.as_ptr() as usize == PTR, "[C08,C15] something else than the node is released");
        oblige!(Some(l) == LAYOUT, "[C08,C15] a node is released with a layout it was not allocated with");
        oblige!(!FREED, "[C08,C15] a node is released twice");
        FREED = true;
    }
}
fn life<N: Node>(t: NodeType) {
    let prefix: [u8; 8] = kani::any();
    // prefixes of every length: base_node::verif::prefix::new
    let l: usize = 5;
    let mut mem: N = unsafe { std::mem::zeroed() };
    unsafe { MEM = &raw mut mem as *mut u8; }
    let a = OneNode {};
    let n = match BaseNode::make_node::<N>(&prefix[..l], &a) { Ok(n) => n, Err(_) => { oblige!(false, "[C10] a node cannot be made although there is memory"); return; } };
    oblige!(unsafe { PTR } != 0, "[C10,C15] a refused allocation is overlooked");
    oblige!(unsafe { LAYOUT } == Some(std::alloc::Layout::new::<N>()), "[C08,C15] a node is allocated with another size or alignment than its type's");
    oblige!(N::get_type() == t, "[C15,C06] a node type misstates what it is");
    let p = n.into_non_null();
    oblige!(p.as_ptr() as usize == unsafe { PTR }, "[C15,C08] the node is not where it was allocated");
    let b = unsafe { p.cast::<BaseNode>().as_ref() };
    let i: usize = kani::any();
    kani::assume(i < l);
    oblige!(b.prefix().len() == l && b.prefix()[i] == prefix[i], "[C01,C04,C06] a new node does not hold its prefix");
    oblige!(b.get_type() == t && b.value_count() == 0, "[C01,C06,C15] a new node is not empty or not of its type");
    oblige!(b.type_version_lock_obsolete.load(Ordering::Relaxed) & 3 == 0, "[C11] a new node is locked or dead");
    oblige!(unsafe { p.as_ref() }.base() as *const BaseNode == b as *const BaseNode, "[C15] the header of a node is not at its start");
    oblige!(b.get_child(kani::any()).is_none(), "[C01,C06] a new node is not empty");
    unsafe { BaseNode::drop_node(p.cast(), a); }
    oblige!(unsafe { FREED }, "[C08] a node is not released");
    kani::cover!(true);
}
#[kani::proof] #[kani::unwind(17)] fn n4() { life::<Node4>(NodeType::N4) }
#[kani::proof] #[kani::unwind(17)] fn n16() { life::<Node16>(NodeType::N16) }
#[kani::proof] #[kani::unwind(257)] fn n48() { life::<Node48>(NodeType::N48) }
#[kani::proof] #[kani::unwind(17)] fn n256() { life::<Node256>(NodeType::N256) }

fn refused<N: Node>() {
    unsafe { REFUSE = true; }
    let r = BaseNode::make_node::<N>(&[1, 2], &OneNode {});
    oblige!(matches!(r, Err(ArtError::Oom)), "[C10] a refused allocation is not reported as out of memory");
    std::mem::forget(r);
}
#[kani::proof] #[kani::unwind(9)]
fn oom() { match kani::any::<u8>() & 3 { 0 => refused::<Node4>(), 1 => refused::<Node16>(), 2 => refused::<Node48>(), _ => refused::<Node256>() } }
