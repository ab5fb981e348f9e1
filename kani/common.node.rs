// Shared by the node-level contracts: the spec side of a node is its finite map from key
// bytes to children, observed at one arbitrary byte.
use crate::base_node::{BaseNode, Node, NodeIter, NodeType, Prefix};
use crate::node_ptr::NodePtr;

macro_rules! oblige {
    ($c:expr, $m:literal) => { if !($c) && kani::any() { assert!(false, $m); } };
}
pub(crate) use oblige;

pub(crate) fn val(p: NodePtr) -> usize { unsafe { p.as_payload_unchecked() } }
pub(crate) fn oval(p: Option<NodePtr>) -> Option<usize> { match p { Some(p) => Some(val(p)), None => None } }
pub(crate) fn any_children<const N: usize>() -> [NodePtr; N] {
    // same layout: a union of a word and a pointer
    let w: [usize; N] = kani::any();
    unsafe { std::mem::transmute_copy(&w) }
}

/// What an operation on the map must not touch.
#[derive(PartialEq)]
pub(crate) struct Header(usize, usize, Prefix, NodeType);
pub(crate) fn header(b: &BaseNode) -> Header {
    let (n, p) = crate::base_node::verif::node::raw_prefix(b);
    Header(b.type_version_lock_obsolete.load(std::sync::atomic::Ordering::Relaxed), n, p, b.get_type())
}

/// memmove within one of the two arrays of a small node (KEYS, CHILDREN), stated on the array:
/// every element of the destination range gets the element at the same place of the source.
pub(crate) static mut KEYS: *mut u8 = std::ptr::null_mut();
pub(crate) static mut CHILDREN: *mut NodePtr = std::ptr::null_mut();
pub(crate) static mut LEN: usize = 0;
unsafe fn shift<E: Copy>(a: &mut [E], src: usize, dst: usize, count: usize) {
    assert!(src <= a.len() && dst <= a.len() && count <= a.len() - src && count <= a.len() - dst, "[C15] more is moved than a node holds");
    assert!(src == dst + 1 || dst == src + 1 || count == 0, "[C06] a move is not by one place");
    let n = a.len();
    if dst == src + 1 {
        let mut i = n;
        while i > 1 { i -= 1; if i >= dst && i < dst + count { a[i] = a[i - 1]; } }
    } else {
        let mut i = 0;
        while i + 1 < n { if i >= dst && i < dst + count { a[i] = a[i + 1]; } i += 1; }
    }
}
pub(crate) unsafe fn c_copy<T>(src: *const T, dst: *mut T, count: usize) {
    if std::mem::size_of::<T>() == 1 {
        let b = KEYS as usize;
        if LEN == 4 { shift(&mut *(KEYS as *mut [u8; 4]), src as usize - b, dst as usize - b, count) }
        else { shift(&mut *(KEYS as *mut [u8; 16]), src as usize - b, dst as usize - b, count) }
    } else {
        let b = CHILDREN as usize;
        if LEN == 4 { shift(&mut *(CHILDREN as *mut [NodePtr; 4]), (src as usize - b) / 8, (dst as usize - b) / 8, count) }
        else { shift(&mut *(CHILDREN as *mut [NodePtr; 16]), (src as usize - b) / 8, (dst as usize - b) / 8, count) }
    }
}
/// Children that are constants, one distinct word per slot, for code that only moves them.
pub(crate) fn tokens<const N: usize>() -> [NodePtr; N] {
    const W: [usize; 256] = { let mut a = [0; 256]; let mut i = 0; while i < 256 { a[i] = 1000 + i; i += 1; } a };
    assert!(core::mem::size_of::<NodePtr>() == core::mem::size_of::<usize>());
    unsafe { *(&W as *const [usize; 256] as *const [NodePtr; N]) }
}

/// Destination of copy_to: counts the insertions and records the watched byte.
pub(crate) struct Rec { pub watch: u8, pub got: Option<usize>, pub twice: bool, pub n: usize }
impl Node for Rec {
    fn base(&self) -> &BaseNode { unreachable!() }
    fn is_full(&self) -> bool { false }
    fn insert(&mut self, key: u8, node: NodePtr) {
        self.n += 1;
        if key == self.watch { if self.got.is_some() { self.twice = true; } self.got = Some(val(node)); }
    }
    fn change(&mut self, _key: u8, _val: NodePtr) -> NodePtr { unreachable!() }
    fn get_child(&self, _key: u8) -> Option<NodePtr> { unreachable!() }
    fn get_children(&self, _start: u8, _end: u8) -> NodeIter<'_> { unreachable!() }
    fn remove(&mut self, _k: u8) { unreachable!() }
    fn copy_to<N: Node>(&self, _dst: &mut N) { unreachable!() }
    fn get_type() -> NodeType { NodeType::N256 }
}

/// Destination of copy_to for the large nodes: obliges every insertion as it comes.
pub(crate) struct Each<F: Fn(u8) -> Option<usize>> { pub of: F, pub seen: [bool; 256] }
impl<F: Fn(u8) -> Option<usize>> Node for Each<F> {
    fn base(&self) -> &BaseNode { unreachable!() }
    fn is_full(&self) -> bool { false }
    fn insert(&mut self, key: u8, node: NodePtr) {
        oblige!((self.of)(key) == Some(val(node)), "[C01,C06,C08] copying a node loses, invents or changes a child");
        oblige!(!self.seen[key as usize], "[C01,C06] copying a node duplicates a child");
        self.seen[key as usize] = true;
    }
    fn change(&mut self, _key: u8, _val: NodePtr) -> NodePtr { unreachable!() }
    fn get_child(&self, _key: u8) -> Option<NodePtr> { unreachable!() }
    fn get_children(&self, _start: u8, _end: u8) -> NodeIter<'_> { unreachable!() }
    fn remove(&mut self, _k: u8) { unreachable!() }
    fn copy_to<N: Node>(&self, _dst: &mut N) { unreachable!() }
    fn get_type() -> NodeType { NodeType::N256 }
}

/// The contracts of the map operations of a node type.  `$spec(n, b)` is the map, `$wf(n)` assumes or
/// `$check(n)` asserts the representation invariant.
macro_rules! node_contracts {
    ($T:ident, $cap:literal, $mk:ident, $spec:ident, $check:ident, $present:ident, $absent:ident, $watched:ident, $unwind:literal) => {
        #[kani::proof] #[kani::unwind($unwind)]
        fn get() {
            let n = $mk();
            let k: u8 = kani::any();
            $watched(&n, k);
            let r = n.base().get_child(k);
            oblige!(oval(r) == $spec(&n, k), "[C01,C02,C03,C06,C12,C15] a node's lookup disagrees with its contents");
        }
        #[kani::proof] #[kani::unwind($unwind)] #[kani::stub(std::ptr::copy, crate::verif::node::c_copy)]
        fn insert() {
            let mut n = $mk();
            let (k, b, p): (u8, u8, usize) = kani::any();
            kani::assume((n.base().meta.count as usize) < $cap);
            $absent(&n, k);
            $watched(&n, b);
            let (h, c, old) = (header(n.base()), n.base().meta.count, $spec(&n, b));
            unsafe { KEYS = n.keys.as_mut_ptr(); CHILDREN = n.children.as_mut_ptr(); LEN = n.keys.len(); }
            n.insert(k, NodePtr::from_payload(p));
            oblige!($spec(&n, b) == if b == k { Some(p) } else { old }, "[C01,C03,C06,C10] after an insertion a byte does not map to what it should");
            oblige!(n.base().meta.count == c + 1, "[C01,C02,C06,C14] the count of a node is wrong after an insertion");
            oblige!(header(n.base()) == h, "[C01,C11,C15] an insertion touches the header");
            $check(&n);
        }
        #[kani::proof] #[kani::unwind($unwind)]
        fn change() {
            let mut n = $mk();
            let (k, b, p): (u8, u8, usize) = kani::any();
            $present(&n, k);
            $watched(&n, b);
            let (h, c, old, oldk) = (header(n.base()), n.base().meta.count, $spec(&n, b), $spec(&n, k));
            let base = unsafe { &mut *(&mut n as *mut $T as *mut BaseNode) };
            let r = base.change(k, NodePtr::from_payload(p));
            oblige!(Some(val(r)) == oldk, "[C03,C15] replacing a child does not return the old one");
            oblige!($spec(&n, b) == if b == k { Some(p) } else { old }, "[C01,C03,C06] after replacing a child a byte does not map to what it should");
            oblige!(n.base().meta.count == c, "[C02,C14] replacing a child changes the count");
            oblige!(header(n.base()) == h, "[C01,C11,C15] replacing a child touches the header");
            $check(&n);
        }
        #[kani::proof] #[kani::unwind($unwind)] #[kani::stub(std::ptr::copy, crate::verif::node::c_copy)]
        fn remove() {
            let mut n = $mk();
            let (k, b): (u8, u8) = kani::any();
            $present(&n, k);
            $watched(&n, b);
            let (h, c, old) = (header(n.base()), n.base().meta.count, $spec(&n, b));
            let (keys, children, len) = (n.keys.as_mut_ptr(), n.children.as_mut_ptr(), n.keys.len());
            let base = unsafe { &mut *(&mut n as *mut $T as *mut BaseNode) };
            unsafe { KEYS = keys; CHILDREN = children; LEN = len; }
            base.remove(k);
            oblige!($spec(&n, b) == if b == k { None } else { old }, "[C02,C03,C06,C08] after a removal a byte does not map to what it should");
            oblige!(n.base().meta.count == c - 1, "[C02,C06,C08,C14] the count of a node is wrong after a removal");
            oblige!(header(n.base()) == h, "[C02,C11,C15] a removal touches the header");
            $check(&n);
        }
        #[kani::proof] #[kani::unwind($unwind)]
        fn copy_to() {
            let n = $mk();
            let b: u8 = kani::any();
            $watched(&n, b);
            let mut d = Rec { watch: b, got: None, twice: false, n: 0 };
            n.copy_to(&mut d);
            oblige!(d.got == $spec(&n, b), "[C01,C06,C08] copying a node loses, invents or changes a child");
            oblige!(!d.twice, "[C01,C06] copying a node duplicates a child");
        }
        #[kani::proof]
        fn full() {
            let n = $mk();
            oblige!(n.is_full() == ($cap < 256 && n.base().meta.count as usize == $cap), "[C01,C06,C15] a node misjudges whether it is full");
        }
        /// contents as a racing reader may see them: no invariant, counts and slots in range
        #[kani::proof] #[kani::unwind($unwind)]
        fn torn() {
            let n = torn_node();
            let _ = n.base().get_child(kani::any());
            let mut it = n.base().get_children(kani::any(), kani::any());
            let _ = it.next();
        }
    };
}
pub(crate) use node_contracts;
