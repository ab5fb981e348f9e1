// The depth-first traversal behind Drop and stats, on the abstract tree of common.scan.rs.
use crate::verif::scan::{oblige, setup, snodes, sblank, NODES, S, D, KEYS, VALS, ENV, DISTURBED, UNVAL, FREED};
use crate::verif::scan::SNode;

static mut SEEN: [bool; 2] = [false; 2];
static mut ENTERED: [bool; 9] = [false; 9];
static mut LEFT: [bool; 9] = [false; 9];
static mut OPEN: usize = 0;
struct Visitor {}
impl<const K_LEN: usize> CongeeVisitor<K_LEN> for Visitor {
    fn visit_payload(&mut self, key: [u8; K_LEN], payload: usize) {
        unsafe {
            let w = if crate::verif::scan::LED_TO >= 9 { crate::verif::scan::LED_TO - 9 } else { assert!(false, "[C09,C14,C15] a traversal takes a node for a value"); kani::assume(false); 0 };
            oblige!(!UNVAL[if w == 1 || S == D { D } else { 8 }], "[C12,C14] a traversal hands out a value it has not validated");
            oblige!(!SEEN[w], "[C09,C14] a traversal visits a key twice");
            SEEN[w] = true;
            oblige!(payload == VALS[w], "[C09] a traversal hands out another value than the key holds");
            let mut same = true;
            let mut j = 0;
            while j < 8 { if key[j] != KEYS[w][j] { same = false; } j += 1; }
            oblige!(same, "[C09,C07] a traversal hands out another key than the value is stored under");
        }
    }
    fn pre_visit_sub_node(&mut self, node: NonNull<BaseNode>, tree_level: usize) {
        unsafe {
            let i = crate::verif::scan::pos(node.as_ptr() as *const SNode);
            oblige!(!ENTERED[i], "[C09,C14] a traversal enters a node twice");
            oblige!(tree_level == OPEN, "[C14] a node is counted at a wrong level");
            ENTERED[i] = true;
            OPEN += 1;
        }
    }
    fn post_visit_sub_node(&mut self, node: NonNull<BaseNode>, _tree_level: usize) {
        unsafe {
            let i = crate::verif::scan::pos(node.as_ptr() as *const SNode);
            oblige!(ENTERED[i] && !LEFT[i], "[C08,C09] a node is left twice, or without having been entered");
            oblige!(!UNVAL[i], "[C12,C14] a node is left before what was read from it is validated");
            // when a node is left it may be released: everything below it must be done
            if i < D { oblige!(LEFT[i + 1], "[C08,C09] a node is left before the nodes below it"); }
            if i <= D && i <= S && S < D { oblige!(LEFT[8], "[C08,C09] a node is left before the nodes below it"); }
            oblige!(SEEN[1] || i == 8, "[C09] a node is left before the keys below it are visited");
            oblige!(SEEN[0] || S > D || i > S && i != 8, "[C09] a node is left before the keys below it are visited");
            LEFT[i] = true;
            FREED[i] = true;
            OPEN -= 1;
        }
    }
}
fn walk(env: bool) {
    unsafe { ENV = env; }
    let t = std::mem::ManuallyDrop::new(RawCongee::<8, DefaultAllocator> { root: unsafe { NonNull::new_unchecked(NODES[0] as *mut Node256) }, drain_callback: Arc::new(|_k, _v| {}), allocator: DefaultAllocator {}, _pt_key: PhantomData });
    let r = t.dfs_visitor_slow(&mut Visitor {});
    unsafe {
        match r {
            Err(_) => { oblige!(DISTURBED, "[C09,C14] an undisturbed traversal is abandoned"); }
            Ok(()) => {
                oblige!(!DISTURBED, "[C12,C14] a traversal ignores that a node changed while it was read");
                oblige!(SEEN[1] && SEEN[0] == (S <= D), "[C09,C14] a traversal leaves out a key");
                oblige!(OPEN == 0 && LEFT[0] && LEFT[D] && LEFT[8] == (S < D), "[C08,C09] a traversal does not leave every node");
            }
        }
    }
}
macro_rules! walks {
    ($($h:ident $l:tt $s:literal $env:literal;)*) => { $(
        #[kani::proof]
        #[kani::stub(BaseNode::read_lock, crate::verif::scan::s_read_lock)]
        #[kani::stub(BaseNode::get_children, crate::verif::scan::s_get_children)]
        #[kani::stub(NodePtr::downcast, NodePtr::s_downcast)]
        #[kani::stub(ReadGuard::check_version, ReadGuard::s_check_version)]
        #[kani::stub(<crate::base_node::NodeIter as core::iter::Iterator>::next, crate::verif::scan::s_next)]
        #[kani::unwind(10)]
        fn $h() { snodes!(&$l, $s); walk($env); }
    )* };
}
walks! {
    //! family Dfs
}
