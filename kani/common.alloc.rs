use crate::{Allocator, DefaultAllocator};
use std::alloc::Layout;
macro_rules! oblige {
    ($c:expr, $m:literal) => { if !($c) && kani::any() { assert!(false, $m); } };
}
static mut ASKED: Option<Layout> = None;
static mut REFUSE: bool = false;
static mut BLOCK: [u8; 40] = [0xee; 40];
unsafe fn c_alloc(l: Layout) -> *mut u8 { ASKED = Some(l); if REFUSE { std::ptr::null_mut() } else { &raw mut BLOCK as *mut u8 } }
static mut GIVEN: Option<(usize, Layout)> = None;
unsafe fn c_dealloc(p: *mut u8, l: Layout) { GIVEN = Some((p as usize, l)); }
#[kani::proof]
#[kani::stub(std::alloc::alloc, c_alloc)]
#[kani::stub(std::alloc::dealloc, c_dealloc)]
#[kani::unwind(42)]
fn default_allocator() {
    let l = Layout::from_size_align(40, 8).unwrap();
    unsafe { REFUSE = kani::any(); }
    let a = DefaultAllocator {};
    let zeroed: bool = kani::any();
    let r = if zeroed { a.allocate_zeroed(l) } else { a.allocate(l) };
    match r {
        Err(_) => { oblige!(unsafe { REFUSE }, "[C10] out of memory is reported although memory was given"); }
        Ok(p) => unsafe {
            oblige!(!REFUSE, "[C10,C15] refused memory is used");
            oblige!(p.as_ptr() as *mut u8 as usize == &raw const BLOCK as usize && p.len() == 40 && ASKED == Some(l), "[C15,C08] other memory is handed out than was allocated");
            let i: usize = kani::any();
            kani::assume(i < 40);
            oblige!(!zeroed || BLOCK[i] == 0, "[C15,C01] memory is not zeroed");
            a.deallocate(std::ptr::NonNull::new_unchecked(p.as_ptr() as *mut u8), l);
            oblige!(GIVEN == Some((&raw const BLOCK as usize, l)), "[C08,C15] memory is not given back as it was allocated");
        }
    }
}
