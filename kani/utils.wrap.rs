/// Backing off never overflows and leaves the counter where it can be used again.
fn c_pause() {}
#[kani::proof]
#[kani::stub(std::hint::spin_loop, c_pause)]
#[kani::unwind(66)]
fn backoff() {
    let b = Backoff::new();
    let s: u32 = kani::any();
    kani::assume(s <= SPIN_LIMIT + 1);
    b.step.set(s);
    b.spin();
    assert!(b.step.get() <= SPIN_LIMIT + 1, "[C15] the back-off counter runs away");
}
