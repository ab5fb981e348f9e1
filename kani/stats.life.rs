use crossbeam_epoch::Guard;
use crate::error::ArtError;
macro_rules! oblige {
    ($c:expr, $m:literal) => { if !($c) && kani::any() { assert!(false, $m); } };
}
static mut KEYS: usize = 0;
static mut ROUNDS: usize = 0;
static mut COUNTED: usize = 0;
impl<const K_LEN: usize, A: Allocator + Clone + Send> RawCongee<K_LEN, A> {
    fn t_dfs<V: CongeeVisitor<K_LEN>>(&self, _v: &mut V) -> Result<(), ArtError> {
        unsafe { ROUNDS += 1; if kani::any() { kani::assume(ROUNDS < 3); return Err(ArtError::VersionNotMatch); } }
        Ok(())
    }
    fn t_value_count(&self, _g: &Guard) -> usize { unsafe { COUNTED += 1; KEYS } }
}
fn c_pin() -> Guard { unsafe { std::ptr::read(crossbeam_epoch::unprotected()) } }
fn c_state() -> std::hash::RandomState { unsafe { std::mem::transmute((1u64, 2u64)) } }
#[kani::proof]
#[kani::stub(RawCongee::dfs_visitor_slow, RawCongee::t_dfs)]
#[kani::stub(RawCongee::value_count, RawCongee::t_value_count)]
#[kani::stub(crossbeam_epoch::pin, c_pin)]
#[kani::stub(std::hash::RandomState::new, c_state)]
#[kani::unwind(5)]
fn kv_pairs() {
    unsafe { KEYS = kani::any(); }
    let t = std::mem::ManuallyDrop::new(crate::tree::verif::api::mk_raw(crate::DefaultAllocator {}, std::sync::Arc::new(|_k, _v| {})));
    let s = std::mem::ManuallyDrop::new(t.stats());
    oblige!(s.kv_pairs == unsafe { KEYS }, "[C14] the key-value count of the statistics is not the number of keys");
}

static mut AFTER_KV: bool = false;
static mut SHOWN: Option<usize> = None;
static mut TIMES: usize = 0;
struct Sink;
impl std::fmt::Write for Sink {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        let b = s.as_bytes();
        // the piece in front of the number
        unsafe { AFTER_KV = b.len() >= 3 && b[0] == b'K' && b[1] == b'V' && b[2] == b' '; }
        Ok(())
    }
}
fn c_show(x: &usize, _f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
    unsafe { if AFTER_KV { SHOWN = Some(*x); TIMES += 1; } AFTER_KV = false; }
    Ok(())
}
fn c_show_f(_x: &f64, _f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { Ok(()) }
#[kani::proof]
#[kani::stub(<usize as std::fmt::Display>::fmt, c_show)]
#[kani::stub(<f64 as std::fmt::Display>::fmt, c_show_f)]
#[kani::stub(std::hash::RandomState::new, c_state)]
#[kani::unwind(20)]
fn shown() {
    use std::fmt::Write;
    let n: usize = kani::any();
    let s = std::mem::ManuallyDrop::new(NodeStats { levels: HashMap::new(), kv_pairs: n });
    let _ = write!(Sink, "{}", *s);
    unsafe { oblige!(SHOWN == Some(n) && TIMES == 1, "[C14] the key-value count shown is not the one counted"); }
}
