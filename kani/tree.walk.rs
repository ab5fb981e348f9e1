use crate::verif::walk::{World, world_of, blank, verif_world, lookup_before, lookup_after, check_frame, End, GhostAlloc, oblige, used};
use crate::verif::walk::{K, Q, ENV, DISTURBED, MAY_OOM, OOMED, MAX_ATTEMPTS};
use std::mem::ManuallyDrop;

fn tree(w: &World) -> ManuallyDrop<RawCongee<8, GhostAlloc>> {
    ManuallyDrop::new(RawCongee { root: unsafe { NonNull::new_unchecked(w.n[0] as *mut Node256) }, drain_callback: Arc::new(|_k, _v| {}), allocator: GhostAlloc {}, _pt_key: PhantomData })
}

macro_rules! walks {
    ($body:ident; $($h:ident = $d:literal $e:ident;)*) => { $(
        #[kani::proof]
        #[kani::stub(crate::base_node::BaseNode::get_child, crate::verif::walk::c_get_child)]
        #[kani::stub(crate::node_ptr::NodePtr::downcast, crate::node_ptr::NodePtr::c_downcast)]
        #[kani::stub(crate::base_node::BaseNode::change, crate::verif::walk::c_change)]
        #[kani::stub(crate::base_node::BaseNode::remove, crate::verif::walk::c_remove)]
        #[kani::stub(<crate::node_4::Node4 as crate::base_node::Node>::insert, crate::verif::walk::c_insert4)]
        #[kani::stub(crate::base_node::BaseNode::insert_and_unlock, crate::verif::walk::c_insert_and_unlock)]
        #[kani::stub(crossbeam_epoch::Guard::defer, crate::verif::walk::c_defer)]
        #[kani::stub(RawCongee::check_prefix, RawCongee::c_check_prefix)]
        #[kani::stub(RawCongee::check_prefix_not_match, RawCongee::c_check_prefix_not_match)]
        #[kani::stub(crate::base_node::BaseNode::read_lock, crate::verif::walk::c_read_lock)]
        #[kani::stub(crate::base_node::BaseNode::read_lock_root, crate::verif::walk::c_read_lock_root)]
        #[kani::stub(crate::lock::ReadGuard::check_version, crate::lock::ReadGuard::c_check_version)]
        #[kani::stub(crate::lock::ReadGuard::upgrade, crate::lock::ReadGuard::c_upgrade)]
        #[kani::stub(crate::base_node::BaseNode::value_count, crate::verif::walk::c_value_count)]
        #[kani::unwind(9)]
        fn $h() { $body($d, End::$e); }
    )* }
}

fn get(d: usize, e: End) {
    verif_world!(w, d, e);
    let t = tree(&w);
    let g = unsafe { crossbeam_epoch::unprotected() };
    unsafe { ENV = true; MAX_ATTEMPTS = 2; }
    let r = t.get(unsafe { &K }, g);
    oblige!(r == lookup_before(&w, false), "[C01,C12] a lookup returns something else than the key's value");
    check_frame(&w, true);
    kani::cover!(true);
}

/// One attempt to store under K, with interference and allocation failure.
fn insert(d: usize, e: End) {
    verif_world!(w, d, e);
    let t = tree(&w);
    let g = unsafe { crossbeam_epoch::unprotected() };
    let v: usize = kani::any();
    let old = lookup_before(&w, false);
    let oldq = lookup_before(&w, true);
    unsafe { ENV = true; MAY_OOM = true; }
    let mut calls = 0;
    let mut arg = None;
    let r = t.insert_inner(unsafe { &K }, &mut |o| { calls += 1; arg = o; used(); v }, g);
    unsafe { ENV = false; }
    let nq = lookup_after(&w);
    let same = unsafe { K == Q };
    let ok = r.is_ok();
    match r {
        Ok(o) => {
            oblige!(o == old, "[C01,C03] the replaced value that is reported is not the old one");
            oblige!(calls == 1 && arg == old, "[C03] the function is not applied once to the current value");
            oblige!(nq == if same { Some(v) } else { oldq }, "[C01,C03,C06] after a store some key does not map to what it should");
        }
        Err(ArtError::Oom) => {
            oblige!(unsafe { OOMED }, "[C10] out of memory reported without a failed allocation");
            oblige!(nq == oldq, "[C10,C01] a store that ran out of memory changed the tree");
        }
        Err(_) => {
            oblige!(unsafe { DISTURBED }, "[C01,C13] an undisturbed attempt fails");
            oblige!(nq == oldq, "[C13,C01] an abandoned store changed the tree");
        }
    }
    check_frame(&w, ok);
}

/// One attempt to update or remove K.
fn compute(d: usize, e: End) {
    verif_world!(w, d, e);
    let t = tree(&w);
    let g = unsafe { crossbeam_epoch::unprotected() };
    let nv: Option<usize> = if kani::any() { Some(kani::any()) } else { None };
    let old = lookup_before(&w, false);
    let oldq = lookup_before(&w, true);
    unsafe { ENV = true; }
    let mut calls = 0;
    let mut arg = 0;
    let r = t.compute_if_present_inner(unsafe { &K }, &mut |o| { calls += 1; arg = o; used(); nv }, g);
    unsafe { ENV = false; }
    let nq = lookup_after(&w);
    let same = unsafe { K == Q };
    let ok = r.is_ok();
    match r {
        Ok(None) => {
            oblige!(old.is_none(), "[C02,C03] a present key is reported absent");
            oblige!(calls == 0, "[C03] the function is applied to an absent key");
            oblige!(nq == oldq, "[C02,C03] an update of an absent key changed the tree");
        }
        Ok(Some((o, n))) => {
            oblige!(old == Some(o), "[C02,C03] the old value that is reported is not the key's value");
            oblige!(n == nv, "[C02,C03] the new value that is reported is not the function's result");
            oblige!(calls == 1 && old == Some(arg), "[C03] the function is not applied once to the current value");
            oblige!(nq == if same { nv } else { oldq }, "[C02,C03,C06] after an update some key does not map to what it should");
        }
        Err(ArtError::Oom) => oblige!(false, "[C02,C03] an update runs out of memory"),
        Err(_) => {
            oblige!(unsafe { DISTURBED }, "[C02,C13] an undisturbed attempt fails");
            oblige!(nq == oldq, "[C13,C02] an abandoned update changed the tree");
        }
    }
    check_frame(&w, ok);
}

walks! { get; get_0a = 0 Absent; get_1m = 1 Mismatch; get_1a = 1 Absent; get_1l = 1 Leaf; get_2m = 2 Mismatch; get_2a = 2 Absent; get_2l = 2 Leaf;
  get_3m = 3 Mismatch; get_3a = 3 Absent; get_3l = 3 Leaf; get_4m = 4 Mismatch; get_4a = 4 Absent; get_4l = 4 Leaf;
  get_5m = 5 Mismatch; get_5a = 5 Absent; get_5l = 5 Leaf; get_6m = 6 Mismatch; get_6a = 6 Absent; get_6l = 6 Leaf;
  get_7m = 7 Mismatch; get_7a = 7 Absent; get_7l = 7 Leaf; }
walks! { insert; ins_0a = 0 Absent; ins_1m = 1 Mismatch; ins_1a = 1 Absent; ins_1l = 1 Leaf; ins_2m = 2 Mismatch; ins_2a = 2 Absent; ins_2l = 2 Leaf;
  ins_3m = 3 Mismatch; ins_3a = 3 Absent; ins_3l = 3 Leaf; ins_4m = 4 Mismatch; ins_4a = 4 Absent; ins_4l = 4 Leaf;
  ins_5m = 5 Mismatch; ins_5a = 5 Absent; ins_5l = 5 Leaf; ins_6m = 6 Mismatch; ins_6a = 6 Absent; ins_6l = 6 Leaf;
  ins_7m = 7 Mismatch; ins_7a = 7 Absent; ins_7l = 7 Leaf; }
walks! { compute; cmp_0a = 0 Absent; cmp_1m = 1 Mismatch; cmp_1a = 1 Absent; cmp_1l = 1 Leaf; cmp_2m = 2 Mismatch; cmp_2a = 2 Absent; cmp_2l = 2 Leaf;
  cmp_3m = 3 Mismatch; cmp_3a = 3 Absent; cmp_3l = 3 Leaf; cmp_4m = 4 Mismatch; cmp_4a = 4 Absent; cmp_4l = 4 Leaf;
  cmp_5m = 5 Mismatch; cmp_5a = 5 Absent; cmp_5l = 5 Leaf; cmp_6m = 6 Mismatch; cmp_6a = 6 Absent; cmp_6l = 6 Leaf;
  cmp_7m = 7 Mismatch; cmp_7a = 7 Absent; cmp_7l = 7 Leaf; }
