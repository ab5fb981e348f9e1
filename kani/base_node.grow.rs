use crate::verif::grow::{Big, Cur, FULL, CUR, BIGGER, ARGS, RESULT, c_insert_grow};
use crate::verif::walk::{abs, any_ptr, any_type, bigger, blank, cap, kb, oblige, qb, AbsNode, GhostAlloc, DISTURBED, ENV, K, MAY_OOM, NALLOC, NDEFER, OOMED, POOL, Q};
use super::walk::{mk_base, raw_prefix};

/// Inserting into a node that may have to grow: the contract the walk of `insert` relies on.
#[kani::proof]
#[kani::stub(crossbeam_epoch::Guard::defer, crate::verif::walk::c_defer)]
#[kani::stub(BaseNode::change, crate::verif::walk::c_change)]
#[kani::stub(crate::lock::ReadGuard::check_version, crate::lock::ReadGuard::c_check_version)]
#[kani::stub(crate::lock::ReadGuard::upgrade, crate::lock::ReadGuard::c_upgrade)]
#[kani::stub(crate::lock::TypedReadGuard::upgrade, crate::lock::TypedReadGuard::c_upgrade)]
#[kani::unwind(9)]
fn insert_grow() {
    let (mut pn, mut cn, mut f0, mut f1, mut f2) = (blank(), blank(), blank(), blank(), blank());
    unsafe { K = kani::any(); Q = kani::any(); POOL = [&mut f0, &mut f1, &mut f2]; ENV = true; MAY_OOM = true; }
    let (lp, lc): (usize, usize) = kani::any();
    kani::assume(lp < lc && lc <= 7);
    let p: Prefix = kani::any();
    // the parent, holding the node under the byte of K; the node, without the byte of K
    let tp = any_type();
    let pc: u16 = kani::any();
    kani::assume(pc >= 1 && pc <= cap(tp));
    pn.base = mk_base(tp, p, lp, pc, 64);
    let c: u16 = kani::any();
    kani::assume(c <= 4);
    cn.base = mk_base(NodeType::N4, p, lc, c, 80);
    pn.pre = true; cn.pre = true;
    pn.has_k = true; pn.k = NodePtr::from_node(&cn.base); pn.has_q = kani::any();
    cn.has_k = false; cn.has_q = kani::any();
    kani::assume(!(cn.has_q && kb(lc) != qb(lc)) || c >= 1);
    let full: bool = kani::any();
    kani::assume(full == (c == 4));
    unsafe { FULL = full; }
    let has_parent: bool = kani::any();
    kani::assume(has_parent || !full);
    let w = kani::any::<usize>();
    let g = unsafe { crossbeam_epoch::unprotected() };
    let (pw, cw): (*const AbsNode, *const AbsNode) = (&pn, &cn);
    let pg = if has_parent { BaseNode::read_lock(NonNull::from(&mut pn.base)).ok() } else { None };
    let cg = BaseNode::read_lock(NonNull::from(&mut cn.base)).ok().unwrap();
    let (oldc, oldq) = (cn.has_q, unsafe { cn.q.as_payload_unchecked() });
    let (poldh, poldq) = (pn.has_q, unsafe { pn.q.as_payload_unchecked() });
    let alloc = GhostAlloc {};
    let r = BaseNode::insert_grow::<Cur, Big, GhostAlloc>(cg.into_typed(), (kb(lp), pg), (kb(lc), NodePtr::from_payload(w)), &alloc, g);
    let (pn, cn) = unsafe { (&*pw, &*cw) };
    // the parent keeps everything but the byte of K
    oblige!(pn.has_k && pn.has_q == poldh && unsafe { pn.q.as_payload_unchecked() } == poldq && pn.base.meta.count == pc, "[C01,C06] growing a node disturbs its parent's other children");
    oblige!(pn.version() & 3 == 0 && !pn.freed, "[C11,C13,C10,C08] the parent stays locked, or is marked dead or released");
    oblige!(!pn.wrote || pn.version() > 67, "[C11,C12] a parent was modified and its version did not advance");
    oblige!(!cn.wrote || cn.version() > 83, "[C11,C12] a node was modified and its version did not advance");
    let cur = pn.k.as_sub().as_ptr() as *const AbsNode;
    if r.is_ok() && full {
        oblige!(!cn.unval, "[C12,C06] a node is copied that was not validated");
        oblige!(unsafe { NALLOC } == 1 && cur == unsafe { POOL[0] } as *const AbsNode, "[C01,C06,C08] the parent does not hold the bigger node");
        let f = unsafe { &*POOL[0] };
        oblige!(f.has_k && unsafe { f.k.as_payload_unchecked() } == w, "[C01,C06] the new child is not in the bigger node");
        oblige!(kb(lc) == qb(lc) || f.has_q == oldc && (!oldc || unsafe { f.q.as_payload_unchecked() } == oldq), "[C01,C06] growing a node loses or changes a child");
        oblige!(f.base.meta.count == c + 1 && f.base.get_type() == NodeType::N16, "[C06,C02] the bigger node counts its children wrongly");
        let (l, fp) = raw_prefix(&f.base);
        let i: usize = kani::any();
        kani::assume(i < lc);
        oblige!(l == lc && fp[i] == p[i], "[C01,C04,C06] the bigger node has another prefix");
        oblige!(f.version() & 3 == 0 && !f.freed, "[C11,C08] the new node is locked, dead or released");
        oblige!(cn.freed && unsafe { NDEFER } == 1, "[C08] the outgrown node is not released");
        oblige!(cn.version() & 1 == 1, "[C11,C08,C12] the outgrown node is not marked dead");
    } else {
        oblige!(cur == cw, "[C13,C10,C06] the parent does not hold the node any more");
        oblige!(!cn.freed && cn.version() & 3 == 0, "[C11,C13,C10,C08] the node stays locked, or is marked dead or released");
        oblige!(kb(lc) == qb(lc) || cn.has_q == oldc && unsafe { cn.q.as_payload_unchecked() } == oldq, "[C01,C06,C13] an insertion disturbs another child");
        if r.is_ok() {
            oblige!(cn.has_k && unsafe { cn.k.as_payload_unchecked() } == w && cn.base.meta.count == c + 1, "[C01,C06] the new child is not in the node");
            oblige!(unsafe { NALLOC } == 0, "[C08] a node is allocated needlessly and lost");
        } else {
            oblige!(!cn.has_k && cn.base.meta.count == c, "[C13,C10,C01] a failed insertion left something behind");
            let f = unsafe { &*POOL[0] };
            oblige!(unsafe { NALLOC } == 0 || f.freed && unsafe { NALLOC } == 1, "[C08,C10,C13] what a failed insertion allocated is not given back");
        }
    }
    match r {
        Err(ArtError::Oom) => { oblige!(unsafe { OOMED } && full, "[C10] out of memory reported without a failed allocation"); }
        Err(_) => { oblige!(unsafe { DISTURBED }, "[C01,C13] an undisturbed insertion fails"); }
        Ok(()) => { oblige!(!unsafe { OOMED }, "[C10,C06] a failed allocation is overlooked"); }
    }
    kani::cover!(r_is(&r, 0) && full);
    kani::cover!(r_is(&r, 1));
}
fn r_is(r: &Result<(), ArtError>, k: u8) -> bool { match r { Ok(()) => k == 0, Err(ArtError::Oom) => k == 1, _ => k == 2 } }

#[repr(C)] struct Room { base: BaseNode, room: [u64; 280] }
/// Every node type grows into the next bigger one, and the arguments are passed on.
#[kani::proof]
#[kani::stub(BaseNode::insert_grow, c_insert_grow)]
fn dispatch() {
    let (mut pn, mut cn) = (blank(), Room { base: BaseNode::new(NodeType::N4, &[]), room: [0; 280] });
    let t = any_type();
    pn.base = mk_base(NodeType::N256, [0; 8], 0, 1, 64);
    cn.base = mk_base(t, [0; 8], 1, 1, 64);
    let a = &cn.base as *const BaseNode as usize;
    let (pk, ck, w): (u8, u8, usize) = kani::any();
    let has: bool = kani::any();
    unsafe { RESULT = kani::any::<u8>() & 3; }
    let pg = if has { BaseNode::read_lock(NonNull::from(&mut pn.base)).ok() } else { None };
    let cg = BaseNode::read_lock(NonNull::from(&mut cn.base)).ok().unwrap();
    let g = unsafe { crossbeam_epoch::unprotected() };
    let alloc = GhostAlloc {};
    let r = BaseNode::insert_and_unlock(cg, (pk, pg), (ck, NodePtr::from_payload(w)), &alloc, g);
    unsafe {
        oblige!(CUR == Some(t), "[C06,C15] a node is taken for another type");
        oblige!(t == NodeType::N256 || BIGGER == Some(bigger(t)), "[C06,C15,C01] a node does not grow into the next bigger type");
        oblige!(ARGS == (a, pk, has, ck, w), "[C06,C01] the arguments of an insertion are mixed up");
        oblige!(match r { Ok(()) => RESULT == 0, Err(ArtError::Oom) => RESULT == 1, Err(ArtError::Locked) => RESULT == 2, Err(ArtError::VersionNotMatch) => RESULT == 3 }, "[C06,C10,C13] the result of an insertion is changed");
    }
}
