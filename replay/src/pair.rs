//! Two overlapping operations: the second runs, on another thread, at a chosen moment inside
//! the first (its function, or the allocator).  The outcome must be that of one order.
use crate::alloc::Track;
use crate::seq::{kv, pool};
use crate::{beat, fail, Res, Rng};
use congee::Congee;
use std::collections::BTreeMap;
use std::sync::{mpsc, Arc, Mutex};
use std::time::Duration;

type Tree = Congee<usize, usize, Track>;
#[derive(Clone, Copy, Debug)]
enum Op { Ins(usize, usize), Rem(usize), Get(usize), Cmp(usize, usize), CoI(usize, usize) }
type Out = Result<Option<usize>, ()>;
fn apply(m: &mut BTreeMap<usize, usize>, o: Op) -> Out {
    match o {
        Op::Ins(k, v) | Op::CoI(k, v) => Ok(m.insert(k, v)),
        Op::Rem(k) => Ok(m.remove(&k)),
        Op::Get(k) => Ok(m.get(&k).copied()),
        Op::Cmp(k, v) => { let o = m.get(&k).copied(); if o.is_some() { m.insert(k, v); } Ok(o) }
    }
}
fn exec(t: &Tree, o: Op, f: &mut dyn FnMut()) -> Out {
    let g = t.pin();
    match o {
        Op::Ins(k, v) => t.insert(k, v, &g).map_err(|_| ()),
        Op::CoI(k, v) => t.compute_or_insert(k, |_| { f(); v }, &g).map_err(|_| ()),
        Op::Rem(k) => t.compute_if_present(&k, |_| { f(); None }, &g).map(|x| x.0).map_or(Ok(None), |x| Ok(Some(x))),
        Op::Get(k) => Ok(t.get(&k, &g)),
        Op::Cmp(k, v) => Ok(t.compute_if_present(&k, |_| { f(); Some(v) }, &g).map(|x| x.0)),
    }
}
struct Shared(Arc<Tree>);
unsafe impl Send for Shared {}

pub fn run(prop: &str, rng: &mut Rng, verbose: bool) -> Res {
    let _ = prop;
    let a = Track::new();
    let t = Arc::new(Tree::new(a.clone()));
    let mut keys = pool(rng);
    if rng.chance(60) { keys.truncate(20); }
    let mut m = BTreeMap::new();
    let fill = rng.below(keys.len() + 1);
    for k in &keys[..fill] { t.insert(*k, *k ^ 5, &t.pin()).map_err(|_| ()).unwrap(); m.insert(*k, *k ^ 5); }
    // empty some again, so that shapes with few entries occur
    for k in &keys[..fill] { if rng.chance(25) { t.remove(k, &t.pin()); m.remove(k); } }
    let (tx, rx) = mpsc::channel::<Op>();
    let (otx, orx) = mpsc::channel::<Out>();
    let sh = Shared(t.clone());
    let worker = std::thread::spawn(move || { let sh = sh; while let Ok(o) = rx.recv() { let _ = otx.send(exec(&sh.0, o, &mut || ())); } });
    let mut res = Ok(());
    for _ in 0..12 + rng.below(20) {
        beat();
        let pick = |rng: &mut Rng, near: Option<usize>| { match near { Some(k) if rng.chance(40) => k, _ => keys[rng.below(keys.len())] } };
        let mk = |rng: &mut Rng, k: usize| match rng.below(6) { 0 => Op::Rem(k), 1 => Op::Cmp(k, rng.below(1000)), 2 | 3 => Op::CoI(k, rng.below(1000)), _ => Op::Ins(k, rng.below(1000)) };
        let ka = pick(rng, None);
        let oa = mk(rng, ka);
        let kb = pick(rng, Some(ka));
        let ob = if rng.chance(30) { Op::Rem(kb) } else { mk(rng, kb) };
        if verbose { println!("{oa:x?} interrupted by {ob:x?}"); }
        let started = Arc::new(Mutex::new((false, None)));
        let (s2, tx2) = (started.clone(), tx.clone());
        let orx = &orx;
        let tries = rng.below(2);
        if rng.chance(50) {
            let s3 = s2.clone(); let tx3 = tx2.clone();
            // from inside the allocator there is nothing to wait on but time
            *a.hook.lock().unwrap() = Some(Box::new(move || { { let mut g = s3.lock().unwrap(); if g.0 { return; } g.0 = true; } let _ = tx3.send(ob); std::thread::sleep(Duration::from_micros(500)); }));
        }
        let mut calls = 0;
        let ra = exec(&t, oa, &mut || {
            calls += 1;
            if calls - 1 != tries { return; }
            { let mut g = s2.lock().unwrap(); if g.0 { return; } g.0 = true; }
            let _ = tx2.send(ob);
            if let Ok(o) = orx.recv_timeout(Duration::from_millis(2)) { s2.lock().unwrap().1 = Some(o); }
        });
        *a.hook.lock().unwrap() = None;
        let (st, got) = *started.lock().unwrap();
        let mut rb = got;
        if st && rb.is_none() {
            match orx.recv_timeout(Duration::from_secs(20)) { Ok(o) => rb = Some(o), Err(_) => { res = fail("C11 C13 C12 C17", format!("{oa:x?} interrupted by {ob:x?}: the second operation never ends")); break; } }
        }
        let mut ab = m.clone(); let r1 = (apply(&mut ab, oa), if st { Some(apply(&mut ab, ob)) } else { None });
        let mut ba = m.clone(); let r2 = { let b = if st { Some(apply(&mut ba, ob)) } else { None }; (apply(&mut ba, oa), b) };
        let now: BTreeMap<usize, usize> = keys.iter().filter_map(|k| t.get(k, &t.pin()).map(|v| (*k, v))).collect();
        if (ra, rb) == r1 && now == ab { m = ab; } else if (ra, rb) == r2 && now == ba { m = ba; }
        else { res = fail("C12 C13 C11 C03", format!("{oa:x?} -> {ra:x?} interrupted by {ob:x?} -> {rb:x?} is no serial outcome; before {m:x?} after {now:x?}")); break; }
        if kv(&t) != m.len() { res = fail("C12 C13 C14", format!("{oa:x?} interrupted by {ob:x?}: {} entries for {} keys", kv(&t), m.len())); break; }
        if let Some((p, w)) = a.bad() { res = fail(p, w); break; }
    }
    if res.is_err() { std::mem::forget(worker); std::mem::forget(t); return res; }
    drop(tx);
    worker.join().unwrap();
    drop(t);
    a.finish()
}
