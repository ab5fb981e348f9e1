//! Random sequential histories against a sorted map.
use crate::alloc::Track;
use crate::{beat, fail, Res, Rng};
use congee::Congee;
use std::collections::BTreeMap;
use std::sync::{Arc, Mutex};

pub fn pool(rng: &mut Rng) -> Vec<usize> {
    let mut v: Vec<u64> = Vec::new();
    let alpha = [0u8, 1, 2, 3, 127, 128, 254, 255];
    let style = rng.below(10);
    if style < 4 {
        let few = rng.chance(50); let n = 2 + rng.below(if few { 6 } else { 60 });
        let mut k = [0u8; 8];
        for b in k.iter_mut() { *b = alpha[rng.below(8)]; }
        v.push(u64::from_be_bytes(k));
        while v.len() < n {
            let mut k = v[rng.below(v.len())].to_be_bytes();
            for _ in 0..1 + rng.below(2) { let p = rng.below(8); k[p] = if rng.chance(70) { alpha[rng.below(8)] } else { rng.next() as u8 }; }
            v.push(u64::from_be_bytes(k));
        }
    } else if style < 9 {
        // fan-out of one byte position, plus a few strangers
        let pos = if rng.chance(40) { 7 } else { rng.below(8) };
        let base = (if rng.chance(50) { 0 } else { rng.next() }).to_be_bytes();
        let n = [5, 17, 20, 49, 52, 60, 256][rng.below(7)];
        let mut bytes: Vec<u8> = (0..=255).collect();
        for i in 0..256 { bytes.swap(i, i + rng.below(256 - i)); }
        for b in &bytes[..n] { let mut k = base; k[pos] = *b; v.push(u64::from_be_bytes(k)); }
        for _ in 0..rng.below(6) { let mut k = base; k[rng.below(8)] = rng.next() as u8; k[pos] = bytes[rng.below(n)]; v.push(u64::from_be_bytes(k)); }
    } else {
        v.extend([0, 1, 255, 256, u64::MAX, u64::MAX - 1, u64::MAX - 256, 1 << 63, (1 << 63) - 1]);
        for _ in 0..rng.below(20) { v.push(rng.next() >> rng.below(64)); }
    }
    v.into_iter().map(|x| x as usize).collect()
}

fn near(rng: &mut Rng, keys: &[usize]) -> usize {
    let k = keys[rng.below(keys.len())];
    match rng.below(6) { 0 => k.wrapping_add(1), 1 => k.wrapping_sub(1), 2 => { let mut b = k.to_be_bytes(); b[rng.below(8)] = rng.next() as u8; usize::from_be_bytes(b) } 3 => if rng.chance(50) { 0 } else { usize::MAX }, _ => k }
}

pub struct T { pub t: Congee<usize, usize, Track>, pub m: BTreeMap<usize, usize>, pub a: Track }

pub fn check_all(x: &T, keys: &[usize], p: &'static str) -> Res {
    let g = x.t.pin();
    for k in keys { if x.t.get(k, &g) != x.m.get(k).copied() { return fail(p, format!("get({k:#x}) gives {:?}, expected {:?}", x.t.get(k, &g), x.m.get(k))); } }
    Ok(())
}
pub fn scan(x: &T, s: usize, e: usize, n: usize) -> Res {
    let g = x.t.pin();
    let mut buf = vec![(0xdead_usize, 0xbeef_usize); n];
    let r = x.t.range(&s, &e, &mut buf, &g);
    let want: Vec<(usize, usize)> = if s < e { x.m.range(s..e).map(|(a, b)| (*a, *b)).collect() } else { vec![] };
    let short = want.len() > n;
    let props = if short || n == 0 { "C05" } else { "C04 C06" };
    let want = &want[..want.len().min(n)];
    if r > n { return fail("C05 C15", format!("range({s:#x}..{e:#x}, buffer {n}) returns {r}")); }
    if &buf[..r] != want {
        let mut ks: Vec<usize> = buf[..r].iter().map(|x| x.0).collect(); ks.dedup();
        let props = if short { "C05 C07" } else { "C04 C06 C07" };
        return fail(props, format!("range({s:#x}..{e:#x}, buffer {n}) gives {:x?}, expected {:x?}", &buf[..r], want));
    }
    if buf[r..].iter().any(|x| *x != (0xdead, 0xbeef)) { return fail("C05", format!("range({s:#x}..{e:#x}, buffer {n}) returns {r} and wrote past it")); }
    let _ = props;
    Ok(())
}
pub fn kv(t: &Congee<usize, usize, Track>) -> usize {
    let s = format!("{}", t.stats());
    s.lines().find_map(|l| l.strip_prefix("KV count: ").map(|x| x.trim().parse().unwrap())).unwrap()
}

pub fn run(prop: &str, rng: &mut Rng, verbose: bool) -> Res {
    let a = Track::new();
    let drained = Arc::new(Mutex::new(Vec::new()));
    let d2 = drained.clone();
    let t: Congee<usize, usize, Track> = Congee::new_with_drainer(a.clone(), move |k, v| d2.lock().unwrap().push((k, v)));
    let mut x = T { t, m: BTreeMap::new(), a: a.clone() };
    let keys = pool(rng);
    let steps = 20 + rng.below(if keys.len() > 50 { 600 } else { 150 });
    let removal = [5, 20, 45][rng.below(3)];
    let p_oom = if prop == "C10" { 25 } else if prop == "C08" || prop == "C11" || prop == "C13" { 8 } else { 0 };
    let r = history(prop, rng, verbose, &mut x, &keys, steps, removal, p_oom);
    if let Err(f) = r { std::mem::forget(x); return Err(f); }
    let T { t, m, a } = x;
    a.s.lock().unwrap().pinned = false;
    drop(t);
    let mut got = drained.lock().unwrap().clone();
    got.sort();
    let want: Vec<(usize, usize)> = m.into_iter().collect();
    if got != want { return fail("C09 C07", format!("dropping the tree drains {got:x?}, expected {want:x?}")); }
    a.finish()
}

fn history(prop: &str, rng: &mut Rng, verbose: bool, x: &mut T, keys: &[usize], steps: usize, removal: usize, p_oom: usize) -> Res {
    const ALL: &str = "C01 C02 C03 C06 C10 C13";
    // with a guard held throughout, no published node may be released before the end
    let hold = if rng.chance(60) { Some(congee::epoch::pin()) } else { None };
    for step in 0..steps {
        beat();
        { let mut s = x.a.s.lock().unwrap(); s.op += 1; s.pinned = hold.is_some(); s.refused = false; s.refuse = if rng.chance(p_oom) { Some(rng.below(3) as u64) } else { None }; }
        let g = x.t.pin();
        let k = if rng.chance(90) { keys[rng.below(keys.len())] } else { near(rng, keys) };
        let old = x.m.get(&k).copied();
        let v = if rng.chance(10) { old.unwrap_or(7) } else if rng.chance(10) { k } else { (step << 8) | 1 };
        let what: &'static str;
        let c = rng.below(100);
        if c < removal {
            if rng.chance(70) {
                if verbose { println!("remove({k:#x})"); }
                let r = x.t.remove(&k, &g);
                x.m.remove(&k);
                if r != old { return fail("C02", format!("remove({k:#x}) returns {r:?}, expected {old:?}")); }
            } else {
                if verbose { println!("compute_if_present({k:#x}, |_| None)"); }
                let mut seen = vec![];
                let r = x.t.compute_if_present(&k, |o| { seen.push(o); None }, &g);
                x.m.remove(&k);
                if r != old.map(|o| (o, None)) { return fail("C02 C03", format!("compute_if_present({k:#x}, |_| None) returns {r:?}, held {old:?}")); }
                if seen != old.into_iter().collect::<Vec<_>>() { return fail("C03", format!("compute_if_present({k:#x}) applied its function to {seen:?}, held {old:?}")); }
            }
            what = "C02 C01 C03 C06";
        } else if c < removal + 8 {
            let nv = if rng.chance(30) { old.unwrap_or(v) } else { v };
            if verbose { println!("compute_if_present({k:#x}, |_| Some({nv:#x}))"); }
            let mut seen = vec![];
            let r = x.t.compute_if_present(&k, |o| { seen.push(o); Some(nv) }, &g);
            if old.is_some() { x.m.insert(k, nv); }
            if r != old.map(|o| (o, Some(nv))) { return fail("C03", format!("compute_if_present({k:#x}, |_| Some({nv:#x})) returns {r:?}, held {old:?}")); }
            if seen != old.into_iter().collect::<Vec<_>>() { return fail("C03", format!("compute_if_present({k:#x}) applied its function to {seen:?}, held {old:?}")); }
            what = "C03 C01";
        } else if c < removal + 14 {
            let want = if rng.chance(60) { old.unwrap_or(v) } else { v };
            let new = if rng.chance(25) { None } else if rng.chance(20) { Some(want) } else if rng.chance(25) { old } else { Some(v) };
            if verbose { println!("compare_exchange({k:#x}, {want:#x}, {new:x?})"); }
            let r = x.t.compare_exchange(&k, &want, new, &g);
            let e = match old { None => Err(None), Some(o) if o == want => Ok(new), Some(o) => Err(Some(o)) };
            if old == Some(want) { match new { None => { x.m.remove(&k); } Some(n) => { x.m.insert(k, n); } } }
            if r != e { return fail("C03", format!("compare_exchange({k:#x}, {want:#x}, {new:x?}) returns {r:x?}, expected {e:x?}")); }
            what = "C03 C01 C02";
        } else if c < removal + 22 {
            if verbose { println!("compute_or_insert({k:#x}, |_| {v:#x})"); }
            let mut seen = vec![];
            let r = x.t.compute_or_insert(k, |o| { seen.push(o); v }, &g);
            let refused = x.a.s.lock().unwrap().refused;
            match r {
                Ok(r) => {
                    x.m.insert(k, v);
                    if r != old { return fail("C03 C01", format!("compute_or_insert({k:#x}) returns {r:?}, held {old:?}")); }
                    if seen != vec![old] { return fail("C03", format!("compute_or_insert({k:#x}) applied its function to {seen:?}, held {old:?}")); }
                    if refused { return fail("C10", "a refused allocation is not reported".into()); }
                }
                Err(_) => if !refused { return fail("C10", "out of memory reported without a refusal".into()); }
            }
            what = if refused { "C10" } else { "C03 C01 C06" };
        } else if c < 92 {
            if verbose { println!("insert({k:#x}, {v:#x})"); }
            let r = x.t.insert(k, v, &g);
            let refused = x.a.s.lock().unwrap().refused;
            match r {
                Ok(r) => {
                    x.m.insert(k, v);
                    if r != old { return fail("C01 C06", format!("insert({k:#x}) returns {r:?}, held {old:?}")); }
                    if refused { return fail("C10", "a refused allocation is not reported".into()); }
                }
                Err(_) => if !refused { return fail("C10 C01", "out of memory reported without a refusal".into()); }
            }
            what = if refused { "C10" } else { "C01 C06" };
        } else if c < 96 {
            let s = near(rng, keys); let e = near(rng, keys);
            let n = if rng.chance(40) { rng.below(4) } else { rng.below(300) };
            if verbose { println!("range({s:#x}, {e:#x}, buffer {n})"); }
            scan(x, s, e, n)?;
            what = ALL;
        } else {
            if verbose { println!("is_empty, stats"); }
            if x.t.is_empty(&g) != x.m.is_empty() { return fail("C14", format!("is_empty gives {} with {} keys", x.t.is_empty(&g), x.m.len())); }
            if kv(&x.t) != x.m.len() { return fail("C14", format!("stats count {} keys, there are {}", kv(&x.t), x.m.len())); }
            what = "C14";
        }
        x.a.s.lock().unwrap().refuse = None;
        drop(g);
        if let Some((p, w)) = x.a.bad() { return fail(p, w); }
        if x.t.get(&k, &x.t.pin()) != x.m.get(&k).copied() { return fail(what, format!("after it get({k:#x}) gives {:?}, expected {:?}", x.t.get(&k, &x.t.pin()), x.m.get(&k))); }
        if step % 24 == 23 || step + 1 == steps || (prop == "C10" && what == "C10") {
            check_all(x, keys, what)?;
            scan(x, 0, usize::MAX, 400)?;
            let s = near(rng, keys); let e = near(rng, keys);
            scan(x, s.min(e), s.max(e), if rng.chance(50) { 400 } else { rng.below(6) })?;
        }
        if rng.chance(2) { for k in keys { let g = x.t.pin(); if x.t.remove(k, &g) != x.m.remove(k) { return fail("C02", format!("remove({k:#x}) while emptying the tree is wrong")); } }
            if verbose { println!("remove everything"); }
            let g = x.t.pin(); let rest: Vec<usize> = x.m.keys().copied().collect(); for k in rest { x.t.remove(&k, &g); x.m.remove(&k); }
            if !x.t.is_empty(&g) { return fail("C14", "is_empty is false after all keys were removed".into()); } }
    }
    x.a.s.lock().unwrap().pinned = false;
    drop(hold);
    Ok(())
}
