use crate::base_node::verif::prefix::mk;
use crate::utils::verif::bound::{tracker, parts};
macro_rules! oblige {
    ($c:expr, $m:literal) => { if !($c) && kani::any() { assert!(false, $m); } };
}
fn num(b: &[u8; 8]) -> u64 { u64::from_be_bytes(*b) }
fn scan_of<'a>(s: &'a [u8; 8], e: &'a [u8; 8], buf: &'a mut [([u8; 8], usize)]) -> RangeScan<'a, 8> { RangeScan::new(s, e, buf, NonNull::dangling()) }

/// The prefix of a node below a path of `from` bytes, against the same bytes of a bound.
fn compare(from: usize, pl: usize) {
    let (k, p, data, s, e): ([u8; 8], [u8; 8], [u8; 8], [u8; 8], [u8; 8]) = kani::any();
    let b = mk(p, pl);
    let mut t = tracker(from, data);
    let mut buf = [([0u8; 8], 0usize); 1];
    let r = scan_of(&s, &e, &mut buf).check_prefix_compare(&b, &k, kani::any(), &mut t);
    let mut want = cmp::Ordering::Equal;
    let mut i = 7;
    while i > 0 { i -= 1; if i >= from && i < pl { if p[i] < k[i] { want = cmp::Ordering::Less; } if p[i] > k[i] { want = cmp::Ordering::Greater; } } }
    oblige!(r == want, "[C04] the prefix of a node is compared with a bound wrongly");
    let (n, d) = parts(&t);
    let i: usize = kani::any();
    kani::assume(i < 8);
    oblige!(n == pl && (i >= pl || d[i] == if i < from { data[i] } else { p[i] }), "[C04] a scan loses track of the path to a node");
}
fn equals(from: usize, pl: usize) {
    let (p, data, s, e): ([u8; 8], [u8; 8], [u8; 8], [u8; 8]) = kani::any();
    let b = mk(p, pl);
    let mut t = tracker(from, data);
    let mut buf = [([0u8; 8], 0usize); 1];
    let r = scan_of(&s, &e, &mut buf).check_prefix_equals(&b, &mut t);
    let mut want = 0;
    let mut i = 7;
    while i > 0 { i -= 1; if i >= from && i < pl && !(p[i] == s[i] && p[i] == e[i]) { want = if p[i] >= s[i] && p[i] <= e[i] { 1 } else { 2 }; } }
    let got = match r { PrefixCheckEqualsResult::BothMatch => 0, PrefixCheckEqualsResult::Contained => 1, PrefixCheckEqualsResult::NotMatch => 2 };
    oblige!(got == want, "[C04] the prefix of a node is compared with the bounds wrongly");
    let (n, d) = parts(&t);
    let i: usize = kani::any();
    kani::assume(i < 8);
    oblige!(got == 2 || n == pl && (i >= pl || d[i] == if i < from { data[i] } else { p[i] }), "[C04] a scan loses track of the path to a node");
}
fn compare_all(from: usize) { let mut pl = from; while pl <= 7 { compare(from, pl); pl += 1; } }
fn equals_all(from: usize) { let mut pl = from; while pl <= 7 { equals(from, pl); pl += 1; } }
macro_rules! bounds { ($($n:literal $c:ident $e:ident)*) => { $(
    #[kani::proof] #[kani::unwind(9)] fn $c() { compare_all($n) }
    #[kani::proof] #[kani::unwind(9)] fn $e() { equals_all($n) }
)* } }
bounds! { 0 compare_0 equals_0 1 compare_1 equals_1 2 compare_2 equals_2 3 compare_3 equals_3 4 compare_4 equals_4 5 compare_5 equals_5 6 compare_6 equals_6 7 compare_7 equals_7 }

/// A new scan, and what counts as an interval.
#[kani::proof] #[kani::unwind(9)]
fn interval() {
    let (s, e): ([u8; 8], [u8; 8]) = kani::any();
    let mut buf = [([0u8; 8], 0usize); 2];
    let len: usize = kani::any();
    kani::assume(len <= 2);
    let r = scan_of(&s, &e, &mut buf[..len]);
    oblige!(r.is_valid_key_pair() == (num(&s) < num(&e)), "[C04] an interval is taken for empty, or an empty one for an interval");
    oblige!(num(r.start) == num(&s) && num(r.end) == num(&e) && r.result.len() == len, "[C04,C05] a scan is set up with other bounds than asked for");
}
/// One key is reported: into the next free entry, if it is in the interval and there is one.
#[kani::proof] #[kani::unwind(9)]
fn write_result() {
    let (s, e, k): ([u8; 8], [u8; 8], [u8; 8]) = kani::any();
    let v: usize = kani::any();
    let mut buf: [([u8; 8], usize); 4] = kani::any();
    let before = buf;
    let (len, found): (usize, usize) = kani::any();
    kani::assume(len <= 4 && found <= len);
    let stop: bool = kani::any();
    let mut r = scan_of(&s, &e, &mut buf[..len]);
    r.result_found = found;
    r.to_continue = stop;
    r.write_result(v, &tracker(8, k));
    let (f, c) = (r.result_found, r.to_continue);
    let inside = num(&s) <= num(&k) && num(&k) < num(&e);
    let put = inside && found < len;
    oblige!(f == if put { found + 1 } else { found }, "[C04,C05] the number of keys found is wrong");
    oblige!(c == (stop || inside && !put), "[C05,C04] a scan does not stop when the buffer is full, or stops too early");
    let i: usize = kani::any();
    kani::assume(i < 4);
    if put && i == found { oblige!(num(&buf[i].0) == num(&k) && buf[i].1 == v, "[C04,C05] a key in the interval is not reported with its value"); }
    else { oblige!(num(&buf[i].0) == num(&before[i].0) && buf[i].1 == before[i].1, "[C05,C04] a scan overwrites another entry than the next free one"); }
}
