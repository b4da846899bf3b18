//! MaybeUtf8, Parameters, Global, Host, Link and check_path against plain models.
use std::borrow::Cow;
use std::cmp::Ordering;
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeMap, HashMap};
use std::hash::{Hash, Hasher};
use std::net::{Ipv4Addr, Ipv6Addr, SocketAddr, SocketAddrV4, SocketAddrV6};
use std::path::{Component, Path, PathBuf};

use rustful::context::hypermedia::{Link, LinkSegment, SegmentType};
use rustful::context::{MaybeUtf8, MaybeUtf8Owned, MaybeUtf8Slice, Parameters};
use rustful::server::{Global, Host};
use serde_json::{json, Value};

use crate::gen::{b2s, hash, s2b, words, Gen, Stats};
use crate::Prop;

type B = Vec<u8>;
fn err<T>(s: String) -> Result<T, String> { Err(s) }
fn show(b: &[u8]) -> String { format!("{:?} ({:02x?})", String::from_utf8_lossy(b), b) }

// ---------------------------------------------------------------- P10
fn examine(m: &MaybeUtf8Owned, want: &[u8], what: &str) -> Result<(), String> {
    let ok = std::str::from_utf8(want).is_ok();
    if m.as_bytes() != want { return err(format!("after {}: bytes are {}, should be {}", what, show(m.as_bytes()), show(want))) }
    if m.is_utf8() != ok { return err(format!("after {}: is_utf8 is {} for {}", what, m.is_utf8(), show(want))) }
    if m.as_utf8().map(|s| s.as_bytes()) != std::str::from_utf8(want).ok().map(|s| s.as_bytes()) { return err(format!("after {}: as_utf8 is {:?} for {}", what, m.as_utf8(), show(want))) }
    if m.as_utf8_lossy() != String::from_utf8_lossy(want) { return err(format!("after {}: as_utf8_lossy is {:?} for {}", what, m.as_utf8_lossy(), show(want))) }
    if matches!(m, MaybeUtf8::Utf8(_)) != ok { return err(format!("after {}: the wrong variant for {}", what, show(want))) }
    let s: MaybeUtf8Slice = m.as_slice();
    if s.as_bytes() != want || s.is_utf8() != ok || s.as_utf8_lossy() != String::from_utf8_lossy(want) { return err(format!("after {}: as_slice is {:?} for {}", what, s, show(want))) }
    if &m[..] != want || AsRef::<[u8]>::as_ref(m) != want || std::borrow::Borrow::<[u8]>::borrow(m) != want { return err(format!("after {}: a byte view differs from {}", what, show(want))) }
    let v: B = m.clone().into();
    if v != want { return err(format!("after {}: into Vec gives {} for {}", what, show(&v), show(want))) }
    let st: String = m.clone().into();
    if st != String::from_utf8_lossy(want) { return err(format!("after {}: into String gives {:?} for {}", what, st, show(want))) }
    let v: B = s.clone().into();
    if v != want { return err(format!("after {}: slice into Vec gives {}", what, show(&v))) }
    let st: String = s.into();
    if st != String::from_utf8_lossy(want) { return err(format!("after {}: slice into String gives {:?} for {}", what, st, show(want))) }
    let again: MaybeUtf8Owned = v.into();
    if again.is_utf8() != ok || again.as_bytes() != want { return err(format!("from Vec: {:?} for {}", again, show(want))) }
    Ok(())
}
fn ch(v: &Value) -> char { v.as_u64().and_then(|u| std::char::from_u32(u as u32)).unwrap_or('a') }
fn check_p10(case: &Value, st: &mut Stats) -> Result<(), String> {
    let b = s2b(&case["start"]);
    let s = String::from_utf8(b.clone());
    let mut want = b.clone();
    let mut m: MaybeUtf8Owned = match (case["from"].as_str().unwrap_or(""), s) {
        ("string", Ok(s)) => s.into(),
        ("str", Ok(s)) => (&s[..]).into(),
        ("slice", Ok(s)) => { let sl: MaybeUtf8Slice = (&s[..]).into(); if sl.as_bytes() != &b[..] || !sl.is_utf8() { return err(format!("&str into a slice: {:?}", sl)) } let v: B = sl.into(); v.into() }
        ("new", _) => { want.clear(); let sl = MaybeUtf8Slice::new(); if !sl.as_bytes().is_empty() || !sl.is_utf8() { return err(format!("new slice: {:?}", sl)) } MaybeUtf8Owned::new() }
        _ => b.into(),
    };
    examine(&m, &want, "creation")?;
    for (i, op) in case["ops"].as_array().into_iter().flatten().enumerate() {
        let what = format!("step {} {}", i, op);
        match op[0].as_str().unwrap_or("") {
            "char" => { let c = ch(&op[1]); m.push_char(c); let mut t = [0; 4]; want.extend_from_slice(c.encode_utf8(&mut t).as_bytes()) }
            "byte" => { let x = op[1].as_u64().unwrap_or(0) as u8; m.push_byte(x); want.push(x) }
            "bytes" => { let x = s2b(&op[1]); m.push_bytes(&x); want.extend(x) }
            "str" => { let x = String::from_utf8_lossy(&s2b(&op[1])).into_owned(); m.push_str(&x); want.extend(x.as_bytes()) }
            "clone" => { let c = m.clone(); m = c }
            "round" => { let v: B = m.into(); m = v.into() }
            "buf" => {
                let mut buf = m.as_buffer();
                for e in op[1].as_array().into_iter().flatten() {
                    match e[0].as_str().unwrap_or("") {
                        "char" => { let c = ch(&e[1]); buf.push_char(c); let mut t = [0; 4]; want.extend_from_slice(c.encode_utf8(&mut t).as_bytes()) }
                        "bytes" => { let x = s2b(&e[1]); buf.push_bytes(&x); want.extend(x) }
                        "byte" => { let x = e[1].as_u64().unwrap_or(0) as u8; buf.push(x); want.push(x) }
                        "cut" => { let n = e[1].as_u64().unwrap_or(0) as usize; buf.truncate(n); want.truncate(n) }
                        "pop" => { if buf.pop() != want.pop() { return err(format!("{}: pop differs", what)) } }
                        "clear" => { buf.clear(); want.clear() }
                        _ => { let n = want.len() / 2; buf.insert(n, 0x41); want.insert(n, 0x41) }
                    }
                    if &**buf != &want[..] { return err(format!("{}: the buffer holds {}, should be {}", what, show(&buf), show(&want))) }
                }
            }
            _ => {}
        }
        examine(&m, &want, &what)?;
        st.eval(hash(&format!("{:?}", (&want[want.len().saturating_sub(4)..], want.len().min(40)))));
    }
    Ok(())
}
pub const FRAG: &[&[u8]] = &[b"a", b"", b"+", b"%", b"/", b"\xc3\xa9", b"\xe2\x82\xac", b"\xf0\x9f\x98\x80", b"\xe2", b"\xe2\x82", b"\x82\xac", b"\xac", b"\xc3", b"\xa9", b"\x80", b"\xff", b"\xed\xa0\x80", b"\xc0\xaf",
    b"\xf4\x90\x80\x80", b"\xf4\x8f\xbf\xbf", b"\xf0\x9f", b"\x98\x80", b"\xe0\x80\x80", b"\xe0\xa0\x80", b"\xf0", b"\xef\xbf\xbd", b"\0", b"abcdefghijklmnopqrstuvwxyz0123456789"];
const CHARS: &[u32] = &[0x61, 0, 0x7f, 0x80, 0xe9, 0x7ff, 0x800, 0x20ac, 0xd7ff, 0xe000, 0xfffd, 0xffff, 0x10000, 0x1f600, 0x10ffff];
pub fn frag(g: &mut Gen) -> B {
    match g.below(10) {
        0 => { let n = g.below(6); (0..n).map(|_| g.below(256) as u8).collect() }
        1 if !g.lits.is_empty() => { let i = g.below(g.lits.len()); g.lits[i].clone() }
        2 => { let n = 1 + g.below(3); let mut v = vec![]; for _ in 0..n { v.extend_from_slice(*g.pick(FRAG)) } v }
        3 => { let n = *g.pick(&[15usize, 16, 22, 23, 24, 31, 32, 63, 64, 127, 128, 255, 256]); let mut v = vec![b'x'; n]; v.extend_from_slice(*g.pick(FRAG)); v }
        _ => g.pick(FRAG).to_vec(),
    }
}
fn rop(g: &mut Gen, buf: bool) -> Value {
    match g.below(if buf { 8 } else { 10 }) {
        0 | 1 => json!(["char", *g.pick(CHARS)]),
        2 | 3 => json!(["byte", if g.chance(1, 2) { let f = frag(g); f.first().cloned().unwrap_or(0x80) } else { g.below(256) as u8 }]),
        4 | 5 => json!(["bytes", b2s(&frag(g))]),
        6 if buf => json!(["cut", g.below(12)]),
        7 if buf => match g.below(3) { 0 => json!(["pop"]), 1 => json!(["clear"]), _ => json!(["mid"]) },
        6 => json!(["str", b2s(&frag(g))]),
        7 => { let n = g.below(4); json!(["buf", (0..n).map(|_| rop(g, true)).collect::<Vec<_>>()]) }
        8 => json!(["round"]),
        _ => json!(["clone"]),
    }
}
fn gen_p10(g: &mut Gen) {
    for n in g.sizes(10_001) {
        let (a, e) = ("a".repeat(n), "\u{c3}\u{a9}".repeat(n));
        for s in &[&a, &e] { for op in &[json!(["byte", 0xc3]), json!(["char", 'x']), json!(["bytes", "\u{a9}"]), json!(["bytes", e]), json!(["str", a]), json!(["round"]), json!(["buf", [["bytes", a], ["cut", 3]]])] {
            if !g.each(|| json!({"from": "vec", "start": s, "ops": [op, ["clone"]]})) { return }
        } }
    }
    for w in words(&[0x61u8, 0xc3, 0xa9, 0xe2, 0x82, 0xac, 0xf0, 0x9f, 0x80], 3) {
        if !g.each(|| json!({"from": "new", "ops": w.iter().map(|b| json!(["byte", b])).collect::<Vec<_>>()})) { return }
    }
    for a in FRAG { for b in FRAG { for k in ["bytes", "str", "buf"] {
        if !g.each(|| { let op = if k == "buf" { json!(["buf", [["bytes", b2s(b)]]]) } else { json!([k, b2s(b)]) }; json!({"from": "vec", "start": b2s(a), "ops": [op]}) }) { return }
    } } for c in CHARS { for k in 0..2 {
        if !g.each(|| json!({"from": "vec", "start": b2s(a), "ops": [if k == 0 { json!(["char", c]) } else { json!(["buf", [["char", c]]]) }]})) { return }
    } } }
    g.small_scope_done();
    loop {
        let from = *g.pick(&["string", "str", "slice", "new", "vec", "vec", "vec"]);
        let n = g.below(7);
        let (s, ops) = (frag(g), (0..n).map(|_| rop(g, false)).collect::<Vec<_>>());
        if !g.emit(json!({"from": from, "start": b2s(&s), "ops": ops})) { return }
    }
}

// ---------------------------------------------------------------- P11
#[derive(Default, PartialEq, Debug)]
struct Rec(Vec<String>);
impl Hasher for Rec {
    fn finish(&self) -> u64 { 0 }
    fn write(&mut self, b: &[u8]) { self.0.push(format!("{:?}", b)) }
    fn write_u8(&mut self, i: u8) { self.0.push(format!("u8 {}", i)) }
    fn write_usize(&mut self, i: usize) { self.0.push(format!("usize {}", i)) }
}
fn h<T: Hash + ?Sized>(t: &T) -> (u64, Rec) { let mut d = DefaultHasher::new(); t.hash(&mut d); let mut r = Rec::default(); t.hash(&mut r); (d.finish(), r) }
fn pair<A: PartialEq<C> + PartialOrd<C> + ?Sized, C: PartialEq<A> + PartialOrd<A> + ?Sized>(a: &A, c: &C, eq: bool, ord: Ordering, what: &str, x: &[u8], y: &[u8]) -> Result<(), String> {
    let bad = |op: &str| err(format!("{}: {} is wrong for {} and {}", what, op, show(x), show(y)));
    if (a == c) != eq { return bad("==") }
    if (a != c) == eq { return bad("!=") }
    if (c == a) != eq { return bad("== with the sides swapped") }
    if (c != a) == eq { return bad("!= with the sides swapped") }
    if a.partial_cmp(c) != Some(ord) { return bad(&format!("partial_cmp ({:?})", a.partial_cmp(c))) }
    if c.partial_cmp(a) != Some(ord.reverse()) { return bad(&format!("partial_cmp with the sides swapped ({:?})", c.partial_cmp(a))) }
    if (a < c) != (ord == Ordering::Less) || (a <= c) != (ord != Ordering::Greater) || (a > c) != (ord == Ordering::Greater) || (a >= c) != (ord != Ordering::Less) { return bad("<, <=, > or >=") }
    if (c < a) != (ord == Ordering::Greater) || (c <= a) != (ord != Ordering::Less) || (c > a) != (ord == Ordering::Less) || (c >= a) != (ord != Ordering::Greater) { return bad("<, <=, > or >= with the sides swapped") }
    Ok(())
}
fn with_m<'x, S: AsRef<[u8]>, V: AsRef<[u8]>>(m: &MaybeUtf8<S, V>, x: &[u8], y: &'x [u8], others: &[MaybeUtf8Owned], slices: &[MaybeUtf8Slice<'x>]) -> Result<(), String> {
    let (eq, ord) = (x == y, x.cmp(y));
    pair::<_, [u8]>(m, y, eq, ord, "with [u8]", x, y)?;
    pair(m, &y, eq, ord, "with &[u8]", x, y)?;
    pair(m, &y.to_vec(), eq, ord, "with Vec<u8>", x, y)?;
    if let Ok(s) = std::str::from_utf8(y) {
        pair::<_, str>(m, s, eq, ord, "with str", x, y)?;
        pair(m, &s, eq, ord, "with &str", x, y)?;
        pair(m, &s.to_string(), eq, ord, "with String", x, y)?;
        for c in [Cow::Borrowed(s), Cow::Owned(s.to_string())] {
            if (c == *m) != eq || (c != *m) == eq { return err(format!("Cow<str> == is wrong for {} and {}", show(x), show(y))) }
            if c.partial_cmp(m) != Some(ord.reverse()) { return err(format!("Cow<str> partial_cmp is wrong for {} and {}", show(x), show(y))) }
        }
    }
    for o in others { pair(m, o, eq, ord, "with an owned MaybeUtf8", x, y)?; }
    for o in slices { pair(m, o, eq, ord, "with a MaybeUtf8 slice", x, y)?; }
    if h(m) != h(x) { return err(format!("the hash of {} isn't that of its bytes", show(x))) }
    Ok(())
}
fn owned(b: &[u8]) -> Vec<MaybeUtf8Owned> { let mut v: Vec<MaybeUtf8Owned> = vec![MaybeUtf8::NotUtf8(b.to_vec())]; if let Ok(s) = std::str::from_utf8(b) { v.push(MaybeUtf8::Utf8(s.to_string())) } v }
fn sliced(b: &[u8]) -> Vec<MaybeUtf8Slice<'_>> { let mut v = vec![MaybeUtf8::NotUtf8(b)]; if let Ok(s) = std::str::from_utf8(b) { v.push(MaybeUtf8::Utf8(s)) } v }
fn check_p11(case: &Value, st: &mut Stats) -> Result<(), String> {
    let (x, y) = (s2b(&case["x"]), s2b(&case["y"]));
    let (ox, oy, sx, sy) = (owned(&x), owned(&y), sliced(&x), sliced(&y));
    for m in &ox { with_m(m, &x, &y, &oy, &sy)?; }
    for m in &sx { with_m(m, &x, &y, &oy, &sy)?; }
    for a in &ox { for b in &oy { if a.cmp(b) != x.cmp(&y) || h(a) != h(&x[..]) { return err(format!("cmp or hash is wrong for {} and {}", show(&x), show(&y))) } } }
    for a in &sx { for b in &sy { if a.cmp(b) != x.cmp(&y) { return err(format!("cmp of slices is wrong for {} and {}", show(&x), show(&y))) } } }
    let mut map = HashMap::new();
    for a in &ox { map.insert(a.clone(), 1); }
    if map.len() != 1 || map.contains_key(&y[..]) != (x == y) { return err(format!("as keys of a HashMap {} and {} aren't their bytes", show(&x), show(&y))) }
    st.eval(hash(&format!("{:?}", (x.cmp(&y), x.len().min(8), y.len().min(8), sx.len(), sy.len()))));
    Ok(())
}
fn gen_p11(g: &mut Gen) {
    for n in g.sizes(10_001) { let a = "a".repeat(n); for (x, y) in &[("", ""), ("a", "b"), ("a", ""), ("\u{c3}", "b"), ("", "\u{ff}")] { if !g.each(|| json!({"x": format!("{}{}", a, x), "y": format!("{}{}", a, y)})) { return } } }
    for a in FRAG { for b in FRAG { if !g.each(|| json!({"x": b2s(a), "y": b2s(b)})) { return } } }
    let w = words(&[b'a', b'b', 0xc3, 0xa9, 0], 3);
    for a in &w { for b in &w { if !g.each(|| json!({"x": b2s(a), "y": b2s(b)})) { return } } }
    g.small_scope_done();
    loop {
        let (mut x, mut y) = (frag(g), frag(g));
        match g.below(4) { 0 => { y = x.clone(); y.extend(frag(g)) } 1 => { let p = frag(g); let mut q = p.clone(); q.extend(x); x = q; let mut q = p; q.extend(y); y = q } 2 => { y = x.iter().map(|c| c.to_ascii_uppercase()).collect() } _ => {} }
        if !g.emit(json!({"x": b2s(&x), "y": b2s(&y)})) { return }
    }
}

// ---------------------------------------------------------------- P15
/// A value made from a number, and what can be seen of it.
trait Val: std::any::Any + Send + Sync { fn made(t: u64, v: u64) -> Self; fn seen(&self) -> (u64, Vec<u8>); }
macro_rules! types { ($($n:ident)*; $($m:ty: $i:expr),*) => {
    $(#[derive(Debug, Clone, PartialEq)] struct $n(u64, Vec<u8>);
      impl Val for $n { fn made(t: u64, v: u64) -> Self { $n(v, vec![t as u8; (v % 50) as usize]) } fn seen(&self) -> (u64, Vec<u8>) { (self.0, self.1.clone()) } })*
    fn g_insert(g: &mut Global, t: u64, v: u64) -> Option<(u64, Vec<u8>)> { let mut k = 0; $( if t == k { return g.insert($n::made(t, v)).map(|x| x.seen()) } k += 1; )* let _ = k; match t { $($i => g.insert(<$m>::made(t, v)).map(|x| x.seen()),)* _ => None } }
    fn g_get(g: &Global, t: u64) -> Option<(u64, Vec<u8>)> { let mut k = 0; $( if t == k { return g.get::<$n>().map(|x| x.seen()) } k += 1; )* let _ = k; match t { $($i => g.get::<$m>().map(|x| x.seen()),)* _ => None } }
    fn g_box(t: u64, v: u64) -> Global { let mut k = 0; $( if t == k { return Box::new($n::made(t, v)).into() } k += 1; )* let _ = k; match t { $($i => Box::new(<$m>::made(t, v)).into(),)* _ => Global::default() } }
    fn full(t: u64, v: u64) -> (u64, Vec<u8>) { let mut k = 0; $( if t == k { return $n::made(t, v).seen() } k += 1; )* let _ = k; match t { $($i => <$m>::made(t, v).seen(),)* _ => (0, vec![]) } }
} }
types!(A0 A1 A2 A3 A4 A5 A6 A7 A8 A9 A10 A11; None0: 12, u8: 13, u64: 14, String: 15, Vec<u8>: 16, [u64; 40]: 17, &'static str: 18, std::sync::Arc<u64>: 19, Box<dyn std::any::Any + Send + Sync>: 20, Option<u64>: 21, (u64, u8): 22, Option<u8>: 23, Global: 24, bool: 25, W<0>: 26, W<1>: 27, W<2>: 28, W<3>: 29, W<4>: 30, W<5>: 31, W<6>: 32, W<7>: 33, W<8>: 34, W<9>: 35, E<0>: 36, E<1>: 37, E<2>: 38, Dropped: 39);
const TYPES: u64 = 40;
#[derive(Clone)] struct W<const N: usize>(u64);
#[derive(Clone)] struct E<const N: usize>;
struct None0;
/// counts those that live
struct Dropped(u64);
thread_local! { static LIVE: std::cell::Cell<i64> = std::cell::Cell::new(0); }
impl Drop for Dropped { fn drop(&mut self) { let _ = LIVE.try_with(|l| l.set(l.get() - 1)); } }
impl Val for Dropped { fn made(_: u64, v: u64) -> Self { LIVE.with(|l| l.set(l.get() + 1)); Dropped(v) } fn seen(&self) -> (u64, Vec<u8>) { (self.0, vec![]) } }
impl<const N: usize> Val for W<N> { fn made(_: u64, v: u64) -> Self { W(v) } fn seen(&self) -> (u64, Vec<u8>) { (self.0, vec![]) } }
impl<const N: usize> Val for E<N> { fn made(_: u64, _: u64) -> Self { E } fn seen(&self) -> (u64, Vec<u8>) { (N as u64, vec![]) } }
impl Val for None0 { fn made(_: u64, _: u64) -> Self { None0 } fn seen(&self) -> (u64, Vec<u8>) { (0, vec![]) } }
impl Val for u8 { fn made(_: u64, v: u64) -> Self { v as u8 } fn seen(&self) -> (u64, Vec<u8>) { (*self as u64, vec![]) } }
impl Val for u64 { fn made(_: u64, v: u64) -> Self { v } fn seen(&self) -> (u64, Vec<u8>) { (*self, vec![]) } }
impl Val for bool { fn made(_: u64, v: u64) -> Self { v % 2 == 1 } fn seen(&self) -> (u64, Vec<u8>) { (*self as u64, vec![]) } }
impl Val for String { fn made(_: u64, v: u64) -> Self { "x".repeat(v as usize % 40) } fn seen(&self) -> (u64, Vec<u8>) { (1, self.clone().into_bytes()) } }
impl Val for Vec<u8> { fn made(_: u64, v: u64) -> Self { vec![v as u8; v as usize % 40] } fn seen(&self) -> (u64, Vec<u8>) { (2, self.clone()) } }
impl Val for [u64; 40] { fn made(_: u64, v: u64) -> Self { [v; 40] } fn seen(&self) -> (u64, Vec<u8>) { (self.iter().sum(), vec![]) } }
impl Val for &'static str { fn made(_: u64, v: u64) -> Self { if v % 2 == 0 { "even" } else { "" } } fn seen(&self) -> (u64, Vec<u8>) { (3, self.as_bytes().to_vec()) } }
impl Val for std::sync::Arc<u64> { fn made(_: u64, v: u64) -> Self { v.into() } fn seen(&self) -> (u64, Vec<u8>) { (**self, vec![]) } }
impl Val for Box<dyn std::any::Any + Send + Sync> { fn made(_: u64, v: u64) -> Self { Box::new(v) } fn seen(&self) -> (u64, Vec<u8>) { ((**self).downcast_ref::<u64>().cloned().unwrap_or(u64::MAX), vec![]) } }
impl Val for Option<u64> { fn made(_: u64, v: u64) -> Self { if v % 2 == 0 { None } else { Some(v) } } fn seen(&self) -> (u64, Vec<u8>) { (self.unwrap_or(5), vec![]) } }
impl Val for Option<u8> { fn made(_: u64, v: u64) -> Self { if v % 2 == 0 { None } else { Some(v as u8) } } fn seen(&self) -> (u64, Vec<u8>) { (self.unwrap_or(5) as u64, vec![]) } }
impl Val for (u64, u8) { fn made(_: u64, v: u64) -> Self { (v, v as u8) } fn seen(&self) -> (u64, Vec<u8>) { (self.0, vec![self.1]) } }
impl Val for Global { fn made(_: u64, v: u64) -> Self { Box::new(v).into() } fn seen(&self) -> (u64, Vec<u8>) { (self.get::<u64>().cloned().unwrap_or(u64::MAX), vec![]) } }
#[derive(Debug, Clone, PartialEq)] struct Zst;
macro_rules! tup { ($v:expr, $($n:ident $i:expr),*) => { ($($n($v[$i], vec![$i as u8; ($v[$i] % 50) as usize]),)*).into() } }
fn g_tuple(n: usize, v: &[u64]) -> Global {
    match n {
        0 => ().into(),
        1 => tup!(v, A0 0),
        2 => tup!(v, A0 0, A1 1),
        3 => tup!(v, A0 0, A1 1, A2 2),
        4 => tup!(v, A0 0, A1 1, A2 2, A3 3),
        5 => tup!(v, A0 0, A1 1, A2 2, A3 3, A4 4),
        6 => tup!(v, A0 0, A1 1, A2 2, A3 3, A4 4, A5 5),
        7 => tup!(v, A0 0, A1 1, A2 2, A3 3, A4 4, A5 5, A6 6),
        8 => tup!(v, A0 0, A1 1, A2 2, A3 3, A4 4, A5 5, A6 6, A7 7),
        9 => tup!(v, A0 0, A1 1, A2 2, A3 3, A4 4, A5 5, A6 6, A7 7, A8 8),
        10 => tup!(v, A0 0, A1 1, A2 2, A3 3, A4 4, A5 5, A6 6, A7 7, A8 8, A9 9),
        11 => tup!(v, A0 0, A1 1, A2 2, A3 3, A4 4, A5 5, A6 6, A7 7, A8 8, A9 9, A10 10),
        12 => tup!(v, A0 0, A1 1, A2 2, A3 3, A4 4, A5 5, A6 6, A7 7, A8 8, A9 9, A10 10, A11 11),
        13 => (A0(v[0], vec![0; (v[0] % 50) as usize]), A0(v[1], vec![0; (v[1] % 50) as usize])).into(),
        _ => (A0(v[0], vec![0; (v[0] % 50) as usize]), A1(v[1], vec![1; (v[1] % 50) as usize]), A0(v[2], vec![0; (v[2] % 50) as usize])).into(),
    }
}
fn check_p15(case: &Value, st: &mut Stats) -> Result<(), String> {
    let mut model: BTreeMap<u64, u64> = BTreeMap::new();
    LIVE.with(|l| l.set(0));
    let s = &case["start"];
    let vals: Vec<u64> = s[1].as_array().into_iter().flatten().filter_map(|x| x.as_u64()).collect();
    let mut g = match s[0].as_str().unwrap_or("") {
        "box" => { model.insert(vals[0] % TYPES, vals[1]); g_box(vals[0] % TYPES, vals[1]) }
        "tuple" => {
            let n = s[2].as_u64().unwrap_or(0) as usize;
            match n { 13 => { model.insert(0, vals[1]); } 14 => { model.insert(0, vals[2]); model.insert(1, vals[1]); } n => for i in 0..n { model.insert(i as u64, vals[i]); } }
            g_tuple(n, &vals)
        }
        _ => Global::default(),
    };
    let look = |g: &Global, model: &BTreeMap<u64, u64>, what: &str| -> Result<(), String> {
        for t in 0..TYPES {
            let want = model.get(&t).map(|&v| full(t, v));
            if g_get(g, t) != want { return err(format!("after {}: get::<A{}>() is {:?}, should be {:?}", what, t, g_get(g, t).map(|x| x.0), want.map(|x| x.0))) }
        }
        if g.get::<Zst>().is_some() || g.get::<u32>().is_some() || g.get::<W<77>>().is_some() { return err(format!("after {}: a value of a type that wasn't inserted", what)) }
        Ok(())
    };
    look(&g, &model, "construction")?;
    for (i, op) in case["ops"].as_array().into_iter().flatten().enumerate() {
        let (t, v) = (op[0].as_u64().unwrap_or(0) % TYPES, op[1].as_u64().unwrap_or(0));
        let old = g_insert(&mut g, t, v);
        let want = model.insert(t, v).map(|x| full(t, x));
        if old != want { return err(format!("insert {} (A{}) returned {:?}, should be {:?}", i, t, old.map(|x| x.0), want.map(|x| x.0))) }
        look(&g, &model, &format!("insert {} of A{}", i, t))?;
        st.eval(hash(&format!("{:?}", (&model.keys().collect::<Vec<_>>(), t))));
    }
    // nothing is dropped that's there, and everything else is
    let live = LIVE.with(|l| l.get());
    if live != model.contains_key(&39) as i64 { return err(format!("{} values of a type live, should be {}", live, model.contains_key(&39) as i64)) }
    drop(g);
    let live = LIVE.with(|l| l.get());
    if live != 0 { return err(format!("{} values of a type live when the global data is gone", live)) }
    let mut z = Global::from(Box::new(Zst));
    if z.get::<Zst>().is_none() || z.insert(Zst) != Some(Zst) || z.insert(7u8).is_some() || z.insert(Zst) != Some(Zst) || z.get() != Some(&7u8) { return err("a type without data is handled differently".into()) }
    Ok(())
}
fn gen_p15(g: &mut Gen) {
    let start = |k: u64| match k { 0 => json!(["default", []]), 1 => json!(["box", [0, 100]]), 2 => json!(["box", [1, 101]]), n => json!(["tuple", (0..12).map(|i| 200 + i).collect::<Vec<u64>>(), n - 3]) };
    for t in 0..TYPES { for u in 0..TYPES { if !g.each(|| json!({"start": ["box", [t, 101]], "ops": [[u, 1], [t, 2], [u, 4]]})) { return } if !g.each(|| json!({"start": start(5), "ops": [[u, 1], [t, 2], [u, 3]]})) { return } } }
    for k in 0..4 { if !g.each(|| json!({"start": start(k), "ops": (0..2 * TYPES).map(|t| json!([t % TYPES, t + 1])).collect::<Vec<_>>()})) { return } }
    for s in 0..18 { for w in words(&[0u64, 1, 2], 4) {
        if !g.each(|| json!({"start": start(s), "ops": w.iter().enumerate().map(|(i, t)| json!([t, i + 1])).collect::<Vec<_>>()})) { return }
    } }
    g.small_scope_done();
    loop {
        let n = if g.chance(1, 8) { g.below(90) } else { g.below(14) };
        let all = if g.chance(1, 2) { 12 } else { TYPES as usize };
        let ops: Vec<Value> = (0..n).map(|i| json!([g.below(all), i * 7 + 1])).collect();
        let s = g.below(18) as u64;
        let mut from = start(s);
        if s == 1 { from[1][0] = json!(g.below(TYPES as usize)) }
        if !g.emit(json!({"start": from, "ops": ops})) { return }
    }
}

// ---------------------------------------------------------------- P17
fn lexical(p: &[u8]) -> Option<&'static str> {
    // components of a Unix path, by its bytes
    if p.first() == Some(&b'/') { return Some("RootDir") }
    if p.split(|&b| b == b'/').any(|c| c == b"..") { return Some("ParentDir") }
    None
}
fn check_p17(case: &Value, st: &mut Stats) -> Result<(), String> {
    use std::os::unix::ffi::OsStrExt;
    let b = s2b(&case["path"]);
    let p = PathBuf::from(std::ffi::OsStr::from_bytes(&b));
    let want = lexical(&b);
    let name = |c: Component| match c { Component::RootDir => "RootDir", Component::ParentDir => "ParentDir", Component::Prefix(_) => "Prefix", Component::CurDir => "CurDir", Component::Normal(_) => "Normal" };
    let mut rs: Vec<(&str, Option<&str>)> = vec![("Path", rustful::file::check_path(&*p).err().map(name)), ("PathBuf", rustful::file::check_path(&p).err().map(name)), ("OsStr", rustful::file::check_path(p.as_os_str()).err().map(name))];
    if let Some(s) = p.to_str() { rs.push(("str", rustful::file::check_path(s).err().map(name))); }
    for (k, r) in rs { if r != want { return err(format!("check_path of the {} {:?} gives {:?}, should be {:?}", k, p, r, want)) } }
    if want.is_none() {
        // an accepted path joined to a directory stays there, at every depth
        let base = Path::new("/srv/files");
        let j = base.join(&p);
        let mut depth = vec![];
        for c in j.components() { match c { Component::ParentDir => { depth.pop(); } Component::CurDir => {} c => depth.push(c.as_os_str().to_owned()) } if j.starts_with(base) && depth.len() >= 3 && (depth[1] != "srv" || depth[2] != "files") { return err(format!("{:?} leaves the directory", j)) } }
        if !j.starts_with(base) || depth.len() < 3 { return err(format!("{:?} leaves the directory", j)) }
    }
    st.eval(hash(&format!("{:?}", (want, b.len(), b.iter().filter(|&&c| c == b'/').count(), b.iter().filter(|&&c| c == b'.').count()))));
    Ok(())
}
fn gen_p17(g: &mut Gen) {
    for n in g.sizes(10_001) { for last in &["..", "a", ".", "/"] { for l in &["a/", "aa", "./", "/", "..a/"] {
        let p = if *l == "/" { format!("a{}{}", l.repeat(n), last) } else { format!("{}/{}", l.repeat(n), last) };
        if !g.each(|| json!({"path": p})) { return }
    } } }
    let parts: &[&[u8]] = &[b"", b".", b"..", b"a", b"...", b"..a", b"a..", b".a", b"C:", b"..\\", b"\xff..", b"~", b"%2e%2e", b"\0", b" ..", b".. "];
    for w in words(parts, 3) { for k in 0..2 { if !g.each(|| { let mut v = w.join(&b'/'); if k == 1 { v.insert(0, b'/') } json!({"path": b2s(&v)}) }) { return } } }
    for w in words(&[b'/', b'.', b'a'], 8) { if !g.each(|| json!({"path": b2s(&w)})) { return } }
    g.small_scope_done();
    loop {
        let n = g.below(12);
        let v: Vec<B> = (0..n).map(|_| if g.chance(1, 4) { frag(g).into_iter().filter(|&c| c != 0).collect() } else { g.pick(parts).to_vec() }).collect();
        let mut b = v.join(&b'/');
        if g.chance(1, 6) { b.insert(0, b'/') }
        if g.chance(1, 6) { b.push(b'/') }
        if !g.emit(json!({"path": b2s(&b)})) { return }
    }
}

// ---------------------------------------------------------------- P18
fn p18_addr(v: &Value) -> SocketAddr {
    let n = |i: usize| v[i].as_u64().unwrap_or(0);
    if v[0] == "4" { SocketAddr::V4(SocketAddrV4::new(Ipv4Addr::from(n(1) as u32), n(2) as u16)) }
    else { SocketAddr::V6(SocketAddrV6::new(Ipv6Addr::from(((n(1) as u128) << 64) | n(5) as u128), n(2) as u16, n(3) as u32, n(4) as u32)) }
}
/// `==` on V6 addresses compares everything; spell it out anyway
fn p18_key(a: &SocketAddr) -> (String, u16, u32, u32) { match a { SocketAddr::V4(a) => (a.ip().to_string(), a.port(), 0, 0), SocketAddr::V6(a) => (format!("v6 {:?}", a.ip().octets()), a.port(), a.flowinfo(), a.scope_id()) } }
fn check_p18(case: &Value, st: &mut Stats) -> Result<(), String> {
    let a = p18_addr(&case["addr"]);
    let port = case["port"].as_u64().unwrap_or(0) as u16;
    let mut hosts: Vec<(&str, Host, SocketAddr)> = vec![("a socket address", a.into(), a)];
    match a {
        SocketAddr::V4(x) => { hosts.push(("a V4 address", x.into(), a)); hosts.push(("an address-port pair", (*x.ip(), x.port()).into(), a)); }
        SocketAddr::V6(x) => hosts.push(("a V6 address", x.into(), a)),
    }
    let any = SocketAddr::V4(SocketAddrV4::new(Ipv4Addr::new(0, 0, 0, 0), a.port()));
    hosts.push(("a port", a.port().into(), any));
    hosts.push(("any_v4", Host::any_v4(a.port()), any));
    let text = a.to_string();
    // what the std reads from the text (it has no flow info)
    match (text.parse::<Host>(), text.parse::<SocketAddr>()) { (Ok(hst), Ok(b)) => hosts.push(("a string", hst, b)), (Err(_), Err(_)) => {} (h, b) => return err(format!("the string {:?} parses to {:?}, not {:?}", text, h, b)) }
    for s in case["text"].as_array().into_iter().flatten().filter_map(|v| v.as_str()) {
        match (s.parse::<Host>(), s.parse::<SocketAddr>()) { (Ok(hst), Ok(b)) => hosts.push(("a string", hst, b)), (Err(_), Err(_)) => {} (h, b) => return err(format!("the string {:?} parses to {:?}, not {:?}", s, h, b)) }
    }
    for (what, hst, want) in hosts {
        let got: SocketAddr = hst.into();
        if p18_key(&got) != p18_key(&want) || got != want { return err(format!("a Host from {} ({:?}) is {:?}", what, want, got)) }
        let mut h2 = hst;
        h2.port(port);
        let got: SocketAddr = h2.into();
        let mut w = p18_key(&want); w.1 = port;
        if p18_key(&got) != w { return err(format!("port({}) on a Host from {} ({:?}) gives {:?}", port, what, want, got)) }
        if (h2 == hst) != (port == want.port()) { return err(format!("Host equality is wrong for {:?} and port {}", want, port)) }
        st.eval(hash(&format!("{:?}", (what, want.is_ipv4(), p18_key(&want).2 != 0, p18_key(&want).3 != 0, want.port() == port, want.port() == 0))));
    }
    Ok(())
}
fn gen_p18(g: &mut Gen) {
    let ports = [0u64, 1, 80, 443, 8080, 0x1234, 0x8000, 65535];
    let (ips, fl, sc) = ([0u64, 0x7f000001, 0xffffffff, 0x01020304, 0xc0a80001], [0u64, 1, 0xfffff, 0xffffffff], [0u64, 1, 7, 0xffffffff]);
    for &p in &ports { for &q in &ports {
        for &ip in &ips { if !g.each(|| json!({"addr": ["4", ip, p], "port": q})) { return } }
        for &f in &fl { for &s in &sc { for &lo in &[0u64, 1, 0xffff_7f00_0001] { if !g.each(|| json!({"addr": ["6", if lo > 1 { 0 } else { 0xfe80u64 << 48 }, p, f, s, lo], "port": q})) { return } } } }
    } }
    g.small_scope_done();
    let texts = ["127.0.0.1:80", "[::1]:8080", "[fe80::1%7]:80", "0.0.0.0:0", "localhost:80", ":80", "80", "[::]:65535", "1.2.3.4:65536", "1.2.3.4", "[::ffff:1.2.3.4]:1", " 1.2.3.4:5", "1.2.3.4:05", ""];
    loop {
        let t = *g.pick(&texts);
        let a = if g.chance(1, 2) { json!(["4", g.next() as u32, g.next() as u16]) } else { json!(["6", g.next(), g.next() as u16, g.next() as u32, g.next() as u32, g.next()]) };
        let p = g.next() as u16;
        if !g.emit(json!({"addr": a, "port": p, "text": [t]})) { return }
    }
}

// ---------------------------------------------------------------- P20
struct Dummy;
impl rustful::Handler for Dummy { fn handle(&self, _: rustful::Context, _: rustful::Response) {} fn description(&self) -> Option<std::borrow::Cow<'static, str>> { None } }
static DUMMY: Dummy = Dummy;
type LinkM = (Option<String>, Vec<(B, u64)>, bool);
fn link_m(v: &Value) -> LinkM {
    (v[0].as_str().map(|s| s.to_string()), v[1].as_array().into_iter().flatten().map(|s| (s2b(&s[0]), s[1].as_u64().unwrap_or(0) % 3)).collect(), v[2].as_bool().unwrap_or(false))
}
fn mk_link<'a>(m: &'a LinkM, lie: bool) -> Link<'a> {
    Link {
        method: m.0.as_ref().map(|s| s.parse().unwrap()),
        path: m.1.iter().map(|(l, t)| LinkSegment {
            label: match std::str::from_utf8(l) { Ok(s) if !lie => MaybeUtf8::Utf8(s), _ => MaybeUtf8::NotUtf8(&l[..]) },
            ty: match t { 0 => SegmentType::Static, 1 => SegmentType::VariableSegment, _ => SegmentType::VariableSequence },
        }).collect(),
        handler: if m.2 { Some(&DUMMY) } else { None },
    }
}
fn check_p20(case: &Value, st: &mut Stats) -> Result<(), String> {
    let ms: Vec<LinkM> = case["links"].as_array().into_iter().flatten().map(link_m).collect();
    let key = |m: &LinkM| (m.0.clone().map(|s| s.into_bytes()), m.1.clone());
    for a in &ms { for b in &ms { for lie in [false, true] {
        let (x, y) = (mk_link(a, false), mk_link(b, lie));
        let want = key(a).cmp(&key(b));
        let bad = |op: &str| err(format!("{} is wrong for {:?} and {:?}", op, x, y));
        if x.cmp(&y) != want || y.cmp(&x) != want.reverse() { return bad("cmp") }
        if x.partial_cmp(&y) != Some(want) { return bad("partial_cmp") }
        if (x == y) != (want == Ordering::Equal) || (x != y) == (want == Ordering::Equal) { return bad("==") }
        if (x < y) != (want == Ordering::Less) || (x >= y) == (want == Ordering::Less) { return bad("<") }
        for (p, q) in x.path.iter().zip(&y.path) {
            let w = (p.label.as_bytes().to_vec(), p.ty.clone() as u8).cmp(&(q.label.as_bytes().to_vec(), q.ty.clone() as u8));
            if p.cmp(q) != w || p.partial_cmp(q) != Some(w) || (p == q) != (w == Ordering::Equal) { return bad("the order of segments") }
        }
        st.eval(hash(&format!("{:?}", (want, a.0.is_some(), b.0.is_some(), a.1.len(), b.1.len(), a.2, b.2))));
    } } }
    let mut links: Vec<Link> = ms.iter().map(|m| mk_link(m, false)).collect();
    links.sort();
    links.dedup();
    let mut keys: Vec<_> = ms.iter().map(key).collect();
    keys.sort();
    keys.dedup();
    if links.len() != keys.len() || links.iter().zip(&keys).any(|(l, k)| l.method.as_ref().map(|m| m.to_string().into_bytes()) != k.0 || l.path.len() != k.1.len()) { return err(format!("sorting and deduplicating leaves {:?}", links)) }
    Ok(())
}
const METHODS: &[&str] = &["GET", "POST", "PUT", "DELETE", "HEAD", "OPTIONS", "PATCH", "TRACE", "CONNECT", "LIST", "GE", "GETT", "get", "ABC"];
fn gen_p20(g: &mut Gen) {
    for n in g.sizes(1025) {
        let p: Vec<Value> = (0..n).map(|_| json!(["a", 0])).collect();
        let mut q = p.clone(); q[n - 1] = json!(["b", 0]);
        let mut r = p.clone(); r[n - 1] = json!(["a", 1]);
        let l = "a".repeat(n);
        for (x, y) in &[(&p, &q), (&p, &r), (&q, &r), (&p, &p), (&vec![json!([format!("{}b", l), 0])], &vec![json!([format!("{}c", l), 0])])] { if !g.each(|| json!({"links": [["GET", x, true], ["GET", y, true]]})) { return } }
    }
    let mut small = vec![];
    for m in [Value::Null, json!("GET"), json!("PUT"), json!("LIST")] { for p in [json!([]), json!([["a", 0]]), json!([["a", 1]]), json!([["b", 0]]), json!([["", 2]]), json!([["a", 0], ["a", 2]]), json!([["a", 0], ["b", 1]]), json!([["ab", 0]])] { small.push(json!([m, p, false])) } }
    for a in &small { for b in &small { if !g.each(|| json!({"links": [a, b]})) { return } } }
    g.small_scope_done();
    loop {
        let n = 2 + g.below(6);
        let mut ls: Vec<Value> = vec![];
        for _ in 0..n {
            let m = if g.chance(1, 4) { Value::Null } else { json!(*g.pick(METHODS)) };
            let k = g.below(4);
            let p: Vec<Value> = (0..k).map(|_| json!([b2s(&if g.chance(1, 2) { g.pick(&[&b"a"[..], b"b", b""]).to_vec() } else { frag(g) }), g.below(3)])).collect();
            let mut l = json!([m, p, g.chance(1, 2)]);
            if !ls.is_empty() && g.chance(1, 2) { let i = g.below(ls.len()); l = ls[i].clone(); match g.below(4) { 0 => l[0] = json!(*g.pick(METHODS)), 1 => l[2] = json!(g.chance(1, 2)), 2 => { if let Some(a) = l[1].as_array_mut() { a.pop(); } } _ => { if let Some(a) = l[1].as_array_mut() { a.push(json!(["z", g.below(3)])) } } } }
            ls.push(l);
        }
        if !g.emit(json!({"links": ls})) { return }
    }
}

// ---------------------------------------------------------------- P21
/// The bundled list: every extension with the types it's listed under.
fn mime_list() -> &'static HashMap<String, Vec<String>> {
    static L: std::sync::OnceLock<HashMap<String, Vec<String>>> = std::sync::OnceLock::new();
    L.get_or_init(|| {
        let mut m: HashMap<String, Vec<String>> = HashMap::new();
        for l in std::fs::read_to_string("/repo/build/apache/mime.types").expect("mime.types").lines() {
            if l.starts_with('#') { continue }
            let mut p = l.split_whitespace();
            if let Some(t) = p.next() { for e in p { m.entry(e.into()).or_default().push(t.into()) } }
        }
        m
    })
}
fn check_p21(case: &Value, st: &mut Stats) -> Result<(), String> {
    let ext = case["ext"].as_str().unwrap_or("");
    let got = rustful::file::ext_to_mime(ext);
    let want = mime_list().get(ext);
    match (&got, want) {
        (None, None) => {}
        (Some(m), Some(w)) => {
            let rustful::mime::Mime(top, sub, params) = m;
            if !params.is_empty() || !w.iter().any(|w| *w == format!("{}/{}", top.as_str(), sub.as_str())) { return err(format!("{:?} gives {:?}, listed as {:?}", ext, m.to_string(), w)) }
            if !w.iter().any(|w| w.parse::<rustful::mime::Mime>().map_or(false, |w| w == *m)) { return err(format!("{:?} gives {:?}, which isn't {:?}", ext, m, w)) }
            use rustful::mime::{TopLevel::*, SubLevel as S};
            if let Ext(t) = top { if ["text", "image", "audio", "video", "application", "multipart", "message", "model"].contains(&&t[..]) { return err(format!("{:?} gives {:?} as an unknown type", ext, t)) } }
            if let S::Ext(t) = sub { if ["plain", "html", "xml", "javascript", "css", "json", "png", "gif", "bmp", "jpeg"].contains(&&t[..]) { return err(format!("{:?} gives {:?} as an unknown subtype", ext, t)) } }
        }
        (None, Some(w)) => return err(format!("{:?} is listed as {:?} but isn't known", ext, w)),
        (Some(m), None) => return err(format!("{:?} isn't listed but gives {}", ext, m)),
    }
    st.eval(hash(&got.map_or("none".into(), |m| format!("{} {}", m, ext))));
    Ok(())
}
// ------------------------------------------------------------------ P27
use rustful::content_type;
type Written = (String, String, Vec<(String, String)>);
/// its parts as they are written, known or not
fn written(m: &rustful::mime::Mime) -> Result<Written, String> {
    use rustful::mime::{Attr, SubLevel, TopLevel, Value};
    let (top, sub) = ((m.0).as_str().to_string(), (m.1).as_str().to_string());
    let other = |what: &str, ext: bool, s: &str, known: &[&str]| if ext == known.contains(&s) { Err(format!("{} {:?} is {}a known one", what, s, if ext { "not taken as " } else { "" })) } else { Ok(()) };
    other("the main type", matches!(m.0, TopLevel::Ext(_)), &top, &TOPS)?;
    other("the subtype", matches!(m.1, SubLevel::Ext(_)), &sub, &SUBS)?;
    let mut ps = vec![];
    for &(ref a, ref v) in &m.2 {
        other("the parameter", matches!(*a, Attr::Ext(_)), a.as_str(), &["charset", "boundary", "q"])?;
        other("the value", matches!(*v, Value::Ext(_)), v.as_str(), &["utf-8"])?;
        ps.push((a.as_str().to_string(), v.as_str().to_string()));
    }
    Ok((top, sub, ps))
}
const TOPS: [&str; 9] = ["*", "text", "image", "audio", "video", "application", "multipart", "message", "model"];
const SUBS: [&str; 19] = ["*", "plain", "html", "xml", "javascript", "css", "event-stream", "json", "x-www-form-urlencoded", "msgpack", "octet-stream", "form-data", "png", "gif", "bmp", "jpeg", "mpeg", "mp4", "ogg"];
fn by_name() -> Vec<(rustful::mime::Mime, &'static str)> {
    vec![
        (content_type!(Star / Star), "*/*"), (content_type!(Text / Plain), "text/plain"), (content_type!(Image / Html), "image/html"), (content_type!(Audio / Xml), "audio/xml"), (content_type!(Video / Javascript), "video/javascript"),
        (content_type!(Application / Css), "application/css"), (content_type!(Multipart / EventStream), "multipart/event-stream"), (content_type!(Message / Json), "message/json"), (content_type!(Model / WwwFormUrlEncoded), "model/x-www-form-urlencoded"),
        (content_type!(Text / Msgpack), "text/msgpack"), (content_type!(Text / OctetStream), "text/octet-stream"), (content_type!(Text / FormData), "text/form-data"), (content_type!(Text / Png), "text/png"), (content_type!(Text / Gif), "text/gif"),
        (content_type!(Text / Bmp), "text/bmp"), (content_type!(Text / Jpeg), "text/jpeg"), (content_type!(Text / Mpeg), "text/mpeg"), (content_type!(Text / Mp4), "text/mp4"), (content_type!(Text / Ogg), "text/ogg"),
        (content_type!(Text / Html; Charset = Utf8), "text/html;charset=utf-8"), (content_type!(Text / "x-y"; Boundary = "b"; Q = "0.5"), "text/x-y;boundary=b;q=0.5"), (content_type!("a" / Json; "type" = "image/gif"; Charset = Utf8; "padding" = "4"), "a/json;type=image/gif;charset=utf-8;padding=4"),
        (content_type!("text" / "html"; "charset" = "utf-8"), "text/html;charset=utf-8"), (content_type!("" / ""), "/"), (content_type!("TEXT" / "Html"), "TEXT/Html"),
    ]
}
fn check_p27(c: &Value, st: &mut Stats) -> Result<(), String> {
    let s = |v: &Value| v.as_str().unwrap_or("").to_string();
    if let Some(i) = c["name"].as_u64() {
        let all = by_name();
        let (m, want) = &all[i as usize % all.len()];
        let (t, u, ps) = written(m)?;
        let got = format!("{}/{}{}", t, u, ps.iter().map(|p| format!(";{}={}", p.0, p.1)).collect::<String>());
        st.eval(hash(want));
        return if got == *want { Ok(()) } else { Err(format!("content_type! makes {:?} of what is {:?}", got, want)) };
    }
    let (a, b) = (s(&c["main"]), s(&c["sub"]));
    let ps: Vec<(String, String)> = c["params"].as_array().into_iter().flatten().map(|p| (s(&p[0]), s(&p[1]))).collect();
    let (a, b) = (&a[..], &b[..]);
    let p: Vec<&str> = ps.iter().flat_map(|p| vec![&p.0[..], &p.1[..]]).collect();
    let m = match p.len() {
        0 => content_type!(a / b),
        2 => { let (c, d) = (p[0], p[1]); content_type!(a / b; c = d) }
        4 => { let (c, d, e, f) = (p[0], p[1], p[2], p[3]); content_type!(a / b; c = d; e = f) }
        6 => { let (c, d, e, f, g, h) = (p[0], p[1], p[2], p[3], p[4], p[5]); content_type!(a / b; c = d; e = f; g = h) }
        _ => { let (c, d, e, f, g, h, i, j) = (p[0], p[1], p[2], p[3], p[4], p[5], p[6], p[7]); content_type!(a / b; c = d; e = f; g = h; i = j; e = d; Charset = Utf8) }
    };
    let mut want = (a.to_string(), b.to_string(), ps.clone());
    if p.len() >= 8 { want.2.truncate(4); want.2.push((p[2].into(), p[1].into())); want.2.push(("charset".into(), "utf-8".into())) }
    let got = written(&m)?;
    st.eval(hash(&format!("{}{}{}{}", TOPS.contains(&a), SUBS.contains(&b), ps.len(), a.len() + b.len())));
    if got != want { return Err(format!("content_type! makes {:?} of {:?}", got, want)) }
    Ok(())
}
fn gen_p27(g: &mut Gen) {
    for i in 0..by_name().len() { if !g.each(|| json!({"name": i})) { return } }
    for n in g.sizes(10_001) { let w = "x".repeat(n); if !g.each(|| json!({"main": w, "sub": w, "params": [[w, w]]})) { return } }
    let odd = ["", "a", "b", "Text", "TEXT", "x-a", "text/html", "text ", " text", "a;b=c", "*", "/", "\u{e5}", "utf-8", "utf8", "UTF-8", "charset", "Charset", "boundary", "q", "octet-stream", "image/gif", "4", "\0", "x-", "vnd.a+b"];
    let mut words: Vec<&str> = odd.to_vec(); words.extend(&TOPS); words.extend(&SUBS);
    for a in &words { for b in &words { if !g.each(|| json!({"main": a, "sub": b, "params": []})) { return } if !g.each(|| json!({"main": "text", "sub": "html", "params": [[a, b]]})) { return } } }
    for a in odd.iter() { for b in odd.iter() { if !g.each(|| json!({"main": "text", "sub": "x", "params": [[a, b], [b, a]]})) { return } if !g.each(|| json!({"main": a, "sub": b, "params": [["charset", "utf-8"], [a, "utf-8"], [b, a]]})) { return } } }
    g.small_scope_done();
    loop {
        let mut w = |g: &mut Gen| -> String { if g.chance(1, 2) { g.pick(&words).to_string() } else { let n = g.below(8); (0..n).map(|_| *g.pick(&['a', 'b', '-', '/', 'T', ';', '=', '+', '.', '\u{e5}'])).collect() } };
        let (a, b, n) = (w(g), w(g), g.below(5));
        let ps: Vec<Value> = (0..n).map(|_| { let (a, b) = (w(g), w(g)); json!([a, b]) }).collect();
        if !g.emit(json!({"main": a, "sub": b, "params": ps})) { return }
    }
}
fn gen_p21(g: &mut Gen) {
    let l = mime_list();
    let mut known: Vec<&String> = l.keys().collect();
    known.sort();
    for e in &known { if !g.each(|| json!({"ext": *e})) { return } }
    for e in &known { for v in [e.to_uppercase(), format!(".{}", e), format!("{} ", e), format!("{}x", e), e[1..].to_string(), e[..e.len() - 1].to_string(), format!("{}\t", e), format!("x.{}", e)] { if !g.each(|| json!({"ext": v})) { return } } }
    let alpha: Vec<char> = "abcdefghijklmnopqrstuvwxyz0123456789".chars().collect();
    for w in words(&alpha, 3) { if !g.each(|| json!({"ext": w.iter().collect::<String>()})) { return } }
    g.small_scope_done();
    loop {
        let mut s: Vec<char> = g.pick(&known).chars().collect();
        let n = 1 + g.below(3);
        for _ in 0..n {
            let c = if g.chance(1, 8) { String::from_utf8_lossy(&frag(g)).chars().next().unwrap_or('a') } else { *g.pick(&alpha) };
            let at = g.below(s.len() + 1);
            match g.below(3) { 0 => s.insert(at, c), 1 if at < s.len() => { s.remove(at); } _ if at < s.len() => s[at] = c, _ => {} }
        }
        if !g.emit(json!({"ext": s.into_iter().collect::<String>()})) { return }
    }
}

// ---------------------------------------------------------------- P22
fn mu(b: &[u8], k: u64) -> MaybeUtf8Owned { match std::str::from_utf8(b) { Ok(s) if k % 2 == 0 => s.into(), _ => b.to_vec().into() } }
fn typed<T: std::str::FromStr + PartialEq + Clone + std::fmt::Debug>(p: &Parameters, k: &[u8], raw: Option<&B>, or: T, what: &str) -> Result<(), String> where T::Err: std::fmt::Debug + PartialEq {
    let want: Result<T, Option<T::Err>> = match raw { None => Err(None), Some(r) => String::from_utf8_lossy(r).parse().map_err(Some) };
    let got = p.parse::<[u8], T>(k);
    if got != want { return err(format!("parse::<{}>({}) of {:?} is {:?}, should be {:?}", what, show(k), raw.map(|r| show(r)), got, want)) }
    let got = p.parse_or::<[u8], T>(k, or.clone());
    let alt = match &want { Ok(v) => v.clone(), Err(_) => or.clone() };
    if got != alt { return err(format!("parse_or::<{}>({}) of {:?} is {:?}, should be {:?}", what, show(k), raw.map(|r| show(r)), got, alt)) }
    let mut called = None;
    let got = p.parse_or_else::<[u8], T, _>(k, |e| { called = Some(e); or.clone() });
    if got != alt { return err(format!("parse_or_else::<{}>({}) of {:?} is {:?}, should be {:?}", what, show(k), raw.map(|r| show(r)), got, alt)) }
    if called != want.err() { return err(format!("parse_or_else::<{}>({}) of {:?} gave the function {:?}", what, show(k), raw.map(|r| show(r)), called)) }
    Ok(())
}
fn check_p22(case: &Value, st: &mut Stats) -> Result<(), String> {
    let mut model: BTreeMap<B, B> = BTreeMap::new();
    let start: Vec<(B, B)> = case["start"].as_array().into_iter().flatten().map(|e| (s2b(&e[0]), s2b(&e[1]))).collect();
    for (k, v) in &start { model.insert(k.clone(), v.clone()); }
    let pairs = || start.iter().enumerate().map(|(i, (k, v))| (mu(k, i as u64), mu(v, i as u64 / 2)));
    let mut p: Parameters = match case["from"].as_str().unwrap_or("") {
        "map" => pairs().collect::<HashMap<_, _>>().into(),
        "extend" => { let mut p = Parameters::default(); p.extend(pairs()); p }
        "insert" => { let mut p = Parameters::new(); for (k, v) in pairs() { p.insert(k, v); } p }
        _ => pairs().collect(),
    };
    let keys: Vec<B> = model.keys().cloned().chain(case["ops"].as_array().into_iter().flatten().map(|o| s2b(&o[1]))).chain(vec![vec![], b"zz".to_vec(), vec![0xff]]).collect();
    let look = |p: &Parameters, model: &BTreeMap<B, B>, what: &str| -> Result<(), String> {
        for k in &keys {
            let raw = model.get(k);
            let at = |s: &str| err(format!("after {}: {} of {} is wrong (content {:?})", what, s, show(k), raw.map(|r| show(r))));
            if p.get_raw(&k[..]).map(|v| v.as_bytes()) != raw.map(|r| &r[..]) { return at("get_raw") }
            if p.get(&k[..]).map(|s| s.into_owned()) != raw.map(|r| String::from_utf8_lossy(r).into_owned()) { return at("get") }
            if p.contains_key(&k[..]) != raw.is_some() { return at("contains_key") }
            if p.get_raw(k).map(|v| v.is_utf8()) != raw.map(|r| std::str::from_utf8(r).is_ok()) { return at("the UTF-8 tag") }
            if let Ok(s) = std::str::from_utf8(k) { if p.get(s) != p.get(k) || p.get(&s.to_string()) != p.get(k) || p.get(&MaybeUtf8Owned::from(s)) != p.get(k) { return at("get by another key type") } }
            typed::<i32>(p, k, raw, -7, "i32")?;
            typed::<u8>(p, k, raw, 7, "u8")?;
            typed::<bool>(p, k, raw, true, "bool")?;
            typed::<f64>(p, k, raw, 0.25, "f64")?;
            typed::<String>(p, k, raw, "or".to_string(), "String")?;
            typed::<char>(p, k, raw, 'q', "char")?;
        }
        if p.len() != model.len() { return err(format!("after {}: {} parameters, should be {}", what, p.len(), model.len())) }
        let it: BTreeMap<B, B> = p.iter().map(|(k, v)| (k.as_bytes().to_vec(), v.as_bytes().to_vec())).collect();
        if it != *model || p.iter().count() != model.len() { return err(format!("after {}: iteration differs", what)) }
        let it: BTreeMap<B, B> = p.clone().into_iter().map(|(k, v)| (k.into(), v.into())).collect();
        if it != *model { return err(format!("after {}: owned iteration differs", what)) }
        let it: BTreeMap<B, B> = (&*p).into_iter().map(|(k, v)| (k.as_bytes().to_vec(), v.as_bytes().to_vec())).collect();
        if it != *model { return err(format!("after {}: borrowed iteration differs", what)) }
        let m: HashMap<MaybeUtf8Owned, MaybeUtf8Owned> = p.clone().into();
        if m.len() != model.len() || *AsRef::<HashMap<_, _>>::as_ref(p) != m || p.clone() != Parameters::from(m) { return err(format!("after {}: converting to a map differs", what)) }
        Ok(())
    };
    look(&p, &model, "construction")?;
    for (i, op) in case["ops"].as_array().into_iter().flatten().enumerate() {
        let (k, v) = (s2b(&op[1]), s2b(&op[2]));
        let what = format!("step {} {}", i, op);
        match op[0].as_str().unwrap_or("") {
            "insert" => { let o = p.insert(mu(&k, i as u64), mu(&v, i as u64)); let w = model.insert(k, v); if o.map(|x| x.as_bytes().to_vec()) != w { return err(format!("{}: insert returned something else", what)) } }
            "remove" => { let o = p.remove(&k[..]); let w = model.remove(&k); if o.map(|x| x.as_bytes().to_vec()) != w { return err(format!("{}: remove returned something else", what)) } }
            "entry" => { let o = p.entry(mu(&k, i as u64)).or_insert(mu(&v, 1)).as_bytes().to_vec(); let w = model.entry(k).or_insert(v).clone(); if o != w { return err(format!("{}: entry gave {}", what, show(&o))) } }
            "mut" => { let o = p.get_mut(&k[..]).map(|x| x.push_bytes(&v)); let w = model.get_mut(&k).map(|x| x.extend(v)); if o != w { return err(format!("{}: get_mut found {:?}", what, o)) } }
            "mutit" => { for (_, x) in p.iter_mut() { x.push_bytes(&v) } for x in model.values_mut() { x.extend(&v[..]) } }
            "extend" => { p.extend(vec![(mu(&k, 0), mu(&v, 1)), (mu(b"zz", 0), mu(&k, 0))]); model.insert(k.clone(), v); model.insert(b"zz".to_vec(), k); }
            _ => { let q: Parameters = p.into_iter().collect(); p = q }
        }
        look(&p, &model, &what)?;
        st.eval(hash(&format!("{:?}", (op[0].as_str(), model.len()))));
    }
    Ok(())
}
fn gen_p22(g: &mut Gen) {
    let keys: &[&[u8]] = &[b"", b"a", b"b", b"\xff", b"zz", b"\xc3\xa9"];
    for n in g.sizes(300) { for from in ["collect", "map", "extend", "insert"] {
        let start: Vec<Value> = (0..n).map(|i| json!([format!("k{}", i), format!("{}", i)])).collect();
        if !g.each(|| json!({"from": from, "start": start, "ops": [["insert", "k0", "x"], ["remove", "k1", ""], ["extend", "new", "5"]]})) { return }
        if !g.each(|| json!({"from": from, "start": [["k".repeat(n), "1".repeat(n)], ["a", "0".repeat(n) + "7"]], "ops": [["mut", "a", "1"]]})) { return }
    } }
    let vals: &[&[u8]] = &[b"", b"1", b"-1", b"256", b" 1", b"1 ", b"true", b"TRUE", b"\xff", b"1\xff", b"0.5", b"x", b"\xe2\x82", b"+3", b"2147483648", b"abc\xf0\x9f", b"\xef\xbf\xbd"];
    for k in keys { for v in vals { for from in ["collect", "map", "extend", "insert"] { if !g.each(|| json!({"from": from, "start": [[b2s(k), b2s(v)], ["b", "2"]], "ops": [["insert", b2s(k), "5"]]})) { return } } } }
    for w in words(&["insert", "remove", "entry", "mut", "collect"], 4) { if !g.each(|| json!({"from": "collect", "start": [["a", "1"]], "ops": w.iter().enumerate().map(|(i, o)| json!([o, "a", format!("{}", i)])).collect::<Vec<_>>()})) { return } }
    g.small_scope_done();
    loop {
        let key = |g: &mut Gen| b2s(&if g.chance(1, 5) { frag(g) } else { g.pick(keys).to_vec() });
        let val = |g: &mut Gen| b2s(&if g.chance(1, 4) { frag(g) } else { g.pick(vals).to_vec() });
        let (n, m) = (g.below(5), g.below(6));
        let start: Vec<Value> = (0..n).map(|_| json!([key(g), val(g)])).collect();
        let ops: Vec<Value> = (0..m).map(|_| json!([*g.pick(&["insert", "remove", "entry", "mut", "mutit", "extend", "collect"]), key(g), val(g)])).collect();
        let from = *g.pick(&["collect", "map", "extend", "insert"]);
        if !g.emit(json!({"from": from, "start": start, "ops": ops})) { return }
    }
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "P10", gen: gen_p10, check: check_p10, rule: "creations and edit sequences of MaybeUtf8 against a Vec<u8> and std; distinct by the last bytes and length" },
        Prop { id: "P11", gen: gen_p11, check: check_p11, rule: "pairs of byte strings in every representation, both sides of every operator; distinct by outcome, lengths and representations" },
        Prop { id: "P15", gen: gen_p15, check: check_p15, rule: "constructions and insertions of Global against a map; distinct by the types present and the one inserted" },
        Prop { id: "P17", gen: gen_p17, check: check_p17, rule: "paths as bytes against their segments; distinct by result and shape" },
        Prop { id: "P18", gen: gen_p18, check: check_p18, rule: "addresses through every conversion; distinct by kind, and which parts are zero" },
        Prop { id: "P20", gen: gen_p20, check: check_p20, rule: "lists of links against tuples; distinct by outcome and shape" },
        Prop { id: "P21", gen: gen_p21, check: check_p21, rule: "extensions against the bundled list: all listed ones, all of up to three letters and digits, then edits of listed ones; distinct by extension and type" },
        Prop { id: "P27", gen: gen_p27, check: check_p27, rule: "types made by content_type! from names, and from any strings with up to six parameters, taken apart again; distinct by known names, number of parameters and length" },
        Prop { id: "P22", gen: gen_p22, check: check_p22, rule: "constructions and edits of Parameters against a map, all typed accessors; distinct by step kind and size" },
    ]
}
