// Unit segments: P01 (how paths become segments)
use vstd::prelude::*;
use std::cmp::Ordering;
verus! {
//@include lib/prelude.vrs
//@include lib/utf8.vrs
//@include lib/cut.vrs
//@include lib/bytes.vrs

/// std: Iterator
pub trait Iterator {}
impl<T> Iterator for VIter<T> {}
/// std: iterators over segments
pub trait Parts<'a>: VxIter<Item = &'a [u8]> {
    /// std: collect yields what next does
    fn vx_collect(self) -> (r: Vec<&'a [u8]>) ensures r@ == self.vx_items();
}
/// std: collect
impl<'a> Parts<'a> for VIter<&'a [u8]> { #[verifier::external_body] fn vx_collect(self) -> (r: Vec<&'a [u8]>) { unimplemented!() } }
/// what next yields
impl<T> VxIter for RouteIter<VIter<T>> { type Item = T; open spec fn vx_items(self) -> Seq<T> { self.rest() } }
/// std: collect
impl<'a> Parts<'a> for RouteIter<VIter<&'a [u8]>> { #[verifier::external_body] fn vx_collect(self) -> (r: Vec<&'a [u8]>) { unimplemented!() } }

pub trait Route<'a> {
    type Segments: Parts<'a>;
    spec fn parts(&self) -> Seq<Seq<u8>>;
    fn segments(&'a self) -> (r: Self::Segments) ensures views(r.vx_items()) == self.parts();
}
pub uninterp spec fn hint(left: nat, n: usize, m: Option<usize>) -> bool;
impl<T> VIter<T> {
    /// std: size_hint
    #[verifier::external_body] pub fn size_hint(&self) -> (r: (usize, Option<usize>)) ensures r.0 <= self@.len(), r.1 is Some ==> self@.len() <= r.1->0 { unimplemented!() }
}
pub trait VxEnds {
    spec fn s(&self) -> Seq<u8>;
    /// std: starts_with, for one byte
    fn vx_starts(&self, p: &[u8; 1]) -> (r: bool) ensures r == (self.s().len() > 0 && self.s()[0] == p@[0]);
    /// std: ends_with, for one byte
    fn vx_ends(&self, p: &[u8; 1]) -> (r: bool) ensures r == (self.s().len() > 0 && self.s().last() == p@[0]);
    /// std: x[n..]
    fn vx_from(&self, n: usize) -> (r: &[u8]) requires n <= self.s().len() ensures r@ == self.s().skip(n as int);
    /// std: x[..n]
    fn vx_to(&self, n: usize) -> (r: &[u8]) requires n <= self.s().len() ensures r@ == self.s().take(n as int);
}
/// std: slices
impl VxEnds for [u8] {
    open spec fn s(&self) -> Seq<u8> { self@ }
    #[verifier::external_body] fn vx_starts(&self, p: &[u8; 1]) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn vx_ends(&self, p: &[u8; 1]) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn vx_from(&self, n: usize) -> (r: &[u8]) { unimplemented!() }
    #[verifier::external_body] fn vx_to(&self, n: usize) -> (r: &[u8]) { unimplemented!() }
}
//@item src/handler/routing.rs IS_SLASH
//@opt check-only
//@expect pub const IS_SLASH: &'static fn(&u8) -> bool = & (is_slash as fn(&u8) -> bool);
//@end
/// the byte that is_slash accepts; it is verified to be '/'
pub const IS_SLASH: u8 = 0x2f;
//@gtok b"/" => &[b'/']
//@gmethod starts_with => vx_starts
//@gmethod ends_with => vx_ends
//@gmethod split => vx_split
//@gmethod collect => vx_collect
//@fn src/handler/routing.rs - - is_slash
//@sig pub fn is_slash(c: &u8) -> (r: bool)
//@spec
    ensures r == (*c == IS_SLASH), // [P01]
//@end
//@item src/handler/routing.rs RouteIter
//@end
impl<T> RouteIter<VIter<T>> {
    pub open spec fn rest(self) -> Seq<T> { match self { RouteIter::Root => Seq::empty(), RouteIter::Path(i) => i@ } }
//@fn src/handler/routing.rs RouteIter<I> Iterator next
//@sig pub fn next(&mut self) -> (r: Option<T>)
//@method next => vx_next
//@spec
    ensures match r {
        Some(x) => old(self).rest().len() > 0 && x == old(self).rest()[0] && final(self).rest() == old(self).rest().skip(1),
        None => old(self).rest().len() == 0 && final(self).rest() == old(self).rest() }, // [P01]
//@end
//@fn src/handler/routing.rs RouteIter<I> Iterator size_hint
//@sig pub fn size_hint(&self) -> (r: (usize, Option<usize>))
//@spec
    ensures r.0 <= self.rest().len(), r.1 is Some ==> self.rest().len() <= r.1->0, // [P01]
//@end
}
impl<'a> Route<'a> for [u8] {
    type Segments = RouteIter<VIter<&'a [u8]>>;
    open spec fn parts(&self) -> Seq<Seq<u8>> { segments_of(self@) }
//@fn src/handler/routing.rs [u8] Route<'a> segments
//@sig fn segments(&'a self) -> (r: RouteIter<VIter<&'a [u8]>>)
//@opt ranges
//@at before if s.len() == 0
    assert(s@ =~= bare(self@));
//@at exit
    assert(views(vx_r.vx_items()) =~= self.parts());
//@spec
//@end
}
impl<'a> Route<'a> for str {
    type Segments = RouteIter<VIter<&'a [u8]>>;
    open spec fn parts(&self) -> Seq<Seq<u8>> { segments_of(text(self)) }
//@fn src/handler/routing.rs str Route<'a> segments
//@sig fn segments(&'a self) -> (r: RouteIter<VIter<&'a [u8]>>)
//@method as_bytes => vx_bytes
//@spec
//@end
}
/// SPEC: the segments of a list are those of its elements, in order
pub open spec fn joined(s: Seq<Seq<Seq<u8>>>) -> Seq<Seq<u8>> decreases s.len() { if s.len() == 0 { Seq::empty() } else { s[0] + joined(s.skip(1)) } }
/// std: Deref
pub trait Deref { type Target: ?Sized; spec fn target(&self) -> &Self::Target; fn deref(&self) -> (r: &Self::Target) ensures r == self.target(); }
/// std: IntoIterator for references
pub trait List<'a> { type T: 'a; spec fn items(&self) -> Seq<&'a Self::T>; fn into_iter(&'a self) -> (r: VIter<&'a Self::T>) ensures r@ == self.items(); }
//@fn src/handler/routing.rs I Route<'a> segments/segments
//@sig pub fn segments<'a, 'b: 'a, T: Deref<Target = R> + 'b, R: ?Sized + Route<'a> + 'b>(s: &'a T) -> (r: R::Segments)
//@tok s.segments() => s.deref().segments()
//@spec
    ensures views(r.vx_items()) == s.target().parts(), // [P01]
//@end
pub open spec fn elements<'a, T: Deref>(s: Seq<&'a T>) -> Seq<Seq<Seq<u8>>> where T::Target: Route<'a> { Seq::new(s.len(), |i: int| s[i].target().parts()) }
impl<'a, 'b: 'a, I: List<'a>> Route<'a> for I where I::T: Deref + 'b, <I::T as Deref>::Target: Route<'a> + 'b {
    type Segments = VIter<&'a [u8]>;
    open spec fn parts(&self) -> Seq<Seq<u8>> { joined(elements(self.items())) }
//@fn src/handler/routing.rs I Route<'a> segments
//@sig fn segments(&'a self) -> (r: VIter<&'a [u8]>)
//@spec
//@at entry
    let ghost all = elements(self.items());
    let ghost mut n = 0int;
    proof { assert(all.skip(0) =~= all); assert(self.items().skip(0) =~= self.items()); }
//@at loop 0 spec
    invariant all == elements(self.items()), 0 <= n <= all.len(), vx_it0@ == self.items().skip(n), views(vx_c1@) + joined(all.skip(n)) =~= joined(all),
    ensures views(vx_c1@) == joined(all),
    decreases vx_it0@.len(),
//@at loop 0 start
    proof { assert(vx_v3 == self.items()[n]); n = n + 1; assert(all.skip(n - 1).skip(1) =~= all.skip(n)); assert(all.skip(n - 1)[0] == all[n - 1]); assert(self.items().skip(n - 1).skip(1) =~= self.items().skip(n)); }
//@at loop 1 spec
    invariant views(vx_c1@) + views(vx_it1@) + joined(all.skip(n)) =~= joined(all),
    ensures views(vx_c1@) + joined(all.skip(n)) =~= joined(all),
    decreases vx_it1@.len(),
//@at loop 1 next
    let ghost before = views(vx_it1@);
    let ghost had = views(vx_c1@);
    let ghost was = vx_it1@;
//@at loop 1 start
    proof { assert(before =~= seq![vx_v2@] + views(was.skip(1))); assert(views(vx_c1@) == had); assert(views(vx_c1@.push(vx_v2)) =~= had + seq![vx_v2@]); }
//@at loop 1 exit
    proof { assert(views(vx_it1@) =~= Seq::empty()); }
//@at loop 0 exit
    proof { assert(n == all.len()); assert(joined(all.skip(n)) =~= Seq::empty()); }
//@end
}
/// what routing starts with: the segments, nothing captured, at the first
//@item src/handler/routing.rs RouteState
//@end
impl<'a> RouteState<'a> {
//@fn src/handler/routing.rs RouteState<'a> From<&'aR> from
//@sig pub fn from<R: Route<'a> + ?Sized>(route: &'a R) -> (r: RouteState<'a>)
//@spec
    ensures views(r.route@) == route.parts(), r.variables@.len() == r.route@.len(), forall|i: int| 0 <= i < r.variables@.len() ==> #[trigger] r.variables@[i] is None,
        r.index == 0, r.var_index == 0, // [P01]
//@end
}
pub open spec fn join(s: Seq<Seq<u8>>, c: u8) -> Seq<u8> decreases s.len() { if s.len() == 0 { Seq::empty() } else if s.len() == 1 { s[0] } else { s[0] + seq![c] + join(s.skip(1), c) } }
/// THEOREM: there is one way only: the segments have no '/' in them, and joined by '/' they are the path again
pub proof fn theorem_one_way(b: Seq<u8>)
    ensures bare(b).len() > 0 ==> join(segments_of(b), 0x2f) == bare(b), forall|i: int, j: int| 0 <= i < segments_of(b).len() && 0 <= j < segments_of(b)[i].len() ==> #[trigger] segments_of(b)[i][j] != 0x2f
{ lemma_cut(bare(b), 0x2f); }
pub proof fn lemma_cut(s: Seq<u8>, c: u8)
    ensures cut(s, c).len() > 0, join(cut(s, c), c) == s, forall|i: int, j: int| 0 <= i < cut(s, c).len() && 0 <= j < cut(s, c)[i].len() ==> #[trigger] cut(s, c)[i][j] != c
    decreases s.len()
{
    let n = first(s, c) as int;
    lemma_first(s, c);
    if n < s.len() {
        let rest = s.skip(n + 1);
        lemma_cut(rest, c);
        assert(cut(s, c).skip(1) =~= cut(rest, c));
        assert(s =~= s.take(n) + seq![c] + rest);
        assert forall|i: int, j: int| 0 <= i < cut(s, c).len() && 0 <= j < cut(s, c)[i].len() implies #[trigger] cut(s, c)[i][j] != c by { if i > 0 { assert(cut(s, c)[i] == cut(rest, c)[i - 1]); } }
    }
}
} // verus!
fn main() {}
