use vstd::prelude::*;
use vstd::std_specs::cmp::*;
use std::cmp::Ordering;
verus! {
//@include lib/utf8.vrs
// ---- the parts of a link
/// hyper::Method, seen as its name. No Method::Extension has the name of another method (that's how hyper makes them).
#[verifier::external_body] pub struct Method { x: () }
impl Method {
    pub uninterp spec fn name(&self) -> Seq<u8>;
    /// hyper: AsRef<str> is the name
    #[verifier::external_body] pub fn as_ref(&self) -> (r: &Name) ensures r.bytes() == self.name() { unimplemented!() }
}
/// str
#[verifier::external_body] pub struct Name { x: () }
impl Name {
    pub uninterp spec fn bytes(&self) -> Seq<u8>;
    /// std: strings are ordered by their bytes
    #[verifier::external_body] pub fn vx_cmp<T: Named + ?Sized>(&self, o: &T) -> (r: Ordering) ensures r == lex_cmp(self.bytes(), o.text()) { unimplemented!() }
}
/// str and &str
pub trait Named { spec fn text(&self) -> Seq<u8>; }
impl Named for Name { open spec fn text(&self) -> Seq<u8> { self.bytes() } }
impl<'a> Named for &'a Name { open spec fn text(&self) -> Seq<u8> { (**self).bytes() } }
/// hyper: derived PartialEq
#[verifier::external_body] pub fn vx_methods_eq(a: &Option<Method>, b: &Option<Method>) -> (r: bool)
    ensures r == match (a, b) { (Some(x), Some(y)) => x.name() == y.name(), (None, None) => true, _ => false } { unimplemented!() }
/// Compares as its bytes (P11)
#[verifier::external_body] pub struct MaybeUtf8Slice<'a> { x: &'a () }
impl<'a> MaybeUtf8Slice<'a> { pub uninterp spec fn bytes(&self) -> Seq<u8>; }
pub trait Handler { }
//@item src/context/hypermedia.rs SegmentType
//@opt derives PartialEq Eq PartialOrd Ord
//@expect pub enum SegmentType { Static, VariableSegment, VariableSequence, }
//@end
//@item src/context/hypermedia.rs LinkSegment
//@opt derives PartialEq Eq PartialOrd Ord
//@expect pub struct LinkSegment<'a> { pub label: MaybeUtf8Slice<'a>, pub ty: SegmentType }
//@end
#[verifier::external_body] pub struct DynHandler { x: () }
//@item src/context/hypermedia.rs Link
//@tok & 'a Handler => &'a DynHandler
//@end
pub struct SegV { pub label: Seq<u8>, pub ty: SegmentType }
impl<'a> View for LinkSegment<'a> { type V = SegV; open spec fn view(&self) -> SegV { SegV { label: self.label.bytes(), ty: self.ty } } }
pub struct LinkV { pub method: Option<Seq<u8>>, pub path: Seq<SegV> }
impl<'a> View for Link<'a> { type V = LinkV; open spec fn view(&self) -> LinkV { LinkV { method: match self.method { Some(m) => Some(m.name()), None => None }, path: self.path@.map_values(|s: LinkSegment<'a>| s@) } } }

// ---- the order
pub open spec fn rank(t: SegmentType) -> int { match t { SegmentType::Static => 0, SegmentType::VariableSegment => 1, SegmentType::VariableSequence => 2 } }
pub open spec fn seg_cmp(a: SegV, b: SegV) -> Ordering {
    let o = lex_cmp(a.label, b.label);
    if o != Ordering::Equal { o } else if rank(a.ty) < rank(b.ty) { Ordering::Less } else if rank(a.ty) > rank(b.ty) { Ordering::Greater } else { Ordering::Equal }
}
pub open spec fn path_cmp(a: Seq<SegV>, b: Seq<SegV>) -> Ordering decreases a.len() {
    if a.len() == 0 && b.len() == 0 { Ordering::Equal }
    else if a.len() == 0 { Ordering::Less }
    else if b.len() == 0 { Ordering::Greater }
    else if seg_cmp(a[0], b[0]) != Ordering::Equal { seg_cmp(a[0], b[0]) }
    else { path_cmp(a.skip(1), b.skip(1)) }
}
pub open spec fn method_cmp(a: Option<Seq<u8>>, b: Option<Seq<u8>>) -> Ordering {
    match (a, b) { (None, None) => Ordering::Equal, (None, Some(_)) => Ordering::Less, (Some(_), None) => Ordering::Greater, (Some(x), Some(y)) => lex_cmp(x, y) }
}
/// by method, then by path
pub open spec fn link_cmp(a: LinkV, b: LinkV) -> Ordering {
    if method_cmp(a.method, b.method) != Ordering::Equal { method_cmp(a.method, b.method) } else { path_cmp(a.path, b.path) }
}
/// std: == on Vec, with the derived == of LinkSegment
#[verifier::external_body] pub fn vx_paths_eq<'a>(a: &Vec<LinkSegment<'a>>, b: &Vec<LinkSegment<'a>>) -> (r: bool)
    ensures r == (a@.map_values(|s: LinkSegment<'a>| s@) == b@.map_values(|s: LinkSegment<'a>| s@)) { unimplemented!() }
pub trait VxCmp { spec fn cmp_spec(&self, o: &Self) -> Ordering; fn vx_cmp(&self, o: &Self) -> (r: Ordering) ensures r == self.cmp_spec(o); }
/// std: cmp on Vec is lexicographic, with the derived order of LinkSegment (label, then kind in order of declaration)
impl<'a> VxCmp for Vec<LinkSegment<'a>> {
    open spec fn cmp_spec(&self, o: &Self) -> Ordering { path_cmp(self@.map_values(|s: LinkSegment<'a>| s@), o@.map_values(|s: LinkSegment<'a>| s@)) }
    #[verifier::external_body] fn vx_cmp(&self, o: &Self) -> (r: Ordering) { unimplemented!() }
}
/// std: == on Ordering
#[verifier::external_body] pub fn vx_ordering_eq(a: Ordering, b: Ordering) -> (r: bool) ensures r == (a == b) { unimplemented!() }
//@gmethod cmp => vx_cmp
//@gtok cmp :: Ordering => Ordering
//@gtok self . method == other . method => vx_methods_eq ( & self . method , & other . method )
//@gtok self . path == other . path => vx_paths_eq ( & self . path , & other . path )
impl<'a> Link<'a> {
//@fn src/context/hypermedia.rs Link cmp::PartialEq eq
//@sig fn eq(&self, other: &Link<'a>) -> (r: bool)
//@spec
    ensures r == (self@.method == other@.method && self@.path == other@.path),
//@end
//@fn src/context/hypermedia.rs Link cmp::PartialOrd partial_cmp
//@sig fn partial_cmp(&self, other: &Link<'a>) -> (r: Option<Ordering>)
//@spec
    ensures r == Some(link_cmp(self@, other@)),
//@end
}
impl<'a> VxCmp for Link<'a> {
    open spec fn cmp_spec(&self, other: &Link<'a>) -> Ordering { link_cmp(self@, other@) }
//@fn src/context/hypermedia.rs Link cmp::Ord cmp
//@sig fn vx_cmp(&self, other: &Link<'a>) -> (r: Ordering)
//@end
}
// ---- P20: that's a total order, and its equality is the equality of links
proof fn lemma_seg(a: SegV, b: SegV) ensures seg_cmp(a, b) == rev(seg_cmp(b, a)), seg_cmp(a, b) == Ordering::Equal <==> a == b
{ lemma_rev(a.label, b.label); lemma_equal(a.label, b.label); }
proof fn lemma_seg_trans(a: SegV, b: SegV, c: SegV) requires seg_cmp(a, b) != Ordering::Greater, seg_cmp(b, c) != Ordering::Greater
    ensures seg_cmp(a, c) != Ordering::Greater, (seg_cmp(a, b) == Ordering::Less || seg_cmp(b, c) == Ordering::Less) ==> seg_cmp(a, c) == Ordering::Less
{ lemma_trans(a.label, b.label, c.label); lemma_equal(a.label, b.label); lemma_equal(b.label, c.label); lemma_equal(a.label, c.label); }
proof fn lemma_path(a: Seq<SegV>, b: Seq<SegV>) ensures path_cmp(a, b) == rev(path_cmp(b, a)), path_cmp(a, b) == Ordering::Equal <==> a == b decreases a.len()
{
    if a.len() > 0 && b.len() > 0 {
        lemma_seg(a[0], b[0]);
        lemma_path(a.skip(1), b.skip(1));
        if a[0] == b[0] && a.skip(1) == b.skip(1) { assert(a =~= seq![a[0]] + a.skip(1)); assert(b =~= seq![b[0]] + b.skip(1)); }
    } else if a.len() == 0 && b.len() == 0 { assert(a =~= b); }
}
proof fn lemma_path_trans(a: Seq<SegV>, b: Seq<SegV>, c: Seq<SegV>) requires path_cmp(a, b) != Ordering::Greater, path_cmp(b, c) != Ordering::Greater
    ensures path_cmp(a, c) != Ordering::Greater, (path_cmp(a, b) == Ordering::Less || path_cmp(b, c) == Ordering::Less) ==> path_cmp(a, c) == Ordering::Less
    decreases a.len()
{
    if a.len() > 0 && b.len() > 0 && c.len() > 0 {
        lemma_seg(a[0], b[0]); lemma_seg(b[0], c[0]); lemma_seg(a[0], c[0]);
        lemma_seg_trans(a[0], b[0], c[0]);
        if a[0] == b[0] && b[0] == c[0] { lemma_path_trans(a.skip(1), b.skip(1), c.skip(1)); }
    }
}
proof fn lemma_method(a: Option<Seq<u8>>, b: Option<Seq<u8>>) ensures method_cmp(a, b) == rev(method_cmp(b, a)), method_cmp(a, b) == Ordering::Equal <==> a == b
{ if let (Some(x), Some(y)) = (a, b) { lemma_rev(x, y); lemma_equal(x, y); } }
proof fn theorem_order(a: LinkV, b: LinkV, c: LinkV)
    ensures
        link_cmp(a, b) == Ordering::Equal <==> a.method == b.method && a.path == b.path,
        link_cmp(a, b) == rev(link_cmp(b, a)),
        link_cmp(a, b) != Ordering::Greater && link_cmp(b, c) != Ordering::Greater ==> link_cmp(a, c) != Ordering::Greater,
{
    lemma_method(a.method, b.method); lemma_method(b.method, c.method); lemma_method(a.method, c.method);
    lemma_path(a.path, b.path); lemma_path(b.path, c.path); lemma_path(a.path, c.path);
    if link_cmp(a, b) != Ordering::Greater && link_cmp(b, c) != Ordering::Greater {
        if let (Some(x), Some(y), Some(z)) = (a.method, b.method, c.method) { lemma_trans(x, y, z); }
        if a.method == b.method && b.method == c.method { lemma_path_trans(a.path, b.path, c.path); }
    }
}
}
fn main() {}
