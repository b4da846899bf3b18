use vstd::prelude::*;
verus! {
//@include lib/prelude.vrs
//@include lib/types.vrs
// ---- content_type!
pub mod mime { pub use super::{Mime, TopLevel, SubLevel, Attr, Value}; }
pub mod macros { pub use super::{MimeHelper, VxFrom}; }
/// What a string stands for
pub trait FromStr: Sized { spec fn text(self) -> Seq<char>; }
/// mime: the written form, known or not
pub uninterp spec fn top_text(t: TopLevel) -> Seq<char>;
/// mime
pub uninterp spec fn sub_text(t: SubLevel) -> Seq<char>;
/// mime
pub uninterp spec fn attr_text(t: Attr) -> Seq<char>;
/// mime
pub uninterp spec fn value_text(t: Value) -> Seq<char>;
impl FromStr for TopLevel { open spec fn text(self) -> Seq<char> { top_text(self) } }
impl FromStr for SubLevel { open spec fn text(self) -> Seq<char> { sub_text(self) } }
impl FromStr for Attr { open spec fn text(self) -> Seq<char> { attr_text(self) } }
impl FromStr for Value { open spec fn text(self) -> Seq<char> { value_text(self) } }
pub open spec fn parse_ok<T: FromStr>(r: Result<T, ()>, s: Seq<char>) -> bool { match r { Ok(t) => t.text() == s, Err(_) => false } }
pub trait VxParse<T: FromStr> { fn vx_parse(&self) -> (r: Result<T, ()>); }
impl<T: FromStr> VxParse<T> for str {
    /// mime: from_str of its enums takes every string
    #[verifier::external_body] fn vx_parse(&self) -> (r: Result<T, ()>) ensures parse_ok::<T>(r, self@) { unimplemented!() }
}
//@item src/macros.rs MimeHelper
//@end
pub trait VxFrom<X>: Sized { spec fn from_ok(x: X, r: Self) -> bool; fn vx_from(x: X) -> (r: Self) ensures Self::from_ok(x, r); }
impl<'a, T: FromStr> MimeHelper<'a, T> {
    pub open spec fn means(self, r: T) -> bool { match self { MimeHelper::Str(s) => r.text() == s@, MimeHelper::Target(t) => t == r } }
//@fn src/macros.rs MimeHelper<'a,T> - convert
//@sig pub fn convert(self) -> (r: T)
//@spec
    ensures self.means(r), // [P27]
//@method parse => vx_parse
//@end
}
impl<'a, T: FromStr> VxFrom<&'a str> for MimeHelper<'a, T> {
    open spec fn from_ok(x: &'a str, r: Self) -> bool { r matches MimeHelper::Str(s) && s@ == x@ }
//@fn src/macros.rs MimeHelper<'a,T> From<&'astr> from
//@sig fn vx_from(s: &'a str) -> (r: MimeHelper<'a, T>)
//@end
}
impl<'a> VxFrom<TopLevel> for MimeHelper<'a, TopLevel> {
    open spec fn from_ok(x: TopLevel, r: Self) -> bool { r matches MimeHelper::Target(t) && t == x }
//@fn src/macros.rs MimeHelper<'a,TopLevel> From<TopLevel> from
//@sig fn vx_from(t: TopLevel) -> (r: MimeHelper<'a, TopLevel>)
//@end
}
impl<'a> VxFrom<SubLevel> for MimeHelper<'a, SubLevel> {
    open spec fn from_ok(x: SubLevel, r: Self) -> bool { r matches MimeHelper::Target(t) && t == x }
//@fn src/macros.rs MimeHelper<'a,SubLevel> From<SubLevel> from
//@sig fn vx_from(t: SubLevel) -> (r: MimeHelper<'a, SubLevel>)
//@end
}
impl<'a> VxFrom<Attr> for MimeHelper<'a, Attr> {
    open spec fn from_ok(x: Attr, r: Self) -> bool { r matches MimeHelper::Target(t) && t == x }
//@fn src/macros.rs MimeHelper<'a,Attr> From<Attr> from
//@sig fn vx_from(t: Attr) -> (r: MimeHelper<'a, Attr>)
//@end
}
impl<'a> VxFrom<Value> for MimeHelper<'a, Value> {
    open spec fn from_ok(x: Value, r: Self) -> bool { r matches MimeHelper::Target(t) && t == x }
//@fn src/macros.rs MimeHelper<'a,Value> From<Value> from
//@sig fn vx_from(t: Value) -> (r: MimeHelper<'a, Value>)
//@end
}
//@item src/macros.rs content_type
//@tok MimeHelper :: from => <MimeHelper<_> as $crate::macros::VxFrom<_>>::vx_from
//@end
/// the macro with strings: any number of parameters is its repetition of one
pub fn macro_of_strings(a: &'static str, b: &'static str) -> (r: Mime)
    ensures r.0.text() == a@, r.1.text() == b@, r.2@.len() == 0, // [P27]
{ content_type!(a / b) }
pub fn macro_of_string_params(a: &'static str, b: &'static str, c: &'static str, d: &'static str, e: &'static str, f: &'static str) -> (r: Mime)
    ensures r.0.text() == a@, r.1.text() == b@, r.2@.len() == 2, r.2@[0].0.text() == c@, r.2@[0].1.text() == d@, r.2@[1].0.text() == e@, r.2@[1].1.text() == f@, // [P27]
{ content_type!(a / b; c = d; e = f) }
/// and with names
pub fn macro_of_names() -> (r: (Mime, Mime))
    ensures r.0 .0 is Text, r.0 .1 is Html, r.0 .2@.len() == 0, // [P27]
        r.1 .0 is Application, r.1 .1 is Json, r.1 .2@.len() == 1, r.1 .2@[0].0 is Charset, r.1 .2@[0].1 is Utf8, // [P27]
{ (content_type!(Text / Html), content_type!(Application / Json; Charset = Utf8)) }
}
fn main() {}
