use vstd::prelude::*;
verus! {
//@include lib/prelude.vrs
//@include lib/types.vrs
impl MaybeKnown<TopLevel> { pub open spec fn means(self, r: TopLevel) -> bool { match self { MaybeKnown::Known(t) => t.same(r), MaybeKnown::Unknown(s) => r matches TopLevel::Ext(t) && t@ == s@ } } }
impl MaybeKnown<SubLevel> { pub open spec fn means(self, r: SubLevel) -> bool { match self { MaybeKnown::Known(t) => t.same(r), MaybeKnown::Unknown(s) => r matches SubLevel::Ext(t) && t@ == s@ } } }
/// What the table generated from the list says of an extension.
pub uninterp spec fn listed(ext: Seq<char>) -> Option<(MaybeKnown<TopLevel>, MaybeKnown<SubLevel>)>;
/// The static table itself. phf: Map::get finds what the table lists.
pub struct MIME;
impl MIME {
    #[verifier::external_body] pub fn get(&self, ext: &str) -> (r: Option<&(MaybeKnown<TopLevel>, MaybeKnown<SubLevel>)>)
        ensures match r { Some(x) => listed(ext@) == Some(*x), None => listed(ext@) is None } { unimplemented!() }
    #[verifier::external_body] pub fn contains_key(&self, ext: &str) -> (r: bool) ensures r == (listed(ext@) is Some) { unimplemented!() }
}
pub trait VInto<T>: Sized { spec fn gives(self, r: T) -> bool; fn vx_into(self) -> (r: T) ensures self.gives(r); }
impl VInto<String> for &str {
    open spec fn gives(self, r: String) -> bool { r@ == self@ }
    #[verifier::external_body] fn vx_into(self) -> (r: String) { unimplemented!() }
}

//@fn src/file.rs - - ext_to_mime
//@sig pub fn ext_to_mime(ext: &str) -> (r: Option<Mime>)
//@spec
    ensures match r {
        Some(Mime(top, sub, params)) => listed(ext@) is Some && (listed(ext@)->0).0.means(top) && (listed(ext@)->0).1.means(sub) && params@.len() == 0,
        None => listed(ext@) is None,
    },
//@method into => vx_into
//@end
impl<'a> VInto<TopLevel> for &'a MaybeKnown<TopLevel> {
    open spec fn gives(self, r: TopLevel) -> bool { (*self).means(r) }
//@fn src/file.rs &'aMaybeKnown<TopLevel> Into<TopLevel> into
//@sig fn vx_into(self) -> (r: TopLevel)
//@method into => vx_into
//@end
}
impl<'a> VInto<SubLevel> for &'a MaybeKnown<SubLevel> {
    open spec fn gives(self, r: SubLevel) -> bool { (*self).means(r) }
//@fn src/file.rs &'aMaybeKnown<SubLevel> Into<SubLevel> into
//@sig fn vx_into(self) -> (r: SubLevel)
//@method into => vx_into
//@end
}
//@item src/file.rs MaybeKnown
//@end
}
fn main() {}
