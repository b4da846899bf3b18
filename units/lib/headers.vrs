// ---- lib/headers.vrs: header fields, by kind
/// value of a header field
#[verifier::external_body] pub struct HV { x: () }
pub enum Kind { Date, ContentType, Server, Host, Connection, ContentLength, Other(Seq<u8>) }
pub type HeadersV = Map<Kind, HV>;
pub trait Header { spec fn kind() -> Kind; spec fn val(&self) -> HV; }
/// hyper::header::Headers
#[verifier::external_body] pub struct Headers { x: u8 }
impl View for Headers { type V = HeadersV; uninterp spec fn view(&self) -> HeadersV; }
impl Headers {
    /// hyper: Headers::set
    #[verifier::external_body] pub fn set<H: Header>(&mut self, h: H) ensures final(self)@ == old(self)@.insert(H::kind(), h.val()) { unimplemented!() }
    /// hyper: Headers::has
    #[verifier::external_body] pub fn has<H: Header>(&self) -> (r: bool) ensures r == self@.contains_key(H::kind()) { unimplemented!() }
    /// hyper: Headers::remove
    #[verifier::external_body] pub fn remove<H: Header>(&mut self) -> (r: bool) ensures final(self)@ == old(self)@.remove(H::kind()), r == old(self)@.contains_key(H::kind()) { unimplemented!() }
    /// hyper: Headers::clear
    #[verifier::external_body] pub fn clear(&mut self) ensures final(self)@ == HeadersV::empty() { unimplemented!() }
    /// hyper: Headers::get
    #[verifier::external_body] pub fn get<H: Header>(&self) -> (r: Option<&H>) ensures match r { Some(h) => typed::<H>(self@) == Some(*h), None => typed::<H>(self@) is None } { unimplemented!() }
}
/// hyper: the field, if it's there and can be parsed
pub uninterp spec fn typed<H: Header>(h: HeadersV) -> Option<H>;
