// ---- lib/env.vrs: the request environment
#[verifier::external_body] pub struct Headers { x: u8 }
#[verifier::external_body] pub struct HttpVersion { x: u8 }
#[verifier::external_body] pub struct SocketAddr { x: u8 }
#[verifier::external_body] pub struct UriPath { x: u8 }
#[verifier::external_body] pub struct Global { x: u8 }
#[verifier::external_body] pub struct Parameters { x: u8 }
/// A map from byte strings to byte strings (P22 verifies its operations).
impl View for Parameters { type V = Map<Seq<u8>, Seq<u8>>; uninterp spec fn view(&self) -> Map<Seq<u8>, Seq<u8>>; }
#[verifier::external_body] pub struct BodyReader<'a, 'b> { x: &'a u8, y: &'b u8 }
#[verifier::external_body] pub struct HandlerRef<'a> { x: &'a u8 }

impl VxKey for Method { type KV = MethodV; open spec fn kv(&self) -> MethodV { self@ } }
impl VxKey for StatusCode { type KV = StatusCode; open spec fn kv(&self) -> StatusCode { *self } }

/// Response: only its status matters to the routers (set_status/status are under contract in unit response).
#[verifier::external_body] pub struct Response<'a, 'b> { x: &'a u8, y: &'b u8 }
impl<'a, 'b> Response<'a, 'b> {
    pub uninterp spec fn st(&self) -> StatusCode;
    /// every other component of the response
    pub uninterp spec fn rest(&self) -> int;
    #[verifier::external_body]
    pub fn status(&self) -> (r: StatusCode) ensures r == self.st() { unimplemented!() }
    #[verifier::external_body]
    pub fn set_status(&mut self, status: StatusCode) ensures final(self).st() == status, final(self).rest() == old(self).rest() { unimplemented!() }
}

//@item src/context/mod.rs Context
//@end
//@item src/context/hypermedia.rs Link
//@tok & 'a Handler => HandlerRef<'a>
//@end
//@item src/context/hypermedia.rs LinkSegment
//@end
//@item src/context/hypermedia.rs SegmentType
//@attr #[derive(PartialEq, Eq, Structural)]
//@end
//@item src/handler/mod.rs Environment
//@end

impl<'a> Link<'a> {
    /// derive(Clone)
    #[verifier::external_body]
    pub fn clone(&self) -> (r: Link<'a>) ensures r@ == self@, r == *self { unimplemented!() }
}
pub struct SegV { pub label: Seq<u8>, pub ty: SegmentType }
/// A link up to its handler reference (Link's own equality ignores the handler).
pub struct LinkV { pub method: Option<MethodV>, pub path: Seq<SegV> }
impl<'a> View for LinkSegment<'a> { type V = SegV; open spec fn view(&self) -> SegV { SegV { label: self.label.bytes(), ty: self.ty } } }
impl<'a> View for Link<'a> { type V = LinkV; open spec fn view(&self) -> LinkV {
    LinkV { method: match self.method { Some(m) => Some(m@), None => None }, path: Seq::new(self.path@.len(), |i: int| self.path@[i]@) } } }
pub open spec fn lset<'a>(s: Seq<Link<'a>>) -> ISet<LinkV> { ISet::new(|l: LinkV| exists|i: int| 0 <= i < s.len() && (#[trigger] s[i])@ == l) }

/// slice::sort + Vec::dedup on links keep the same set of links (Link's Eq/Ord ignore the handler).
pub trait VxSort { fn vx_sort(&mut self); fn vx_dedup(&mut self); }
#[verifier::external_body]
pub fn vx_sort<'a>(v: &mut Vec<Link<'a>>) ensures lset(final(v)@) == lset(old(v)@) { unimplemented!() }
#[verifier::external_body]
pub fn vx_dedup<'a>(v: &mut Vec<Link<'a>>) ensures lset(final(v)@) == lset(old(v)@) { unimplemented!() }

impl<'a, 'b, 'l, 'g> Context<'a, 'b, 'l, 'g> {
//@fn src/context/mod.rs Context - replace_hyperlinks
//@sig pub fn replace_hyperlinks<'n>(self, hyperlinks: Vec<Link<'n>>) -> (r: (Context<'a, 'b, 'n, 'g>, Vec<Link<'l>>))
//@spec
    ensures
        r.1 == self.hyperlinks,
        r.0.hyperlinks == hyperlinks,
        ctx_same(r.0, self),
//@end
}
/// Everything in the context except the hyperlinks.
pub open spec fn ctx_same<'a, 'b, 'l, 'm, 'g>(x: Context<'a, 'b, 'l, 'g>, y: Context<'a, 'b, 'm, 'g>) -> bool {
    &&& x.headers == y.headers &&& x.http_version == y.http_version &&& x.address == y.address
    &&& x.method == y.method &&& x.uri_path == y.uri_path &&& x.variables == y.variables
    &&& x.query == y.query &&& x.fragment == y.fragment &&& x.global == y.global &&& x.body == y.body
}
impl<'a, 'b, 'l, 'g> Environment<'a, 'b, 'l, 'g> {
//@fn src/handler/mod.rs Environment - replace_hyperlinks
//@sig pub fn replace_hyperlinks<'n>(self, hyperlinks: Vec<Link<'n>>) -> (r: (Environment<'a, 'b, 'n, 'g>, Vec<Link<'l>>))
//@spec
    ensures
        r.1 == self.context.hyperlinks,
        r.0.context.hyperlinks == hyperlinks,
        ctx_same(r.0.context, self.context),
        r.0.response == self.response,
        r.0.route_state == self.route_state,
//@end
}
