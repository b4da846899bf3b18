// Unit serve: P08 (parameters), P09 (targets), P14 (context filters), P19 (keep-alive)
use vstd::prelude::*;
use vstd::std_specs::cmp::*;
use std::cmp::Ordering;
verus! {

//@include lib/prelude.vrs
//@include lib/utf8.vrs
//@include lib/cut.vrs
//@include lib/bytes.vrs
pub broadcast group texts { axiom_str, axiom_empty, cut_first, cut_place, cut_none, push_one }
/// what the functions that cut texts need, wherever they do it
pub broadcast proof fn cut_first(s: Seq<u8>, c: u8) ensures #[trigger] first(s, c) <= s.len(), first(s, c) < s.len() ==> s[first(s, c) as int] == c, forall|j: int| 0 <= j < first(s, c) ==> s[j] != c { lemma_first(s, c); }
pub broadcast proof fn cut_place(t: &str, i: int) requires 0 <= i <= text(t).len() ensures
    i < text(t).len() && text(t)[i] < 0x80 ==> #[trigger] boundary(text(t), i),
    i > 0 && text(t)[i - 1] < 0x80 ==> boundary(text(t), i)
{ axiom_str(t); if i < text(t).len() && text(t)[i] < 0x80 { lemma_after_ascii(text(t), i); } if i > 0 && text(t)[i - 1] < 0x80 { lemma_after_ascii(text(t), i - 1); } }
pub broadcast proof fn cut_none(s: Seq<u8>, n: int) ensures n == s.len() ==> #[trigger] s.take(n) == s { if n == s.len() { assert(s.take(n) =~= s); } }
pub broadcast proof fn push_one(s: Seq<u8>, b: u8) ensures s.len() == 0 ==> #[trigger] s.push(b) == seq![b] { if s.len() == 0 { assert(s.push(b) =~= seq![b]); } }
pub broadcast proof fn add_none(s: Seq<u8>, t: Seq<u8>) ensures s.len() == 0 ==> #[trigger] (s + t) == t { if s.len() == 0 { assert(s + t =~= t); } }
/// ""
#[verifier::external_body] pub broadcast proof fn axiom_empty(s: &str) ensures s@.len() == 0 ==> (#[trigger] text(s)).len() == 0 {}
#[verifier::external_body] pub struct String { s: std::string::String }
impl Bytes for String { uninterp spec fn bytes(&self) -> Seq<u8>; }
impl String {
    /// std: String::new
    #[verifier::external_body] pub fn new() -> (r: String) ensures r.bytes() == Seq::<u8>::empty() { unimplemented!() }
    /// std: deref
    #[verifier::external_body] pub fn vx_str(&self) -> (r: &str) ensures text(r) == self.bytes() { unimplemented!() }
    /// std: clone
    #[verifier::external_body] pub fn clone(&self) -> (r: String) ensures r.bytes() == self.bytes() { unimplemented!() }
}
#[verifier::external_body] pub struct MaybeUtf8Owned { x: Vec<u8> }
impl Bytes for MaybeUtf8Owned { uninterp spec fn bytes(&self) -> Seq<u8>; }
#[verifier::external_body] pub struct MaybeUtf8Slice<'a> { x: &'a [u8] }
impl<'a> Bytes for MaybeUtf8Slice<'a> { uninterp spec fn bytes(&self) -> Seq<u8>; }
/// std::borrow::Cow<str>
#[verifier::external_body] #[verifier::reject_recursive_types(T)] pub struct Cow<'a, T: ?Sized> { x: &'a T }
impl<'a> Bytes for Cow<'a, str> { uninterp spec fn bytes(&self) -> Seq<u8>; }
/// std: String::from_utf8_lossy
pub uninterp spec fn lossy(b: Seq<u8>) -> Seq<u8>;
impl MaybeUtf8Owned {
    /// verified in unit maybe
    #[verifier::external_body] pub fn as_utf8(&self) -> (r: Option<&str>) ensures match r { Some(s) => utf8_ok(self.bytes()) && text(s) == self.bytes(), None => !utf8_ok(self.bytes()) } { unimplemented!() }
    /// verified in unit maybe
    #[verifier::external_body] pub fn as_utf8_lossy<'x>(&'x self) -> (r: Cow<'x, str>) ensures r.bytes() == lossy(self.bytes()) { unimplemented!() }
    /// verified in unit maybe
    #[verifier::external_body] pub fn as_slice(&self) -> (r: MaybeUtf8Slice<'_>) ensures r.bytes() == self.bytes() { unimplemented!() }
    /// verified in unit maybe
    #[verifier::external_body] pub fn clone(&self) -> (r: MaybeUtf8Owned) ensures r.bytes() == self.bytes() { unimplemented!() }
}
impl<'a> MaybeUtf8Slice<'a> {
    /// Deref to [u8], verified in unit maybe
    #[verifier::external_body] pub fn vx_all(&self) -> (r: &[u8]) ensures r@ == self.bytes() { unimplemented!() }
}
/// Into, where it keeps the bytes (std, and unit maybe for MaybeUtf8)
pub trait VxInto<T>: Sized { spec fn into_ok(self, r: T) -> bool; fn vx_into(self) -> (r: T) ensures self.into_ok(r); }
/// verified in unit maybe
impl VxInto<MaybeUtf8Owned> for String { open spec fn into_ok(self, r: MaybeUtf8Owned) -> bool { r.bytes() == self.bytes() } #[verifier::external_body] fn vx_into(self) -> (r: MaybeUtf8Owned) { unimplemented!() } }
/// verified in unit maybe
impl VxInto<MaybeUtf8Owned> for Vec<u8> { open spec fn into_ok(self, r: MaybeUtf8Owned) -> bool { r.bytes() == self@ } #[verifier::external_body] fn vx_into(self) -> (r: MaybeUtf8Owned) { unimplemented!() } }
/// std
impl<'a> VxInto<String> for &'a str { open spec fn into_ok(self, r: String) -> bool { r.bytes() == text(self) } #[verifier::external_body] fn vx_into(self) -> (r: String) { unimplemented!() } }
pub trait VxOwn { type O; spec fn own_ok(&self, o: Self::O) -> bool; fn vx_own(&self) -> (r: Self::O) ensures self.own_ok(r); }
/// std: ToOwned
impl VxOwn for str { type O = String; open spec fn own_ok(&self, o: String) -> bool { o.bytes() == text(self) } #[verifier::external_body] fn vx_own(&self) -> (r: String) { unimplemented!() } }
/// std: the identity
impl VxInto<Parameters> for Parameters { open spec fn into_ok(self, r: Parameters) -> bool { r == self } #[verifier::external_body] fn vx_into(self) -> (r: Parameters) { unimplemented!() } }
pub type PMap = Map<Seq<u8>, Seq<u8>>;
/// A map from byte strings to byte strings: unit params
#[verifier::external_body] pub struct Parameters { x: u8 }
impl View for Parameters { type V = PMap; uninterp spec fn view(&self) -> PMap; }
impl Parameters {
    /// verified in unit params
    #[verifier::external_body] pub fn new() -> (r: Parameters) ensures r@ == PMap::empty() { unimplemented!() }
    /// verified in unit params
    #[verifier::external_body] pub fn insert<K: Bytes, V: Bytes>(&mut self, k: K, v: V) ensures final(self)@ == old(self)@.insert(k.bytes(), v.bytes()) { unimplemented!() }
}
//@gmethod into => vx_into
//@gmethod collect => vx_collect
//@gmethod extend => vx_extend
//@gmethod find => vx_find
//@gmethod rfind => vx_rfind
//@gmethod splitn => vx_splitn
//@gmethod split_once => vx_split_once
//@gmethod as_bytes => vx_bytes
//@gmethod iter => vx_seq
//@gmethod next => vx_next
//@gtok utils :: parse_parameters => parse_parameters

// ---------------------------------------------------------------- P08
pub open spec fn spaces(s: Seq<u8>) -> Seq<u8> { s.map_values(|b: u8| if b == 43 { 32u8 } else { b }) }
/// name and value of one parameter
pub open spec fn pair(p: Seq<u8>) -> (Seq<u8>, Seq<u8>) {
    let parts = cut(p, 61);
    (pct(parts[0]), if parts.len() > 1 { pct(parts[1]) } else { Seq::empty() })
}
pub open spec fn put_all(m: PMap, ps: Seq<Seq<u8>>) -> PMap decreases ps.len() {
    if ps.len() == 0 { m } else { put_all(m, ps.drop_last()).insert(pair(ps.last()).0, pair(ps.last()).1) }
}
pub open spec fn params_of(s: Seq<u8>) -> PMap { put_all(PMap::empty(), cut(spaces(s), 38)) }
pub proof fn lemma_cut(s: Seq<u8>, c: u8) ensures cut(s, c).len() >= 1 decreases s.len() { lemma_first(s, c); if first(s, c) < s.len() { lemma_cut(s.skip(first(s, c) as int + 1), c); } }
pub open spec fn name(ps: Seq<Seq<u8>>, i: int) -> Seq<u8> { pair(ps[i]).0 }
/// i is the last parameter called k
pub open spec fn last(ps: Seq<Seq<u8>>, k: Seq<u8>, i: int) -> bool { 0 <= i < ps.len() && name(ps, i) == k && forall|j: int| i < j < ps.len() ==> #[trigger] name(ps, j) != k }
/// P08: every parameter is found under its name, the last one winning, and nothing else is.
proof fn theorem_parameters(ps: Seq<Seq<u8>>, k: Seq<u8>)
    ensures
        forall|i: int| 0 <= i < ps.len() && #[trigger] name(ps, i) == k ==> put_all(PMap::empty(), ps).contains_key(k),
        put_all(PMap::empty(), ps).contains_key(k) ==> exists|i: int| last(ps, k, i) && put_all(PMap::empty(), ps)[k] == pair(ps[i]).1,
    decreases ps.len(),
{
    if ps.len() > 0 {
        let h = ps.drop_last();
        let n = ps.len() - 1;
        theorem_parameters(h, k);
        assert forall|i: int| 0 <= i < n implies #[trigger] name(h, i) == name(ps, i) by {}
        if name(ps, n) == k { assert(last(ps, k, n)); }
        else if put_all(PMap::empty(), h).contains_key(k) {
            let i = choose|i: int| last(h, k, i) && put_all(PMap::empty(), h)[k] == pair(h[i]).1;
            assert(name(h, i) == name(ps, i));
            assert forall|j: int| i < j < ps.len() implies #[trigger] name(ps, j) != k by { if j < n { assert(name(h, j) == name(ps, j)); } }
            assert(last(ps, k, i));
        }
        assert forall|i: int| 0 <= i < ps.len() && #[trigger] name(ps, i) == k implies put_all(PMap::empty(), ps).contains_key(k) by { if i < n { assert(name(h, i) == k); } }
    }
}
//@fn src/utils.rs - - parse_parameters
//@sig pub fn parse_parameters(source: &[u8]) -> (r: Parameters)
//@spec
    ensures r@ == params_of(source@),
//@at entry
    let ghost src0 = source@;
//@at loop 0 spec
    invariant src0 == source@, vx_c1@.len() + vx_it0@.len() == src0.len(),
        forall|i: int| 0 <= i < vx_c1@.len() ==> #[trigger] vx_c1@[i] == spaces(src0)[i],
        forall|i: int| 0 <= i < vx_it0@.len() ==> *#[trigger] vx_it0@[i] == src0[vx_c1@.len() + i],
    ensures vx_c1@ =~= spaces(src0),
    decreases vx_it0@.len(),
//@at loop 1 init
    let ghost all = cut(spaces(src0), 38);
    let ghost mut n: int = 0;
    proof { assert(source@ == spaces(src0)); }
//@at loop 1 spec
    invariant 0 <= n <= all.len(), vx_it1@.len() == all.len() - n, forall|i: int| 0 <= i < vx_it1@.len() ==> (#[trigger] vx_it1@[i])@ == all[n + i],
        parameters@ == put_all(PMap::empty(), all.take(n)),
    ensures parameters@ == put_all(PMap::empty(), all),
    decreases vx_it1@.len(),
//@at loop 1 start
    proof { lemma_cut(parameter@, 61); assert(parameter@ == all[n]); assert(all.take(n + 1).drop_last() =~= all.take(n)); assert(all.take(n + 1).last() == all[n]); n = n + 1; }
//@at loop 1 exit
    proof { assert(all.take(n) =~= all); }
//@end
#[verifier::external_body] pub struct IoError { e: () }
impl IoError {
    /// io::ErrorKind::Interrupted: to be tried again
    pub uninterp spec fn interrupted(&self) -> bool;
}
/// std::io::Read, on what is left of something (None: it can't be read to its end)
pub trait Read: Sized {
    spec fn rest(&self) -> Option<Seq<u8>>;
    fn read(&mut self, buf: &mut [u8]) -> (r: Result<usize, IoError>)
        ensures was_read(old(self).rest(), final(self).rest(), old(buf)@, final(buf)@, r);
}
/// a number of bytes are taken from the front, none of them only at the end
pub open spec fn was_read(before: Option<Seq<u8>>, after: Option<Seq<u8>>, old_buf: Seq<u8>, buf: Seq<u8>, r: Result<usize, IoError>) -> bool {
    before matches Some(b) ==> match r {
        Ok(n) => n <= b.len() && n <= old_buf.len() && buf.len() == old_buf.len() && buf =~= b.take(n as int) + old_buf.skip(n as int) && (after matches Some(a) && a =~= b.skip(n as int)) && (n == 0 ==> b.len() == 0 || old_buf.len() == 0),
        Err(e) => e.interrupted() && after == before,
    }
}
#[verifier::external_body] pub struct HttpReader<'a, 'b> { x: &'a u8, y: &'b u8 }
impl<'a, 'b> HttpReader<'a, 'b> {
    /// which reader it is
    pub uninterp spec fn id(&self) -> int;
}
/// hyper: the bytes of the body
impl<'a, 'b> Read for HttpReader<'a, 'b> {
    uninterp spec fn rest(&self) -> Option<Seq<u8>>;
    #[verifier::external_body] fn read(&mut self, buf: &mut [u8]) -> (r: Result<usize, IoError>) { unimplemented!() }
}
//@item src/context/body.rs MaybeMock
//@end
//@item src/context/body.rs BodyReader
//@tok HttpReader < & 'a mut BufReader < & 'b mut NetworkStream > > => HttpReader < 'a , 'b >
//@end
impl<R: Read> Read for MaybeMock<R> {
    open spec fn rest(&self) -> Option<Seq<u8>> { match *self { MaybeMock::Actual(r) => r.rest(), MaybeMock::Mock => Some(Seq::<u8>::empty()) } }
//@fn src/context/body.rs MaybeMock<R> Read read
//@sig fn read(&mut self, buf: &mut [u8]) -> (r: Result<usize, IoError>)
//@end
}
impl<'a, 'b> Read for BodyReader<'a, 'b> {
    /// what's left of the body
    open spec fn rest(&self) -> Option<Seq<u8>> { self.reader.rest() }
//@fn src/context/body.rs BodyReader Read read
//@sig fn read(&mut self, buf: &mut [u8]) -> (r: Result<usize, IoError>)
//@end
}
impl<'a, 'b> BodyReader<'a, 'b> {
    /// std: Read::read_to_end, which reads until there's nothing left
    #[verifier::external_body] pub fn read_to_end(&mut self, v: &mut Vec<u8>) -> (r: Result<usize, IoError>)
        ensures match old(self).rest() { Some(b) => r is Ok && final(v)@ == old(v)@ + b, None => r is Err } { unimplemented!() }
//@fn src/context/body.rs BodyReader - read_query_body
//@sig pub fn read_query_body(&mut self) -> (r: Result<Parameters, IoError>)
//@tok :: utils :: parse_parameters ( & $b ) => parse_parameters ( $b . as_slice ( ) )
//@tok vx_from ( vx_e ) => vx_e
//@spec
    ensures match old(self).rest() { Some(b) => r is Ok && r->Ok_0@ == params_of(b), None => r is Err },
//@at before Ok
    assert(buf@ =~= old(self).rest().unwrap());
//@end
}
// ---------------------------------------------------------------- P09
/// The parts of a request target.
pub struct Parts { pub host: Option<(Seq<u8>, Option<u16>)>, pub path: Option<Seq<u8>>, pub query: PMap, pub fragment: Option<Seq<u8>> }
pub open spec fn before(s: Seq<u8>, c: u8) -> Seq<u8> { s.take(first(s, c) as int) }
pub open spec fn after(s: Seq<u8>, c: u8) -> Option<Seq<u8>> { if first(s, c) < s.len() { Some(s.skip(first(s, c) as int + 1)) } else { None } }
pub open spec fn decoded(s: Option<Seq<u8>>) -> Option<Seq<u8>> { match s { Some(s) => Some(pct(s)), None => None } }
pub open spec fn queried(s: Option<Seq<u8>>) -> PMap { match s { Some(s) => params_of(s), None => PMap::empty() } }
/// an origin-form target
pub open spec fn origin(t: Seq<u8>) -> Parts {
    let p = pct(before(before(t, 35), 63));
    Parts { host: None, path: Some(if p.len() == 0 { seq![47u8] } else { p }), query: queried(after(before(t, 35), 63)), fragment: decoded(after(t, 35)) }
}
pub struct UrlV { pub host: Option<Seq<u8>>, pub port: Option<u16>, pub path: Seq<u8>, pub query: Option<Seq<u8>>, pub fragment: Option<Seq<u8>> }
/// an absolute-form target
pub open spec fn absolute(u: UrlV) -> Parts {
    Parts { host: match u.host { Some(h) => Some((h, u.port)), None => None }, path: Some(pct(u.path)), query: queried(u.query), fragment: decoded(u.fragment) }
}
/// url::Url
#[verifier::external_body] pub struct Url { x: u8 }
impl View for Url { type V = UrlV; uninterp spec fn view(&self) -> UrlV; }
pub open spec fn opt_text(o: Option<&str>) -> Option<Seq<u8>> { match o { Some(s) => Some(text(s)), None => None } }
impl Url {
    /// url
    #[verifier::external_body] pub fn path(&self) -> (r: &str) ensures text(r) == self@.path { unimplemented!() }
    /// url
    #[verifier::external_body] pub fn query(&self) -> (r: Option<&str>) ensures opt_text(r) == self@.query { unimplemented!() }
    /// url
    #[verifier::external_body] pub fn fragment(&self) -> (r: Option<&str>) ensures opt_text(r) == self@.fragment { unimplemented!() }
    /// url
    #[verifier::external_body] pub fn host_str(&self) -> (r: Option<&str>) ensures opt_text(r) == self@.host { unimplemented!() }
    /// url
    #[verifier::external_body] pub fn port(&self) -> (r: Option<u16>) ensures r == self@.port { unimplemented!() }
}
//@item src/context/mod.rs UriPath
//@end
impl UriPath {
    pub open spec fn v(&self) -> Option<Seq<u8>> { match self { UriPath::Path(p) => Some(p.bytes()), UriPath::Asterisk => None } }
    /// derive(Clone)
    #[verifier::external_body] pub fn clone(&self) -> (r: UriPath) ensures r.v() == self.v() { unimplemented!() }
//@fn src/context/mod.rs UriPath - as_path
//@sig pub fn as_path(&self) -> (r: Option<MaybeUtf8Slice<'_>>)
//@spec
    ensures match r { Some(p) => self.v() == Some(p.bytes()), None => self.v() is None },
//@end
//@fn src/context/mod.rs UriPath - as_utf8_path
//@sig pub fn as_utf8_path(&self) -> (r: Option<&str>)
//@spec
    ensures match r { Some(p) => self.v() == Some(text(p)), None => !(self.v() matches Some(p) && utf8_ok(p)) },
//@end
//@fn src/context/mod.rs UriPath - as_utf8_path_lossy
//@sig pub fn as_utf8_path_lossy(&self) -> (r: Option<Cow<'_, str>>)
//@spec
    ensures match r { Some(p) => self.v() matches Some(b) && p.bytes() == lossy(b), None => self.v() is None },
//@end
//@fn src/context/mod.rs UriPath - is_path
//@sig pub fn is_path(&self) -> (r: bool)
//@spec
    ensures r == (self.v() is Some),
//@end
//@fn src/context/mod.rs UriPath - is_asterisk
//@sig pub fn is_asterisk(&self) -> (r: bool)
//@spec
    ensures r == (self.v() is None),
//@end
}
//@item src/server/instance.rs ParsedUri
//@end
pub open spec fn opt_bytes<T: Bytes>(o: Option<T>) -> Option<Seq<u8>> { match o { Some(s) => Some(s.bytes()), None => None } }
impl View for ParsedUri { type V = Parts; open spec fn view(&self) -> Parts {
    Parts { host: match self.host { Some(h) => Some((h.0.bytes(), h.1)), None => None }, path: self.uri_path.v(), query: self.query@, fragment: opt_bytes(self.fragment) } } }
//@fn src/server/instance.rs - - parse_fragment
//@opt ranges
//@sig pub fn parse_fragment<'a>(path: &'a str) -> (r: (&'a str, Option<&'a str>))
//@spec
    ensures text(r.0) == before(text(path), 35), opt_text(r.1) == after(text(path), 35),
//@at entry
    broadcast use texts;
//@end
//@fn src/server/instance.rs - - parse_path
//@opt ranges
//@sig pub fn parse_path(path: &str) -> (r: ParsedUri)
//@spec
    ensures r@ == origin(text(path)),
//@at entry
    broadcast use texts;
//@end
//@fn src/server/instance.rs - - parse_url
//@opt ranges
//@sig pub fn parse_url(url: &Url) -> (r: ParsedUri)
//@spec
    ensures r@ == absolute(url@),
//@at entry
    broadcast use texts;
    broadcast use add_none;
//@end
// ---------------------------------------------------------------- the server
//@include lib/headers.vrs
//@include lib/http.vrs
pub struct HttpDate(pub Tm);
#[verifier::external_body] pub struct Tm { x: () }
/// time::now_utc
#[verifier::external_body] pub fn now_utc() -> Tm { unimplemented!() }
pub struct Date(pub HttpDate);
pub uninterp spec fn date_val(d: Date) -> HV;
impl Header for Date { open spec fn kind() -> Kind { Kind::Date } open spec fn val(&self) -> HV { date_val(*self) } }
/// mime::TopLevel etc.
#[derive(PartialEq, Eq, Structural)]
pub enum TopLevel { Star, Text, Image, Audio, Video, Application, Multipart, Message, Model, Ext(u64) }
#[derive(PartialEq, Eq, Structural)]
pub enum SubLevel { Star, Plain, Html, Xml, FormData, Json, Other(u64) }
#[derive(PartialEq, Eq, Structural)]
pub enum Attr { Charset, Boundary, Q, Ext(u64) }
pub enum Value { Utf8, Ext(String) }
impl Value {
    pub open spec fn txt(&self) -> Seq<u8> { match *self { Value::Utf8 => seq![117u8, 116u8, 102u8, 45u8, 56u8], Value::Ext(b) => b.bytes() } }
    /// mime: enoom!
    #[verifier::external_body] pub fn as_str(&self) -> (r: &str) ensures text(r) == self.txt() { unimplemented!() }
}
pub struct Mime(pub TopLevel, pub SubLevel, pub Vec<(Attr, Value)>);
impl Clone for Mime { #[verifier::external_body] fn clone(&self) -> (r: Mime) ensures r == *self { unimplemented!() } }
pub struct ContentType(pub Mime);
pub uninterp spec fn mime_val(d: Mime) -> HV;
impl Header for ContentType { open spec fn kind() -> Kind { Kind::ContentType } open spec fn val(&self) -> HV { mime_val(self.0) } }
pub struct ServerHeader(pub String);
pub uninterp spec fn server_val(d: Seq<u8>) -> HV;
impl Header for ServerHeader { open spec fn kind() -> Kind { Kind::Server } open spec fn val(&self) -> HV { server_val(self.0.bytes()) } }
pub struct HostHeader { pub hostname: String, pub port: Option<u16> }
pub uninterp spec fn host_val(name: Seq<u8>, port: Option<u16>) -> HV;
impl Header for HostHeader { open spec fn kind() -> Kind { Kind::Host } open spec fn val(&self) -> HV { host_val(self.hostname.bytes(), self.port) } }
//@gtok time :: now_utc => now_utc
//@gtok hyper :: mime :: $x => $x
//@gmethod to_owned => vx_own
//@gtok hyper :: header :: Server => ServerHeader
//@gtok :: header :: Host => HostHeader
//@gtok context :: body :: BodyReader => BodyReader
//@gtok Ordering :: SeqCst => AtomicOrdering :: SeqCst
//@gtok Ordering :: Relaxed => AtomicOrdering :: Relaxed
//@gtok Ordering :: Acquire => AtomicOrdering :: Acquire
//@gtok Ordering :: Release => AtomicOrdering :: Release
//@gtok Ordering :: AcqRel => AtomicOrdering :: AcqRel

#[verifier::external_body] pub struct Global { x: u8 }
impl Global {
    pub uninterp spec fn nothing() -> Global;
    /// verified in unit global
    #[verifier::external_body] pub fn default() -> (r: Global) ensures r == Self::nothing() { unimplemented!() }
}
/// hyper
pub enum HttpVersion { Http09, Http10, Http11, Http20 }
/// std's socket addresses
#[derive(Clone, Copy)] pub enum SocketAddr { V4(SocketAddrV4), V6(SocketAddrV6) }
#[derive(Clone, Copy)] pub struct SocketAddrV4 { ip: Ipv4Addr, port: u16 }
#[verifier::external_body] #[derive(Clone, Copy)] pub struct SocketAddrV6 { x: u8 }
#[verifier::external_body] #[derive(Clone, Copy)] pub struct Ipv4Addr { x: u32 }
impl Ipv4Addr {
    pub uninterp spec fn from_parts(a: u8, b: u8, c: u8, d: u8) -> Ipv4Addr;
    /// std
    #[verifier::external_body] pub fn new(a: u8, b: u8, c: u8, d: u8) -> (r: Ipv4Addr) ensures r == Self::from_parts(a, b, c, d) { unimplemented!() }
}
impl SocketAddrV4 {
    pub closed spec fn make(ip: Ipv4Addr, port: u16) -> SocketAddrV4 { SocketAddrV4 { ip, port } }
    pub fn new(ip: Ipv4Addr, port: u16) -> (r: SocketAddrV4) ensures r == Self::make(ip, port) { SocketAddrV4 { ip, port } }
}
#[verifier::external_body] pub struct Link<'l> { x: &'l u8 }
#[verifier::external_body] #[derive(Clone, Copy)] pub struct Duration { x: u64 }
#[verifier::external_body] pub struct ResponseFilterBox { x: u8 }
/// anymap::AnyMap
#[verifier::external_body] pub struct AnyMap { x: u8 }
impl AnyMap {
    pub uninterp spec fn empty() -> AnyMap;
    /// anymap
    #[verifier::external_body] pub fn new() -> (r: AnyMap) ensures r == Self::empty() { unimplemented!() }
}
//@item src/filter.rs ContextAction
//@end
impl ContextAction {
//@fn src/filter.rs ContextAction - next
//@sig pub fn next() -> (r: ContextAction)
//@spec
    ensures r == ContextAction::Next,
//@end
//@fn src/filter.rs ContextAction - abort
//@sig pub fn abort(status: StatusCode) -> (r: ContextAction)
//@spec
    ensures r == ContextAction::Abort(status),
//@end
}
//@item src/filter.rs FilterContext
//@end
//@item src/context/mod.rs Context
//@end
//@item src/server/config.rs KeepAlive
//@end
/// The request as filters and handlers see it.
pub struct CtxV { pub headers: HeadersV, pub version: HttpVersion, pub address: SocketAddr, pub method: Method, pub path: Option<Seq<u8>>, pub links: nat, pub variables: PMap,
    pub query: PMap, pub fragment: Option<Seq<u8>>, pub global: Global, pub body: int }
impl<'a, 'b> BodyReader<'a, 'b> {
    /// which reader it is
    pub open spec fn id(&self) -> int { match self.reader { MaybeMock::Actual(r) => r.id(), MaybeMock::Mock => -1 } }
//@fn src/context/body.rs BodyReader - from_reader
//@sig pub fn from_reader(reader: HttpReader<'a, 'b>, headers: &Headers) -> (r: BodyReader<'a, 'b>)
//@spec
    ensures r.id() == reader.id(), r.reader == MaybeMock::Actual(reader),
        opt_string(r.multipart_boundary) == form_boundary(headers@),
//@at loop 0 init
    let ghost all = vx_it0@;
    let ghost mut n: int = 0;
    proof { lemma_boundary(all); assert(all.skip(0) =~= all); }
//@at loop 0 spec
    invariant_except_break 0 <= n <= all.len(), vx_it0@ =~= all.skip(n), cut_boundary_refs(all) == cut_boundary_refs(all.skip(n)), vx_c2 is None,
    ensures found_boundary(vx_c2, all),
    decreases vx_it0@.len(),
//@at loop 0 start
    proof { lemma_boundary_at(all, n); assert(all.skip(n)[0] == all[n]); n = n + 1; assert(all.skip(n - 1).skip(1) =~= all.skip(n)); }
//@at loop 0 exit
    proof { lemma_boundary_at(all, n); }
//@end
//@fn src/context/body.rs BodyReader - as_multipart
//@sig pub fn as_multipart<'r>(&'r mut self) -> (r: Option<Multipart<MultipartRequest<'r, 'a, 'b>>>)
//@tok boundary : $x , reader => boundary : $x . vx_str ( ) , reader
//@spec
    ensures match old(self).reader {
            MaybeMock::Actual(h) => match old(self).multipart_boundary { Some(b) => r matches Some(m) && m.boundary() == b.bytes() && *m.request().reader == h, None => r is None },
            MaybeMock::Mock => r is None,
        },
//@end
//@fn src/context/body.rs BodyReader - mock
//@sig pub fn mock(headers: &'b Headers) -> (r: BodyReader<'static, 'static>)
//@spec
    ensures r.reader is Mock, opt_string(r.multipart_boundary) == form_boundary(headers@),
//@at loop 0 init
    let ghost all = vx_it0@;
    let ghost mut n: int = 0;
    proof { lemma_boundary(all); assert(all.skip(0) =~= all); }
//@at loop 0 spec
    invariant_except_break 0 <= n <= all.len(), vx_it0@ =~= all.skip(n), cut_boundary_refs(all) == cut_boundary_refs(all.skip(n)), vx_c2 is None,
    ensures found_boundary(vx_c2, all),
    decreases vx_it0@.len(),
//@at loop 0 start
    proof { lemma_boundary_at(all, n); assert(all.skip(n)[0] == all[n]); n = n + 1; assert(all.skip(n - 1).skip(1) =~= all.skip(n)); }
//@at loop 0 exit
    proof { lemma_boundary_at(all, n); }
//@end
}
impl<'a, 'b, 'l, 'g> Context<'a, 'b, 'l, 'g> {
//@fn src/context/mod.rs Context - mock
//@sig pub fn mock<P: VxInto<String>>(method: Method, path: P, headers: Headers, global: &'g Global) -> (r: Context<'static, 'static, 'l, 'g>)
//@spec
    ensures r.method == method, r.headers@ == headers@, *r.global == *global, r.body.reader is Mock, opt_string(r.body.multipart_boundary) == form_boundary(headers@), // [P25]
        r.http_version == HttpVersion::Http11, r.address == any_v4(80), r.hyperlinks@.len() == 0, r.variables@ == PMap::empty(), r.query@ == PMap::empty(), r.fragment is None, // [P25]
        exists|t: String| #[trigger] path.into_ok(t) && r.uri_path.v() == Some(t.bytes()), // [P25]
//@end
}
/// multipart::server::HttpRequest
pub trait HttpRequest: Sized {
    type Body;
    spec fn boundary_is(&self) -> Option<Seq<u8>>;
    spec fn body_is(&self, b: Self::Body) -> bool;
    fn body(self) -> (r: Self::Body) ensures self.body_is(r);
    fn multipart_boundary(&self) -> (r: Option<&str>) ensures opt_text(r) == self.boundary_is();
}
/// multipart::server::Multipart: reads the parts of a body between its boundaries
#[verifier::external_body] #[verifier::reject_recursive_types(R)] pub struct Multipart<R> { x: core::marker::PhantomData<R> }
impl<R: HttpRequest> Multipart<R> {
    pub uninterp spec fn boundary(&self) -> Seq<u8>;
    /// whose body it reads
    pub uninterp spec fn request(&self) -> R;
    /// multipart
    #[verifier::external_body] pub fn from_request(req: R) -> (r: Result<Multipart<R>, R>)
        ensures match req.boundary_is() { Some(b) => r matches Ok(m) && m.boundary() == b && m.request() == req, None => r is Err } { unimplemented!() }
}
//@item src/context/body.rs MultipartRequest
//@tok HttpReader < & 'a mut BufReader < & 'b mut NetworkStream > > => HttpReader < 'a , 'b >
//@end
impl<'r, 'a, 'b> HttpRequest for MultipartRequest<'r, 'a, 'b> {
    type Body = Self;
    open spec fn boundary_is(&self) -> Option<Seq<u8>> { Some(text(self.boundary)) }
    open spec fn body_is(&self, b: Self) -> bool { b == *self }
//@fn src/context/body.rs MultipartRequest HttpRequest body
//@sig fn body(self) -> (r: Self)
//@end
//@fn src/context/body.rs MultipartRequest HttpRequest multipart_boundary
//@sig fn multipart_boundary(&self) -> (r: Option<&str>)
//@end
}
impl<'r, 'a, 'b> Read for MultipartRequest<'r, 'a, 'b> {
    open spec fn rest(&self) -> Option<Seq<u8>> { self.reader.rest() }
//@fn src/context/body.rs MultipartRequest Read read
//@sig fn read(&mut self, buf: &mut [u8]) -> (r: Result<usize, IoError>)
//@end
}
pub open spec fn opt_string(s: Option<String>) -> Option<Seq<u8>> { match s { Some(s) => Some(s.bytes()), None => None } }
/// RFC 7578: the boundary of a multipart/form-data body
pub open spec fn form_boundary(h: HeadersV) -> Option<Seq<u8>> {
    match typed::<ContentType>(h) { Some(ContentType(Mime(TopLevel::Multipart, SubLevel::FormData, attrs))) => cut_boundary(attrs@), _ => None }
}
pub open spec fn cut_boundary(s: Seq<(Attr, Value)>) -> Option<Seq<u8>> decreases s.len() {
    if s.len() == 0 { None } else if s[0].0 == Attr::Boundary { value_text(s[0].1) } else { cut_boundary(s.skip(1)) }
}
pub open spec fn value_text(v: Value) -> Option<Seq<u8>> { Some(v.txt()) }
pub open spec fn cut_boundary_refs(s: Seq<&(Attr, Value)>) -> Option<Seq<u8>> { cut_boundary(s.map_values(|p: &(Attr, Value)| *p)) }
pub open spec fn found_boundary(o: Option<&(Attr, Value)>, all: Seq<&(Attr, Value)>) -> bool { match o { Some(p) => p.0 == Attr::Boundary && cut_boundary_refs(all) == value_text(p.1), None => cut_boundary_refs(all) is None } }
/// the first one decides
pub proof fn lemma_boundary_at(s: Seq<&(Attr, Value)>, i: int)
    requires 0 <= i <= s.len(),
    ensures cut_boundary_refs(s.skip(i)) == (if i == s.len() { None } else if s[i].0 == Attr::Boundary { value_text(s[i].1) } else { cut_boundary_refs(s.skip(i + 1)) }),
{
    let f = |p: &(Attr, Value)| *p;
    if i < s.len() {
        assert(s.skip(i).map_values(f).skip(1) =~= s.skip(i + 1).map_values(f));
        assert(s.skip(i).map_values(f)[0] == *s[i]);
    }
}
pub proof fn lemma_boundary(s: Seq<&(Attr, Value)>)
    ensures forall|t: Seq<(Attr, Value)>| t.len() == s.len() && (forall|i: int| 0 <= i < s.len() ==> t[i] == *#[trigger] s[i]) ==> cut_boundary_refs(s) == #[trigger] cut_boundary(t),
{
    assert forall|t: Seq<(Attr, Value)>| t.len() == s.len() && (forall|i: int| 0 <= i < s.len() ==> t[i] == *#[trigger] s[i]) implies cut_boundary_refs(s) == #[trigger] cut_boundary(t) by {
        assert(s.map_values(|p: &(Attr, Value)| *p) =~= t);
    }
}
pub open spec fn cv<'a, 'b, 'l, 'g>(c: Context<'a, 'b, 'l, 'g>) -> CtxV {
    CtxV { headers: c.headers@, version: c.http_version, address: c.address, method: c.method, path: c.uri_path.v(), links: c.hyperlinks@.len(), variables: c.variables@,
        query: c.query@, fragment: opt_bytes(c.fragment), global: *c.global, body: c.body.id() }
}
/// a ContextFilter: what it does to a request (any function of what it's given; each filter is asked once per request)
#[verifier::external_body] pub struct ContextFilterBox { x: u8 }
impl ContextFilterBox {
    pub uninterp spec fn outcome(&self, storage: AnyMap, ctx: CtxV) -> (AnyMap, CtxV, ContextAction);
    /// ContextFilter::modify of the user's filter
    #[verifier::external_body] pub fn modify<'x, 'a, 'b, 'l, 'g>(&self, context: FilterContext<'x>, request_context: &mut Context<'a, 'b, 'l, 'g>) -> (r: ContextAction)
        ensures (*final(context.storage), cv(*final(request_context)), r) == self.outcome(*old(context.storage), cv(*old(request_context))) { unimplemented!() }
}
pub open spec fn filtered(fs: Seq<ContextFilterBox>, storage: AnyMap, ctx: CtxV) -> (AnyMap, CtxV, ContextAction) decreases fs.len() {
    if fs.len() == 0 { (storage, ctx, ContextAction::Next) }
    else { let o = fs[0].outcome(storage, ctx); match o.2 { ContextAction::Next => filtered(fs.skip(1), o.0, o.1), _ => o } }
}
/// The response under way.
pub struct Answer { pub status: StatusCode, pub headers: HeadersV, pub storage: AnyMap, pub close: bool, pub filters: Seq<ResponseFilterBox>, pub global: Option<Global>, pub given: Option<Given> }
/// What the handlers were given.
pub struct Given { pub ctx: CtxV, pub path: Seq<u8>, pub status: StatusCode, pub headers: HeadersV, pub storage: AnyMap, pub close: bool, pub filters: Seq<ResponseFilterBox>, pub global: Option<Global> }
/// hyper's response; what is known when it's gone is what is sent (unit responses)
pub struct HyperResponse<'a> { pub out: &'a mut Ghost<Answer> }
impl<'a> HyperResponse<'a> {
    pub open spec fn now(&self) -> Answer { (*self.out)@ }
    /// what it is in the end
    #[verifier::prophetic] pub open spec fn end(&self) -> Answer { (*final(self.out))@ }
}
pub struct Response<'a, 'b> { pub out: &'a mut Ghost<Answer>, pub p: core::marker::PhantomData<&'b ()> }
impl<'a, 'b> Response<'a, 'b> {
    pub open spec fn now(&self) -> Answer { (*self.out)@ }
    /// what it is in the end
    #[verifier::prophetic] pub open spec fn end(&self) -> Answer { (*final(self.out))@ }
    /// verified in unit responses
    #[verifier::external_body] pub fn new(response: HyperResponse<'a>, filters: &'b Vec<ResponseFilterBox>, global: &'b Global, force_close: bool) -> (r: Response<'a, 'b>)
        ensures r.end() == response.end(), r.now() == (Answer { filters: filters@, close: force_close, storage: AnyMap::empty(), global: Some(*global), ..response.now() }) { unimplemented!() }
    /// verified in unit responses
    #[verifier::external_body] pub fn status(&self) -> (r: StatusCode) ensures r == self.now().status { unimplemented!() }
    /// verified in unit responses
    #[verifier::external_body] pub fn set_status(&mut self, s: StatusCode) ensures final(self).end() == old(self).end(), final(self).now() == (Answer { status: s, ..old(self).now() }) { unimplemented!() }
    /// verified in unit responses
    #[verifier::external_body] pub fn headers_mut<'s>(&'s mut self) -> (r: &'s mut Headers)
        ensures r@ == old(self).now().headers, final(self).end() == old(self).end(), final(self).now() == (Answer { headers: final(r)@, ..old(self).now() }) { unimplemented!() }
    /// verified in unit responses
    #[verifier::external_body] pub fn filter_storage_mut<'s>(&'s mut self) -> (r: &'s mut AnyMap)
        ensures *r == old(self).now().storage, final(self).end() == old(self).end(), final(self).now() == (Answer { storage: *final(r), ..old(self).now() }) { unimplemented!() }
}
/// handler::routing::RouteState
#[verifier::external_body] pub struct RouteState<'a> { x: &'a u8 }
impl<'a> RouteState<'a> { pub uninterp spec fn path(&self) -> Seq<u8>; }
/// the path it's made of is split up in unit segments
impl<'a> VxInto<RouteState<'a>> for &'a [u8] { open spec fn into_ok(self, r: RouteState<'a>) -> bool { r.path() == self@ } #[verifier::external_body] fn vx_into(self) -> (r: RouteState<'a>) { unimplemented!() } }
//@item src/handler/mod.rs Environment
//@end
pub open spec fn given<'a, 'b, 'l, 'g>(e: Environment<'a, 'b, 'l, 'g>) -> Given {
    let a = e.response.now();
    Given { ctx: cv(e.context), path: e.route_state.path(), status: a.status, headers: a.headers, storage: a.storage, close: a.close, filters: a.filters, global: a.global }
}
/// handlers, once per request
pub trait HandleRequest: Sized {
    /// the status it leaves in a response it hands back, if it hands it back
    spec fn declines(&self, g: Given) -> Option<StatusCode>;
    fn handle_request<'a, 'b, 'l, 'g>(&self, environment: Environment<'a, 'b, 'l, 'g>) -> (r: Result<(), Environment<'a, 'b, 'l, 'g>>)
        requires environment.response.now().given is None,
        ensures match r {
            Ok(()) => self.declines(given(environment)) is None && environment.response.end().given == Some(given(environment)),
            Err(e) => self.declines(given(environment)) == Some(e.response.now().status) && e.response.end() == environment.response.end()
                && e.response.now().given == Some(given(environment)),
        };
}
#[derive(Clone, Copy)] pub enum AtomicOrdering { SeqCst, Relaxed, Acquire, Release, AcqRel }
/// std::sync::atomic::AtomicUsize
#[verifier::external_body] pub struct AtomicUsize { x: () }
impl View for AtomicUsize { type V = nat; uninterp spec fn view(&self) -> nat; }
impl AtomicUsize {
    /// std
    #[verifier::external_body] pub fn load(&self, o: AtomicOrdering) -> (r: usize) ensures r == self@ { unimplemented!() }
    /// std
    #[verifier::external_body] pub fn new(n: usize) -> (r: AtomicUsize) ensures r@ == n { unimplemented!() }
    /// std; it wraps around beyond usize::MAX
    #[verifier::external_body] pub fn fetch_add(&mut self, n: usize, o: AtomicOrdering) -> (r: usize) requires old(self)@ + n <= usize::MAX ensures r == old(self)@, final(self)@ == old(self)@ + n { unimplemented!() }
    /// std. Another thread may have changed the value since it was last looked at, and what it did is lost: the result is no count of anything.
    #[verifier::external_body] pub fn store(&mut self, n: usize, o: AtomicOrdering) { unimplemented!() }
    /// std; as for `store`
    #[verifier::external_body] pub fn swap(&mut self, n: usize, o: AtomicOrdering) -> (r: usize) { unimplemented!() }
    /// std; it can fail whatever was seen before
    #[verifier::external_body] pub fn compare_exchange(&mut self, from: usize, to: usize, o: AtomicOrdering, p: AtomicOrdering) -> (r: Result<usize, usize>)
        ensures match r { Ok(v) => v == from && old(self)@ == from && final(self)@ == to, Err(v) => final(self)@ == old(self)@ } { unimplemented!() }
    /// std
    #[verifier::external_body] pub fn compare_exchange_weak(&mut self, from: usize, to: usize, o: AtomicOrdering, p: AtomicOrdering) -> (r: Result<usize, usize>)
        ensures match r { Ok(v) => v == from && old(self)@ == from && final(self)@ == to, Err(v) => final(self)@ == old(self)@ } { unimplemented!() }
    /// std
    #[verifier::external_body] pub fn fetch_update<F: FnMut(usize) -> Option<usize>>(&mut self, o: AtomicOrdering, p: AtomicOrdering, f: F) -> (r: Result<usize, usize>)
        requires forall |n: usize| f.requires((n,))
        ensures match r { Ok(v) => old(self)@ == v && exists |n: usize| #[trigger] f.ensures((v,), Some(n)) && final(self)@ == n, Err(v) => old(self)@ == v && final(self)@ == v && f.ensures((v,), None) } { unimplemented!() }
    /// std; it wraps around below 0
    #[verifier::external_body] pub fn fetch_sub(&mut self, n: usize, o: AtomicOrdering) -> (r: usize) requires old(self)@ >= n ensures r == old(self)@, final(self)@ == old(self)@ - n { unimplemented!() }
}
/// hyper::uri::RequestUri
pub enum RequestUri { AbsolutePath(String), AbsoluteUri(Url), Authority(String), Star }
/// hyper::server::Request
#[verifier::external_body] pub struct Request<'a, 'b> { x: &'a u8, y: &'b u8 }
pub struct ReqV { pub address: SocketAddr, pub method: Method, pub headers: HeadersV, pub uri: RequestUri, pub version: HttpVersion, pub body: int }
impl<'a, 'b> Request<'a, 'b> {
    pub uninterp spec fn v(&self) -> ReqV;
    /// hyper
    #[verifier::external_body] pub fn deconstruct(self) -> (r: (SocketAddr, Method, Headers, RequestUri, HttpVersion, HttpReader<'a, 'b>))
        ensures self.v() == (ReqV { address: r.0, method: r.1, headers: r.2@, uri: r.3, version: r.4, body: r.5.id() }) { unimplemented!() }
}
//@item src/server/instance.rs ServerInstance
//@tok Vec < Box < ContextFilter >> => Vec < ContextFilterBox >
//@tok Vec < Box < ResponseFilter >> => Vec < ResponseFilterBox >
//@end
//@item src/server/mod.rs Server
//@tok Vec < Box < ContextFilter >> => Vec < ContextFilterBox >
//@tok Vec < Box < ResponseFilter >> => Vec < ResponseFilterBox >
//@end
//@item src/server/config.rs Host
//@end
/// verified in unit host
impl VxInto<SocketAddr> for Host { open spec fn into_ok(self, r: SocketAddr) -> bool { r == self.0 } #[verifier::external_body] fn vx_into(self) -> (r: SocketAddr) { unimplemented!() } }
/// 0.0.0.0 and a port
pub open spec fn any_v4(port: u16) -> SocketAddr { SocketAddr::V4(SocketAddrV4::make(Ipv4Addr::from_parts(0, 0, 0, 0), port)) }
/// verified in unit host
impl VxInto<Host> for u16 { open spec fn into_ok(self, r: Host) -> bool { r.0 == any_v4(self) } #[verifier::external_body] fn vx_into(self) -> (r: Host) { unimplemented!() } }
/// num_cpus::get
pub uninterp spec fn cpus() -> nat;
/// num_cpus
#[verifier::external_body] pub fn num_cpus_get() -> (r: usize) ensures r == cpus(), 0 < r < 1_000_000 { unimplemented!() }
//@gtok num_cpus :: get => num_cpus_get
#[verifier::external_body] pub struct HttpError { x: () }
/// hyper::server::Listening: what was started
#[verifier::external_body] pub struct Listening { x: () }
impl Listening {
    pub uninterp spec fn address(&self) -> SocketAddr;
    pub uninterp spec fn threads(&self) -> nat;
    pub uninterp spec fn timeout(&self) -> Option<Duration>;
    /// the handler it calls
    pub uninterp spec fn serves<R>(&self, i: ServerInstance<R>) -> bool;
}
/// hyper::server::Server
pub struct HyperServer { pub address: SocketAddr, pub timeout: Option<Duration> }
impl HyperServer {
    /// hyper
    #[verifier::external_body] pub fn http(a: SocketAddr) -> (r: Result<HyperServer, HttpError>) ensures r matches Ok(s) ==> s.address == a { unimplemented!() }
    /// hyper
    #[verifier::external_body] pub fn https<S: SslServer>(a: SocketAddr, ssl: S) -> (r: Result<HyperServer, HttpError>) ensures r matches Ok(s) ==> s.address == a { unimplemented!() }
    /// hyper
    #[verifier::external_body] pub fn keep_alive(&mut self, t: Option<Duration>) ensures final(self).address == old(self).address, final(self).timeout == t { unimplemented!() }
    /// hyper
    #[verifier::external_body] pub fn handle_threads<R>(self, i: ServerInstance<R>, threads: usize) -> (r: Result<Listening, HttpError>)
        ensures r matches Ok(l) ==> l.address() == self.address && l.threads() == threads && l.timeout() == self.timeout && l.serves(i) { unimplemented!() }
}
pub trait SslServer {}
//@gtok hyper :: server :: Server :: => HyperServer ::
impl<R: HandleRequest> Server<R> {
    /// the documented defaults
    pub open spec fn default_for(&self, handlers: R) -> bool {
        &&& self.handlers == handlers && self.host.0 == any_v4(80) && self.threads is None && self.keep_alive is None
        &&& self.server.bytes() == text("rustful") && self.content_type.0 is Text && self.content_type.1 is Html
        &&& self.content_type.2@.len() == 1 && self.content_type.2@[0].0 is Charset && self.content_type.2@[0].1 is Utf8
        &&& self.global == Global::nothing() && self.context_filters@.len() == 0 && self.response_filters@.len() == 0
    }
//@fn src/server/mod.rs Server<R> - new
//@sig pub fn new(handlers: R) -> (r: Server<R>)
//@spec
    ensures r.default_for(handlers),
//@end
//@fn src/server/mod.rs Server<R> - run
//@sig pub fn run(self) -> (r: Result<Listening, HttpError>)
//@spec
    ensures r matches Ok(l) ==> exists|i: ServerInstance<R>| #[trigger] i.configured(self) && i.started(l),
//@end
//@fn src/server/mod.rs Server<R> - run_https
//@sig pub fn run_https<S: SslServer>(self, ssl: S) -> (r: Result<Listening, HttpError>)
//@spec
    ensures r matches Ok(l) ==> exists|i: ServerInstance<R>| #[trigger] i.configured(self) && i.started(l),
//@end
//@fn src/server/mod.rs Server<R> - build
//@sig pub fn build(self) -> (r: ServerInstance<R>)
//@spec
    ensures r.configured(self),
//@end
}
/// std: Default of the user's handler
pub trait VxDefault: Sized { spec fn is_default(&self) -> bool; fn default() -> (r: Self) ensures r.is_default(); }
impl<R: VxDefault + HandleRequest> Server<R> {
//@fn src/server/mod.rs Server<R> Default default
//@sig pub fn default() -> (r: Server<R>)
//@spec
    ensures exists|h: R| #[trigger] r.default_for(h) && h.is_default(),
//@end
}
impl<R> ServerInstance<R> {
    /// as told by the user, and no connection yet
    pub open spec fn configured(&self, c: Server<R>) -> bool {
        &&& self.handlers == c.handlers && self.host == c.host.0 && self.server == c.server && self.content_type == c.content_type && self.keep_alive == c.keep_alive
        &&& self.threads == (match c.threads { Some(n) => n as nat, None => cpus() * 5 / 4 })
        &&& self.threads_in_use@ == 0 && self.context_filters@ == c.context_filters@ && self.response_filters@ == c.response_filters@ && self.global == c.global
    }
    pub open spec fn started(self, l: Listening) -> bool {
        l.address() == self.host && l.threads() == self.threads && l.serves(self) && l.timeout() == (match self.keep_alive { Some(k) => Some(k.timeout), None => None })
    }
}
/// P09: the parts of a target (None: it's not a valid target)
pub open spec fn target(u: RequestUri) -> Option<Parts> {
    match u {
        RequestUri::AbsolutePath(p) => Some(origin(p.bytes())),
        RequestUri::AbsoluteUri(u) => Some(absolute(u@)),
        RequestUri::Star => Some(Parts { host: None, path: None, query: PMap::empty(), fragment: None }),
        RequestUri::Authority(_) => None,
    }
}
/// the request as the first filter sees it
pub open spec fn arrived(r: ReqV, p: Parts, g: Global) -> CtxV {
    CtxV { headers: match p.host { Some(h) => r.headers.insert(Kind::Host, host_val(h.0, h.1)), None => r.headers }, version: r.version, address: r.address, method: r.method,
        path: p.path, links: 0, variables: PMap::empty(), query: p.query, fragment: p.fragment, global: g, body: r.body }
}
impl<R: HandleRequest> ServerInstance<R> {
    /// P19: keep-alive would take the last threads
    pub open spec fn full(&self) -> bool { match self.keep_alive { Some(k) => self.threads_in_use@ + k.free_threads > self.threads, None => false } }
    pub open spec fn outcome(&self, r: ReqV) -> (AnyMap, CtxV, ContextAction) { filtered(self.context_filters@, AnyMap::empty(), arrived(r, target(r.uri)->Some_0, self.global)) }
    /// P09: what the handlers get, if no filter changes the request; the asterisk and bad targets get to none.
    pub open spec fn target_ok(&self, r: ReqV, new: Answer, sent: Answer) -> bool {
        match target(r.uri) {
            None => sent.status == StatusCode::BadRequest && sent.given is None,
            Some(parts) => self.outcome(r).2 is Next ==> match self.outcome(r).1.path { None => sent.given is None, Some(p) => sent.given matches Some(g) && g.ctx == self.outcome(r).1 && g.path == p },
        }
    }
    /// P14
    pub open spec fn filters_ok(&self, r: ReqV, new: Answer, sent: Answer) -> bool {
        target(r.uri) is Some ==> match self.outcome(r).2 {
            ContextAction::Abort(s) => sent.status == s && sent.given is None && sent.storage == self.outcome(r).0 && sent.filters == self.response_filters@,
            ContextAction::Next => match self.outcome(r).1.path {
                None => sent.given is None && sent.storage == self.outcome(r).0 && sent.filters == self.response_filters@,
                Some(p) => sent.given matches Some(g) && g.ctx == self.outcome(r).1 && g.path == p && g.storage == self.outcome(r).0 && g.status == new.status,
            },
        }
    }
    /// P19, as far as the request is concerned (unit responses: what comes of the flag)
    pub open spec fn close_ok(&self, r: ReqV, sent: Answer) -> bool { match sent.given { Some(g) => g.close == self.full(), None => sent.close == self.full() } }
    /// P25: what was sent is what the handlers get, if no filter is there to change it
    pub open spec fn sent_ok(&self, r: ReqV, sent: Answer) -> bool {
        (target(r.uri) matches Some(parts) && parts.path is Some && self.context_filters@.len() == 0) ==>
            (sent.given matches Some(g) && g.ctx.method == r.method && g.ctx.version == r.version && g.ctx.address == r.address && g.ctx.body == r.body && g.ctx.links == 0 && g.ctx.variables == PMap::empty()
                && g.ctx.global == self.global && g.ctx.headers == arrived(r, target(r.uri)->Some_0, self.global).headers)
    }
    pub open spec fn fields(&self, d: HV) -> HeadersV { HeadersV::empty().insert(Kind::Date, d).insert(Kind::ContentType, mime_val(self.content_type)).insert(Kind::Server, server_val(self.server.bytes())) }
    /// P26: the fields every response starts with
    pub open spec fn first_headers(&self, h: HeadersV) -> bool {
        h.contains_key(Kind::Date) && h =~= self.fields(h[Kind::Date])
    }
    /// P26
    pub open spec fn config_ok(&self, new: Answer, sent: Answer) -> bool {
        match sent.given {
            Some(g) => self.first_headers(g.headers) && g.status == new.status && g.filters == self.response_filters@ && g.global == Some(self.global),
            None => self.first_headers(sent.headers) && sent.filters == self.response_filters@ && sent.global == Some(self.global),
        }
    }
    /// P07: a request handed back by the handlers gets 404, unless they said otherwise
    pub open spec fn unanswered_ok(&self, sent: Answer) -> bool {
        sent.given matches Some(g) ==> (self.handlers.declines(g) matches Some(s) ==> sent.status == if s == StatusCode::Ok { StatusCode::NotFound } else { s })
    }
//@fn src/server/instance.rs ServerInstance<R> - new
//@sig pub fn new(config: Server<R>) -> (r: ServerInstance<R>)
//@spec
    ensures r.configured(config),
//@end
//@fn src/server/instance.rs ServerInstance<R> - run
//@sig pub fn run(self) -> (r: Result<Listening, HttpError>)
//@tok vx_from ( vx_e ) => vx_e
//@spec
    ensures r matches Ok(l) ==> self.started(l),
//@end
//@fn src/server/instance.rs ServerInstance<R> - run_https
//@sig pub fn run_https<S: SslServer>(self, ssl: S) -> (r: Result<Listening, HttpError>)
//@tok vx_from ( vx_e ) => vx_e
//@spec
    ensures r matches Ok(l) ==> self.started(l),
//@end
//@fn src/server/instance.rs ServerInstance<R> - modify_context
//@sig pub fn modify_context<'a, 'b, 'l, 'g>(&self, filter_storage: &mut AnyMap, context: &mut Context<'a, 'b, 'l, 'g>) -> (r: ContextAction)
//@spec
    ensures (*final(filter_storage), cv(*final(context)), r) == filtered(self.context_filters@, *old(filter_storage), cv(*old(context))),
//@at loop 0 init
    let ghost fs = self.context_filters@;
    let ghost want = filtered(fs, *filter_storage, cv(*context));
    let ghost mut n: int = 0;
    proof { assert(fs.skip(0) =~= fs); }
//@at loop 0 spec
    invariant fs == self.context_filters@, want == filtered(fs, *old(filter_storage), cv(*old(context))), 0 <= n <= fs.len(), vx_it0@.len() == fs.len() - n, forall|i: int| 0 <= i < vx_it0@.len() ==> *#[trigger] vx_it0@[i] == fs[n + i],
        want == (match result { ContextAction::Next => filtered(fs.skip(n), *filter_storage, cv(*context)), _ => (*filter_storage, cv(*context), result) }),
    ensures (*filter_storage, cv(*context), result) == want, want == filtered(fs, *old(filter_storage), cv(*old(context))),
    decreases vx_it0@.len(),
//@at loop 0 start
    proof { assert(fs.skip(n)[0] == fs[n]); assert(fs.skip(n).skip(1) =~= fs.skip(n + 1)); n = n + 1; }
//@at loop 0 exit
    proof { assert(fs.skip(n).len() == 0); }
//@end
//@fn src/server/instance.rs ServerInstance<R> HyperHandler handle
//@opt ranges
//@sig pub fn handle<'a, 'b>(&'a self, request: Request<'a, 'b>, writer: HyperResponse<'a>)
//@tok parse_path ( & $p ) => parse_path ( $p . vx_str ( ) )
//@spec
    requires self.threads < usize::MAX, writer.now().given is None, writer.now().headers == HeadersV::empty(),
    ensures
        self.sent_ok(request.v(), writer.end()), // [P25]
        self.config_ok(writer.now(), writer.end()), // [P26]
        self.target_ok(request.v(), writer.now(), writer.end()), // [P09]
        self.filters_ok(request.v(), writer.now(), writer.end()), // [P14]
        self.close_ok(request.v(), writer.end()), // [P19]
        self.unanswered_ok(writer.end()), // [P07]
//@end
//@fn src/server/instance.rs ServerInstance<R> HyperHandler on_connection_start
//@sig pub fn on_connection_start(&mut self)
//@spec
    requires old(self).threads_in_use@ < usize::MAX,
    ensures final(self).threads_in_use@ == old(self).threads_in_use@ + 1,
//@end
//@fn src/server/instance.rs ServerInstance<R> HyperHandler on_connection_end
//@sig pub fn on_connection_end(&mut self)
//@spec
    requires old(self).threads_in_use@ > 0,
    ensures final(self).threads_in_use@ == old(self).threads_in_use@ - 1,
//@end
}
}
fn main() {}
