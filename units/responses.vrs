// Unit responses: P12 (response filters), P13 (answers), P19 (closing connections)
use vstd::prelude::*;
use vstd::std_specs::cmp::*;
use std::cmp::Ordering;
verus! {

//@include lib/prelude.vrs
//@include lib/utf8.vrs
//@include lib/cut.vrs
//@include lib/bytes.vrs
//@include lib/answer.vrs
//@include lib/headers.vrs
//@include lib/http.vrs
//@gmethod into => vx_into
//@gmethod into_iter => vx_into_iter
//@gmethod as_bytes => vx_bytes
//@gtok Action :: => ResponseAction ::
//@gtok Box < ResponseFilter > => ResponseFilterBox
//@gtok hyper :: server :: response :: Response < 'a , hyper :: net :: Streaming > => HyperStreaming < 'a >
//@gtok hyper :: server :: response :: Response < 'a > => HyperFresh < 'a >
//@gtok io :: Error => IoError
//@gtok :: header :: ContentLength => ContentLength

/// std: indexing by ranges
pub trait VxSlice<T> { spec fn els(&self) -> Seq<T>; fn vx_from(&self, n: usize) -> (r: &[T]) requires n <= self.els().len() ensures r@ == self.els().skip(n as int); }
impl<T> VxSlice<T> for [T] {
    open spec fn els(&self) -> Seq<T> { self@ }
    #[verifier::external_body] fn vx_from(&self, n: usize) -> (r: &[T]) { unimplemented!() }
}
/// std: IntoIterator::into_iter
pub trait VxIntoIter: VxIter { fn vx_into_iter(self) -> (r: VIter<Self::Item>) ensures r@ == self.vx_items(); }
impl<I: VxIter> VxIntoIter for I { fn vx_into_iter(self) -> (r: VIter<I::Item>) { vx_iter(self) } }
impl<T> VIter<T> {
    /// std: DoubleEndedIterator::rev
    #[verifier::external_body] pub fn rev(self) -> (r: VIter<T>) ensures r@ == self@.reverse() { unimplemented!() }
    /// std: Iterator::enumerate
    #[verifier::external_body] pub fn enumerate(self) -> (r: VIter<(usize, T)>) ensures r@ == Seq::new(self@.len(), |i: int| (i as usize, self@[i])) { unimplemented!() }
}
/// std: Vec::extend
pub trait VxPushOpt<T> { spec fn extended(&self) -> Seq<T>; fn vx_push_opt(&mut self, o: Option<T>) ensures final(self).extended() == match o { Some(x) => old(self).extended().push(x), None => old(self).extended() }; }
impl<T> VxPushOpt<T> for Vec<T> { open spec fn extended(&self) -> Seq<T> { self@ } #[verifier::external_body] fn vx_push_opt(&mut self, o: Option<T>) { unimplemented!() } }
//@gmethod extend => vx_push_opt
// ---------------------------------------------------------------- data
/// std: Cow<[u8]> and Cow<str>
pub enum CowBytes<'a> { Borrowed(&'a [u8]), Owned(Vec<u8>) }
pub enum CowStr<'a> { Borrowed(&'a str), Owned(String) }
impl<'a> CowBytes<'a> {
    pub open spec fn b(&self) -> Seq<u8> { match self { CowBytes::Borrowed(s) => s@, CowBytes::Owned(s) => s@ } }
    /// std: Deref for Cow
    #[verifier::external_body] pub fn vx_all(&self) -> (r: &[u8]) ensures r@ == self.b() { unimplemented!() }
    /// std: Cow::into_owned
    #[verifier::external_body] pub fn into_owned(self) -> (r: Vec<u8>) ensures r@ == self.b() { unimplemented!() }
}
impl<'a> CowStr<'a> {
    pub open spec fn b(&self) -> Seq<u8> { match self { CowStr::Borrowed(s) => text(*s), CowStr::Owned(s) => s.bytes() } }
    /// std: Deref for Cow
    #[verifier::external_body] pub fn vx_str(&self) -> (r: &str) ensures text(r) == self.b() { unimplemented!() }
    /// std: Deref for Cow, str::as_bytes
    #[verifier::external_body] pub fn vx_bytes(&self) -> (r: &[u8]) ensures r@ == self.b() { unimplemented!() }
    /// std: Cow::into_owned
    #[verifier::external_body] pub fn into_owned(self) -> (r: String) ensures r.bytes() == self.b() { unimplemented!() }
}
impl String {
    /// std
    #[verifier::external_body] pub fn into_bytes(self) -> (r: Vec<u8>) ensures r@ == self.bytes() { unimplemented!() }
    /// std; they say where it's wrong otherwise
    #[verifier::external_body] pub fn from_utf8(v: Vec<u8>) -> (r: Result<String, FromUtf8Error>) ensures r is Ok <==> utf8_ok(v@), r matches Ok(s) ==> s.bytes() == v@ { unimplemented!() }
}
#[verifier::external_body] pub struct FromUtf8Error { x: () }
#[verifier::external_body] pub struct Utf8Error { x: () }
/// std::str::from_utf8
#[verifier::external_body] pub fn from_utf8<'a>(v: &'a [u8]) -> (r: Result<&'a str, Utf8Error>) ensures r is Ok <==> utf8_ok(v@), r matches Ok(s) ==> text(s) == v@ { unimplemented!() }
//@item src/response.rs Data
//@tok Cow < 'a , [ u8 ] > => CowBytes < 'a >
//@tok Cow < 'a , str > => CowStr < 'a >
//@end
impl<'a> Data<'a> {
    pub open spec fn v(&self) -> DV { match self { Data::Bytes(b) => DV::Bytes(b.b()), Data::String(s) => DV::Text(s.b()) } }
//@fn src/response.rs Data<'a> - as_bytes
//@sig pub fn vx_bytes(&self) -> (r: &[u8])
//@tok ( bytes ) => bytes ==>> ( bytes ) => bytes . vx_all ( )
//@spec
    ensures r@ == self.v().b(),
//@end
//@fn src/response.rs Data<'a> - into_bytes
//@sig pub fn into_bytes(self) -> (r: Vec<u8>)
//@spec
    ensures r@ == self.v().b(),
//@end
//@fn src/response.rs Data<'a> - as_string
//@sig pub fn as_string(&self) -> (r: Result<&str, Utf8Error>)
//@tok from_utf8 ( bytes ) => from_utf8 ( bytes . vx_all ( ) )
//@tok Ok ( string ) => Ok ( string . vx_str ( ) )
//@spec
    ensures self.v() is Text ==> r is Ok, r is Ok <==> self.v() is Text || utf8_ok(self.v().b()), r matches Ok(s) ==> text(s) == self.v().b(),
//@end
//@fn src/response.rs Data<'a> - into_string
//@sig pub fn into_string(self) -> (r: Result<String, FromUtf8Error>)
//@spec
    ensures self.v() is Text ==> r is Ok, r is Ok <==> self.v() is Text || utf8_ok(self.v().b()), r matches Ok(s) ==> s.bytes() == self.v().b(),
//@end
}
/// Into<Data>
pub trait IntoData<'a>: Sized { spec fn data(self) -> DV; fn vx_into(self) -> (r: Data<'a>) ensures r.v() == self.data(); }
impl<'a> IntoData<'a> for Vec<u8> {
    open spec fn data(self) -> DV { DV::Bytes(self@) }
//@fn src/response.rs Vec<u8> Into into
//@sig fn vx_into(self) -> (r: Data<'a>)
//@tok Cow :: Owned => CowBytes :: Owned
//@tok Cow :: Borrowed => CowBytes :: Borrowed
//@end
}
impl<'a> IntoData<'a> for &'a [u8] {
    open spec fn data(self) -> DV { DV::Bytes(self@) }
//@fn src/response.rs &'a[u8] Into into
//@sig fn vx_into(self) -> (r: Data<'a>)
//@tok Cow :: Owned => CowBytes :: Owned
//@tok Cow :: Borrowed => CowBytes :: Borrowed
//@end
}
impl<'a> IntoData<'a> for String {
    open spec fn data(self) -> DV { DV::Text(self.bytes()) }
//@fn src/response.rs String Into into
//@sig fn vx_into(self) -> (r: Data<'a>)
//@tok Cow :: Owned => CowStr :: Owned
//@tok Cow :: Borrowed => CowStr :: Borrowed
//@end
}
impl<'a> IntoData<'a> for &'a str {
    open spec fn data(self) -> DV { DV::Text(text(self)) }
//@fn src/response.rs &'astr Into into
//@sig fn vx_into(self) -> (r: Data<'a>)
//@tok Cow :: Owned => CowStr :: Owned
//@tok Cow :: Borrowed => CowStr :: Borrowed
//@end
}
/// std: the identity
impl<'a> IntoData<'a> for Data<'a> { open spec fn data(self) -> DV { self.v() } fn vx_into(self) -> (r: Data<'a>) { self } }

// ---------------------------------------------------------------- hyper
pub struct Connection(pub Vec<ConnectionOption>);
#[derive(Copy, Clone, PartialEq, Eq, Structural)]
pub enum ConnectionOption { KeepAlive, Close }
pub uninterp spec fn connection_val(d: Seq<ConnectionOption>) -> HV;
impl Header for Connection { open spec fn kind() -> Kind { Kind::Connection } open spec fn val(&self) -> HV { connection_val(self.0@) } }
/// Connection: close
pub open spec fn closing() -> HV { connection_val(seq![ConnectionOption::Close]) }
pub struct ContentLength(pub u64);
pub uninterp spec fn length_val(n: int) -> HV;
impl Header for ContentLength { open spec fn kind() -> Kind { Kind::ContentLength } open spec fn val(&self) -> HV { length_val(self.0 as int) } }
impl Headers {
    /// hyper
    #[verifier::external_body] pub fn new() -> (r: Headers) ensures r@ == HeadersV::empty() { unimplemented!() }
    /// hyper: remove_raw("content-length")
    #[verifier::external_body] pub fn remove_raw_content_length(&mut self) ensures final(self)@ == old(self)@.remove(Kind::ContentLength) { unimplemented!() }
}
//@gtok remove_raw ( "content-length" ) => remove_raw_content_length ( )
/// What was sent so far. When hyper's response is gone, it has sent the head, if that wasn't done before, and whatever ends the body, unless the connection failed.
pub struct Wire { pub status: StatusCode, pub headers: HeadersV, pub started: bool, pub body: Seq<u8>, pub ended: bool, pub failed: bool }
pub open spec fn prefix(a: Seq<u8>, b: Seq<u8>) -> bool { a.len() <= b.len() && b.take(a.len() as int) == a }
pub open spec fn sized(w: Wire) -> bool { w.headers.contains_key(Kind::ContentLength) }
/// hyper::server::response::Response<Fresh>
pub struct HyperFresh<'a> { pub out: &'a mut Ghost<Wire> }
impl<'a> HyperFresh<'a> {
    pub open spec fn now(&self) -> Wire { (*self.out)@ }
    #[verifier::prophetic] pub open spec fn end(&self) -> Wire { (*final(self.out))@ }
    /// hyper
    #[verifier::external_body] pub fn status(&self) -> (r: StatusCode) ensures r == self.now().status { unimplemented!() }
    /// hyper
    #[verifier::external_body] pub fn headers(&self) -> (r: &Headers) ensures r@ == self.now().headers { unimplemented!() }
    /// hyper
    #[verifier::external_body] pub fn status_mut<'s>(&'s mut self) -> (r: &'s mut StatusCode)
        ensures *r == old(self).now().status, final(self).end() == old(self).end(), final(self).now() == (Wire { status: *final(r), ..old(self).now() }) { unimplemented!() }
    /// hyper
    #[verifier::external_body] pub fn headers_mut<'s>(&'s mut self) -> (r: &'s mut Headers)
        ensures r@ == old(self).now().headers, final(self).end() == old(self).end(), final(self).now() == (Wire { headers: final(r)@, ..old(self).now() }) { unimplemented!() }
    /// hyper: sets the length, sends everything
    #[verifier::external_body] pub fn send(self, body: &[u8]) -> (r: Result<(), IoError>)
        requires !self.now().started,
        ensures sent_as(self.now(), self.end(), body@, r is Ok) { unimplemented!() }
    /// hyper: sends the head, with a length or as chunked
    #[verifier::external_body] pub fn start(self) -> (r: Result<HyperStreaming<'a>, IoError>)
        requires !self.now().started,
        ensures match r { Ok(s) => s.end() == self.end() && s.now() == (Wire { started: true, ..self.now() }), Err(_) => self.end() == (Wire { failed: true, ..self.now() }) } { unimplemented!() }
}
pub open spec fn sent_as(now: Wire, end: Wire, body: Seq<u8>, ok: bool) -> bool {
    let w = Wire { headers: now.headers.insert(Kind::ContentLength, length_val(body.len() as int)), started: true, body, ended: true, ..now };
    if ok { end == w } else { prefix(end.body, body) && end == (Wire { started: end.started, body: end.body, ended: false, failed: true, ..w }) }
}
/// hyper::server::response::Response<Streaming>
pub struct HyperStreaming<'a> { pub out: &'a mut Ghost<Wire> }
impl<'a> HyperStreaming<'a> {
    pub open spec fn now(&self) -> Wire { (*self.out)@ }
    #[verifier::prophetic] pub open spec fn end(&self) -> Wire { (*final(self.out))@ }
    /// hyper; an empty chunk would end a chunked body
    #[verifier::external_body] pub fn write(&mut self, buf: &[u8]) -> (r: Result<usize, IoError>)
        requires buf@.len() > 0 || sized(old(self).now()),
        ensures final(self).end() == old(self).end(), wrote(old(self).now(), final(self).now(), buf@, r) { unimplemented!() }
    /// hyper
    #[verifier::external_body] pub fn flush(&mut self) -> (r: Result<(), IoError>)
        ensures final(self).end() == old(self).end(), match r { Ok(_) => final(self).now() == old(self).now(), Err(_) => final(self).now() == (Wire { failed: true, ..old(self).now() }) } { unimplemented!() }
    /// hyper: ends the body
    #[verifier::external_body] pub fn end_(self) -> (r: Result<(), IoError>)
        ensures match r { Ok(_) => self.end() == (Wire { ended: true, ..self.now() }), Err(_) => self.end() == (Wire { failed: true, ..self.now() }) } { unimplemented!() }
}
pub open spec fn wrote(a: Wire, b: Wire, buf: Seq<u8>, r: Result<usize, IoError>) -> bool {
    match r { Ok(n) => n <= buf.len() && b == (Wire { body: a.body + buf.take(n as int), ..a }), Err(_) => wrote_some(a, b, buf) }
}
pub open spec fn wrote_some(a: Wire, b: Wire, buf: Seq<u8>) -> bool { exists|k: int| 0 <= k <= buf.len() && b == (Wire { body: a.body + #[trigger] buf.take(k), failed: true, ..a }) }
//@item src/response.rs MaybeMock
//@end
impl<T> MaybeMock<T> {
//@fn src/response.rs MaybeMock<T> - actual
//@sig pub fn actual(response: T) -> (r: MaybeMock<T>)
//@spec
    ensures r == MaybeMock::Actual(response),
//@end
//@fn src/response.rs MaybeMock<T> - mock
//@sig pub fn mock() -> (r: MaybeMock<T>)
//@spec
    ensures r matches MaybeMock::Mock { headers, status } && headers@ == HeadersV::empty() && status == StatusCode::Ok,
//@end
}
pub open spec fn unsent(status: StatusCode, headers: HeadersV) -> Wire { Wire { status, headers, started: false, body: Seq::empty(), ended: false, failed: false } }
impl<'a> MaybeMock<HyperFresh<'a>> {
    pub open spec fn now(&self) -> Wire { match self { MaybeMock::Actual(r) => r.now(), MaybeMock::Mock { headers, status } => unsent(*status, headers@) } }
    pub open spec fn real(&self) -> bool { *self is Actual }
    #[verifier::prophetic] pub open spec fn end(&self) -> Option<Wire> { match self { MaybeMock::Actual(r) => Some(r.end()), MaybeMock::Mock { .. } => None } }
//@fn src/response.rs MaybeMock<hyper::server::response::Response<'a>> - status
//@sig pub fn status(&self) -> (r: StatusCode)
//@tok => status ==>> => * status
//@spec
    ensures r == self.now().status,
//@end
//@fn src/response.rs MaybeMock<hyper::server::response::Response<'a>> - status_mut
//@sig pub fn status_mut<'s>(&'s mut self) -> (r: &'s mut StatusCode)
//@spec
    ensures *r == old(self).now().status, final(self).end() == old(self).end(), final(self).now() == (Wire { status: *final(r), ..old(self).now() }),
//@end
//@fn src/response.rs MaybeMock<hyper::server::response::Response<'a>> - headers
//@sig pub fn headers(&self) -> (r: &Headers)
//@spec
    ensures r@ == self.now().headers,
//@end
//@fn src/response.rs MaybeMock<hyper::server::response::Response<'a>> - headers_mut
//@sig pub fn headers_mut<'s>(&'s mut self) -> (r: &'s mut Headers)
//@spec
    ensures r@ == old(self).now().headers, final(self).end() == old(self).end(), final(self).now() == (Wire { headers: final(r)@, ..old(self).now() }),
//@end
//@fn src/response.rs MaybeMock<hyper::server::response::Response<'a>> - send
//@sig pub fn send(self, payload: &[u8]) -> (r: Result<(), IoError>)
//@spec
    requires !self.now().started,
    ensures match self.end() { Some(e) => sent_as(self.now(), e, payload@, r is Ok), None => r is Ok },
//@end
//@fn src/response.rs MaybeMock<hyper::server::response::Response<'a>> - start
//@sig pub fn start(self) -> (r: Result<MaybeMock<HyperStreaming<'a>>, IoError>)
//@result map
//@spec
    requires !self.now().started,
    ensures match r { Ok(s) => s.end() == self.end() && (self.real() ==> s.now() == (Wire { started: true, ..self.now() })),
        Err(_) => self.end() == Some(Wire { failed: true, ..self.now() }) },
//@end
}
impl<'a> MaybeMock<HyperStreaming<'a>> {
    pub open spec fn now(&self) -> Wire { match self { MaybeMock::Actual(r) => r.now(), MaybeMock::Mock { headers, status } => unsent(*status, headers@) } }
    pub open spec fn real(&self) -> bool { *self is Actual }
    #[verifier::prophetic] pub open spec fn end(&self) -> Option<Wire> { match self { MaybeMock::Actual(r) => Some(r.end()), MaybeMock::Mock { .. } => None } }
//@fn src/response.rs MaybeMock<hyper::server::response::Response<'a,hyper::net::Streaming>> - end
//@sig pub fn end_(self) -> (r: Result<(), IoError>)
//@method end => end_
//@spec
    ensures match self.end() { Some(e) => match r { Ok(_) => e == (Wire { ended: true, ..self.now() }), Err(_) => e == (Wire { failed: true, ..self.now() }) }, None => r is Ok },
//@end
//@fn src/response.rs MaybeMock<hyper::server::response::Response<'a,hyper::net::Streaming>> Write write
//@sig pub fn write(&mut self, buffer: &[u8]) -> (r: Result<usize, IoError>)
//@spec
    requires old(self).real() ==> buffer@.len() > 0 || sized(old(self).now()),
    ensures final(self).end() == old(self).end(), old(self).real() ==> wrote(old(self).now(), final(self).now(), buffer@, r), !old(self).real() ==> r == Ok::<usize, IoError>(buffer@.len() as usize),
//@end
//@fn src/response.rs MaybeMock<hyper::server::response::Response<'a,hyper::net::Streaming>> Write flush
//@sig pub fn flush(&mut self) -> (r: Result<(), IoError>)
//@spec
    ensures final(self).end() == old(self).end(), !old(self).real() ==> r is Ok,
        old(self).real() ==> match r { Ok(_) => final(self).now() == old(self).now(), Err(_) => final(self).now() == (Wire { failed: true, ..old(self).now() }) },
//@end
    /// std: Write::write_all (writes until there's nothing left, unless that fails)
    pub fn write_all(&mut self, buffer: &[u8]) -> (r: Result<(), IoError>)
        ensures final(self).end() == old(self).end(), !old(self).real() ==> r is Ok,
            old(self).real() ==> all_written(old(self).now(), final(self).now(), buffer@, r is Ok),
    {
        let ghost b = buffer@;
        let mut buf = buffer;
        let mut failed = false;
        proof { assert(b.take(0) =~= Seq::empty()); assert(old(self).now().body + b.take(0) =~= old(self).now().body); }
        while buf.len() > 0
            invariant b == buffer@, self.end() == old(self).end(), buf@.len() <= b.len(), buf@ == b.skip(b.len() - buf@.len()),
                self.real() ==> self.now() == (Wire { body: old(self).now().body + b.take(b.len() - buf@.len()), ..old(self).now() }),
            decreases buf@.len(),
        {
            let ghost k = b.len() - buf@.len();
            let ghost before = self.now();
            let n = match self.write(buf) { Ok(n) => n, Err(e) => {
                proof { if old(self).real() { let j = choose|j: int| 0 <= j <= buf@.len() && self.now() == (Wire { body: before.body + #[trigger] buf@.take(j), failed: true, ..before });
                    assert(b.take(k) + buf@.take(j) =~= b.take(k + j)); assert(self.now().body =~= old(self).now().body + b.take(k + j));
                    assert(self.now() == (Wire { body: old(self).now().body + b.take(k + j), failed: self.now().failed, ..old(self).now() })); } }
                return Err(e) } };
            proof { if old(self).real() { assert(b.take(k) + buf@.take(n as int) =~= b.take(k + n)); assert(before.body + buf@.take(n as int) =~= old(self).now().body + b.take(k + n)); } }
            if n == 0 { proof { if old(self).real() { assert(self.now() == (Wire { body: old(self).now().body + b.take(k + n), failed: self.now().failed, ..old(self).now() })); } } return Err(IoError::new(ErrorKind::WriteZero, ())) }
            buf = buf.vx_from(n);
        }
        proof { assert(b.take(b.len() as int) =~= b); }
        Ok(())
    }
}
pub open spec fn all_written(a: Wire, b: Wire, buf: Seq<u8>, ok: bool) -> bool {
    if ok { b == (Wire { body: a.body + buf, ..a }) } else { exists|k: int| 0 <= k <= buf.len() && (b == (Wire { body: a.body + #[trigger] buf.take(k), failed: b.failed, ..a })) }
}

// ---------------------------------------------------------------- filters
/// what a filter says
pub enum AV { Next(Option<DV>), Silent, Abort(Seq<u8>) }
//@item src/filter.rs ResponseAction
//@end
//@item src/filter.rs FilterContext
//@end
pub open spec fn odv(d: Option<Data<'_>>) -> Option<DV> { match d { Some(d) => Some(d.v()), None => None } }
impl<'a> ResponseAction<'a> {
    pub open spec fn v(&self) -> AV { match self { ResponseAction::Next(d) => AV::Next(odv(*d)), ResponseAction::SilentAbort => AV::Silent, ResponseAction::Abort(e) => AV::Abort(e.bytes()) } }
//@fn src/filter.rs ResponseAction<'a> - next
//@sig pub fn next<T: IntoData<'a>>(data: Option<T>) -> (r: ResponseAction<'a>)
//@spec
    ensures r.v() == AV::Next(match data { Some(d) => Some(d.data()), None => None }),
//@end
//@fn src/filter.rs ResponseAction<'a> - silent_abort
//@sig pub fn silent_abort() -> (r: ResponseAction<'a>)
//@spec
    ensures r.v() == AV::Silent,
//@end
//@fn src/filter.rs ResponseAction<'a> - abort
//@sig pub fn abort(message: String) -> (r: ResponseAction<'a>)
//@spec
    ensures r.v() == AV::Abort(message.bytes()),
//@end
}
/// The response under way: what the filters remember, the head, and the queue of what they put out
pub struct Head { pub storage: AnyMap, pub status: StatusCode, pub headers: HeadersV }
/// a ResponseFilter: any functions of what it's given and what is remembered
#[verifier::external_body] pub struct ResponseFilterBox { x: u8 }
impl ResponseFilterBox {
    pub uninterp spec fn begins(&self, g: Global, h: Head) -> (Head, AV);
    pub uninterp spec fn writes(&self, g: Global, s: AnyMap, c: Option<DV>) -> (AnyMap, AV);
    pub uninterp spec fn ends(&self, g: Global, s: AnyMap) -> (AnyMap, AV);
    /// ResponseFilter::begin of the user's filter
    #[verifier::external_body] pub fn begin<'x, 'a>(&'a self, context: FilterContext<'x>, status: StatusCode, headers: &mut Headers) -> (r: (StatusCode, ResponseAction<'a>))
        ensures (Head { storage: *final(context.storage), status: r.0, headers: final(headers)@ }, r.1.v()) == self.begins(*context.global, Head { storage: *old(context.storage), status, headers: old(headers)@ }) { unimplemented!() }
    /// ResponseFilter::write of the user's filter
    #[verifier::external_body] pub fn write<'x, 'a>(&'a self, context: FilterContext<'x>, content: Option<Data<'a>>) -> (r: ResponseAction<'a>)
        ensures (*final(context.storage), r.v()) == self.writes(*context.global, *old(context.storage), odv(content)) { unimplemented!() }
    /// ResponseFilter::end of the user's filter
    #[verifier::external_body] pub fn end<'x, 'a>(&'a self, context: FilterContext<'x>) -> (r: ResponseAction<'a>)
        ensures (*final(context.storage), r.v()) == self.ends(*context.global, *old(context.storage)) { unimplemented!() }
}
pub type FS = Seq<ResponseFilterBox>;
/// what the actions put out: the data in order, until one aborts
pub open spec fn drained(q: Seq<AV>) -> (Seq<u8>, Option<Seq<u8>>) decreases q.len() {
    if q.len() == 0 { (Seq::empty(), None) } else {
        let p = drained(q.drop_last());
        if p.1 is Some { p } else { match q.last() { AV::Next(Some(d)) => (p.0 + d.b(), None), AV::Abort(e) => (p.0, Some(e)), _ => p } }
    }
}
/// everything that earlier filters put out passes one more filter
pub open spec fn again(f: ResponseFilterBox, g: Global, s: AnyMap, q: Seq<AV>) -> (AnyMap, Seq<AV>, Option<Seq<u8>>) decreases q.len() {
    if q.len() == 0 { (s, Seq::empty(), None) } else {
        let p = again(f, g, s, q.drop_last());
        match q.last() { AV::Next(c) => { let w = f.writes(g, p.0, c); (w.0, p.1.push(w.1), p.2) }, AV::Silent => p, AV::Abort(e) => (p.0, p.1, Some(e)) }
    }
}
/// the beginning, up to the filter that stops it: the head, what earlier filters put out, and the last answer
pub open spec fn began(fs: FS, g: Global, h: Head) -> (Head, Seq<AV>, AV) decreases fs.len() {
    if fs.len() == 0 { (h, Seq::empty(), AV::Next(None)) } else {
        let p = began(fs.drop_last(), g, h);
        let f = fs.last();
        if !(p.2 is Next) { p } else {
            let q = p.1.push(p.2);
            let b = f.begins(g, p.0);
            if b.1 is Abort { (b.0, q, b.1) } else {
                let x = again(f, g, b.0.storage, q);
                (Head { storage: x.0, ..b.0 }, x.1, match x.2 { Some(e) => AV::Abort(e), None => b.1 })
            }
        }
    }
}
pub open spec fn begun(fs: FS, g: Global, h: Head) -> Result<(Head, Seq<AV>), Seq<u8>> {
    let b = began(fs, g, h);
    match b.2 { AV::Abort(e) => Err(e), a => Ok((b.0, b.1.push(a))) }
}
/// an action passes filters
pub open spec fn passed(fs: FS, g: Global, s: AnyMap, a: AV) -> (AnyMap, AV) decreases fs.len() {
    if fs.len() == 0 { (s, a) } else {
        let p = passed(fs.drop_last(), g, s, a);
        match p.1 { AV::Next(c) => fs.last().writes(g, p.0, c), _ => p }
    }
}
/// the end: from the last filter to the first, until one stops it
pub open spec fn ending(fs: FS, g: Global, s: AnyMap, n: nat) -> (AnyMap, Seq<AV>, AV) decreases n {
    if n == 0 || n > fs.len() { (s, Seq::empty(), AV::Next(None)) } else {
        let p = ending(fs, g, s, (n - 1) as nat);
        if !(p.2 is Next) { p } else {
            let e = fs[fs.len() - n].ends(g, p.0);
            (e.0, if e.1 is Next { p.1.push(e.1) } else { p.1 }, e.1)
        }
    }
}
/// the i-th of these is from the i-th last filter, and passes the filters after it
pub open spec fn ended(fs: FS, g: Global, s: AnyMap, outs: Seq<AV>) -> (AnyMap, Seq<AV>) decreases outs.len() {
    if outs.len() == 0 || outs.len() > fs.len() { (s, Seq::empty()) } else {
        let p = ended(fs, g, s, outs.drop_last());
        let r = passed(fs.skip(fs.len() - outs.len() + 1), g, p.0, outs.last());
        (r.0, p.1.push(r.1))
    }
}
/// what comes of the end
pub open spec fn finale(fs: FS, g: Global, s: AnyMap) -> Seq<AV> { let e = ending(fs, g, s, fs.len()); ended(fs, g, e.0, e.1) .1 }
pub open spec fn end_stopped(fs: FS, g: Global, s: AnyMap) -> AV { ending(fs, g, s, fs.len()).2 }
pub open spec fn avs(q: Seq<ResponseAction<'_>>) -> Seq<AV> { Seq::new(q.len(), |i: int| q[i].v()) }
//@item src/response.rs Error
//@end
/// conversions
pub trait VxInto<T>: Sized { spec fn into_ok(self, r: T) -> bool; fn vx_into(self) -> (r: T) ensures self.into_ok(r); }
impl VxInto<Error> for IoError {
    open spec fn into_ok(self, r: Error) -> bool { r == Error::Io(self) }
//@fn src/response.rs Error From from
//@sig fn vx_into(self) -> (r: Error)
//@tok Error :: Io ( $e ) => Error :: Io ( self )
//@end
}
/// std: the identity
impl VxInto<Error> for Error { open spec fn into_ok(self, r: Error) -> bool { r == self } fn vx_into(self) -> (r: Error) { self } }
/// std: the identity
impl VxInto<IoError> for IoError { open spec fn into_ok(self, r: IoError) -> bool { r == self } fn vx_into(self) -> (r: IoError) { self } }
/// `?` and try!
pub fn vx_from<A: VxInto<B>, B>(a: A) -> (r: B) ensures a.into_ok(r) { a.vx_into() }
pub open spec fn failure(e: Error) -> Option<Seq<u8>> { match e { Error::Filter(m) => Some(m.bytes()), Error::Io(_) => None } }
//@fn src/response.rs - - filter_content
//@sig pub fn filter_content<'a, 'd: 'a, Content: IntoData<'d>>(filters: &'a [ResponseFilterBox], content: Content, global: &Global, filter_storage: &mut AnyMap) -> (r: ResponseAction<'a>)
//@spec
    ensures (*final(filter_storage), r.v()) == passed(filters@, *global, *old(filter_storage), AV::Next(Some(content.data()))),
//@at loop 0 init
    let ghost fs = filters@;
    let ghost a0 = filter_result.v();
    let ghost mut n: int = 0;
    proof { assert(fs.take(0) =~= Seq::empty()); }
//@at loop 0 spec
    invariant fs == filters@, a0 == AV::Next(Some(content.data())), 0 <= n <= fs.len(), vx_it0@.len() == fs.len() - n, forall|i: int| 0 <= i < vx_it0@.len() ==> *#[trigger] vx_it0@[i] == fs[n + i],
        (*filter_storage, filter_result.v()) == passed(fs.take(n), *global, *old(filter_storage), a0),
    ensures (*filter_storage, filter_result.v()) == passed(fs, *global, *old(filter_storage), a0),
    decreases vx_it0@.len(),
//@at loop 0 start
    proof { lemma_stays(fs, *global, *old(filter_storage), a0, n); assert(fs.take(n + 1).drop_last() =~= fs.take(n)); assert(fs.take(n + 1).last() == fs[n]); n = n + 1; }
//@at loop 0 exit
    proof { assert(fs.take(n) =~= fs); }
//@end
pub proof fn lemma_stays(fs: FS, g: Global, s: AnyMap, a: AV, n: int)
    requires 0 <= n <= fs.len()
    ensures !(passed(fs.take(n), g, s, a).1 is Next) ==> passed(fs, g, s, a) == passed(fs.take(n), g, s, a)
    decreases fs.len() - n
{
    if n < fs.len() { lemma_stays(fs, g, s, a, n + 1); assert(fs.take(n + 1).drop_last() =~= fs.take(n)); } else { assert(fs.take(n) =~= fs); }
}

pub proof fn lemma_avs()
    ensures avs(Seq::<ResponseAction<'_>>::empty()) =~= Seq::<AV>::empty(),
        forall|q: Seq<ResponseAction<'_>>, a: ResponseAction<'_>| #[trigger] avs(q.push(a)) =~= avs(q).push(a.v()),
{
}
pub proof fn lemma_began(fs: FS, g: Global, h: Head, n: int)
    requires 0 <= n <= fs.len()
    ensures !(began(fs.take(n), g, h).2 is Next) ==> began(fs, g, h) == began(fs.take(n), g, h)
    decreases fs.len() - n
{
    if n < fs.len() { lemma_began(fs, g, h, n + 1); assert(fs.take(n + 1).drop_last() =~= fs.take(n)); } else { assert(fs.take(n) =~= fs); }
}
pub open spec fn obytes(o: Option<String>) -> Option<Seq<u8>> { match o { Some(s) => Some(s.bytes()), None => None } }
//@fn src/response.rs - - filter_headers
//@sig pub fn filter_headers<'a>(filters: &'a [ResponseFilterBox], status: StatusCode, headers: &mut Headers, global: &Global, filter_storage: &mut AnyMap) -> (r: Result<(StatusCode, Vec<ResponseAction<'a>>), Error>)
//@spec
    ensures
        match begun(filters@, *global, Head { storage: *old(filter_storage), status, headers: old(headers)@ }) {
            Ok(b) => r matches Ok(o) && Head { storage: *final(filter_storage), status: o.0, headers: final(headers)@ } == b.0 && drained(avs(o.1@)) == drained(b.1), // [P12]
            Err(m) => r matches Err(e) && failure(e) == Some(m), // [P12]
        },
//@at loop 0 init
    let ghost fs = filters@;
    let ghost h0 = Head { storage: *filter_storage, status, headers: headers@ };
    let ghost mut n: int = 0;
    proof { assert(fs.take(0) =~= Seq::empty()); lemma_avs(); }
//@at loop 0 spec
    invariant fs == filters@, h0 == (Head { storage: *old(filter_storage), status, headers: old(headers)@ }), 0 <= n <= fs.len(), vx_it0@.len() == fs.len() - n, forall|i: int| 0 <= i < vx_it0@.len() ==> *#[trigger] vx_it0@[i] == fs[n + i],
        (Head { storage: *filter_storage, status: header_result.0, headers: headers@ }, avs(write_queue@), header_result.1.v()) == began(fs.take(n), *global, h0),
    ensures (Head { storage: *filter_storage, status: header_result.0, headers: headers@ }, avs(write_queue@), header_result.1.v()) == began(fs, *global, h0),
    decreases vx_it0@.len(),
//@at loop 0 start
    let ghost p = began(fs.take(n), *global, h0);
    let ghost q = p.1.push(p.2);
    proof { lemma_began(fs, *global, h0, n); assert(fs.take(n + 1).drop_last() =~= fs.take(n)); assert(fs.take(n + 1).last() == fs[n]); n = n + 1; lemma_avs(); }
//@at loop 1 init
    let ghost q0 = vx_it1@;
    let ghost mut m: int = 0;
    let ghost s1 = *filter_storage;
    proof { assert(avs(q0) == q); assert(avs(q0).take(0) =~= Seq::empty()); lemma_avs(); }
//@at loop 1 spec
    invariant 0 <= m <= q0.len(), vx_it1@ =~= q0.skip(m), (*filter_storage, avs(vx_c1@), obytes(error)) == again(*filter, *global, s1, avs(q0).take(m)),
    ensures (*filter_storage, avs(vx_c1@), obytes(error)) == again(*filter, *global, s1, avs(q0)),
    decreases vx_it1@.len(),
//@at loop 1 start
    proof { assert(avs(q0).take(m + 1).drop_last() =~= avs(q0).take(m)); assert(avs(q0).take(m + 1).last() == q0[m].v()); m = m + 1; lemma_avs(); }
//@at loop 1 exit
    proof { assert(avs(q0).take(m) =~= avs(q0)); }
//@at loop 0 exit
    proof { assert(fs.take(n) =~= fs); }
//@at before write_queue.push(action)
    proof { lemma_avs(); }
//@end
pub proof fn lemma_ending(fs: FS, g: Global, s: AnyMap, n: nat)
    requires n <= fs.len()
    ensures ending(fs, g, s, n).1.len() <= n, !(ending(fs, g, s, n).2 is Next) ==> ending(fs, g, s, fs.len()) == ending(fs, g, s, n),
    decreases fs.len() - n
{
    lemma_ending_len(fs, g, s, n);
    if n < fs.len() { lemma_ending(fs, g, s, n + 1); }
}
pub proof fn lemma_ending_len(fs: FS, g: Global, s: AnyMap, n: nat) ensures ending(fs, g, s, n).1.len() <= n decreases n { if n > 0 { lemma_ending_len(fs, g, s, (n - 1) as nat); } }
pub proof fn lemma_ended(fs: FS, g: Global, s: AnyMap, outs: Seq<AV>, k: int)
    requires 0 <= k <= outs.len() <= fs.len()
    ensures ended(fs, g, s, outs).1.len() == outs.len(), ended(fs, g, s, outs).1.take(k) =~= ended(fs, g, s, outs.take(k)).1
    decreases outs.len()
{
    if k < outs.len() { lemma_ended(fs, g, s, outs.drop_last(), k); assert(outs.drop_last().take(k) =~= outs.take(k)); } else { assert(outs.take(k) =~= outs); if k > 0 { lemma_ended(fs, g, s, outs.drop_last(), k - 1); } }
}
/// one of these aborts, and says m
pub open spec fn aborting(q: Seq<AV>, m: Seq<u8>) -> bool { exists|i: int| 0 <= i < q.len() && #[trigger] q[i] == AV::Abort(m) }
/// a filter aborts at the end, and says m
pub open spec fn end_aborts(fs: FS, g: Global, s: AnyMap, m: Seq<u8>) -> bool { end_stopped(fs, g, s) == AV::Abort(m) || aborting(finale(fs, g, s), m) }
pub open spec fn rv(r: Option<ResponseAction<'_>>) -> AV { match r { Some(a) => a.v(), None => AV::Silent } }
//@fn src/response.rs - - filter_end
//@sig pub fn filter_end<'a>(filters: &'a [ResponseFilterBox], global: &Global, filter_storage: &mut AnyMap) -> (r: Result<Vec<ResponseAction<'a>>, Error>)
//@opt ranges
//@spec
    ensures
        r matches Ok(q) ==> !(end_stopped(filters@, *global, *old(filter_storage)) is Abort) && drained(avs(q@)) == drained(finale(filters@, *global, *old(filter_storage))), // [P12]
        r matches Err(e) ==> failure(e) matches Some(m) && end_aborts(filters@, *global, *old(filter_storage), m), // [P12]
//@at entry
    let vx_n = filters.len();
    let ghost fs = filters@;
    let ghost s0 = *filter_storage;
    let ghost all = ending(fs, *global, s0, fs.len());
//@at loop 0 init
    let ghost mut n: nat = 0;
    proof { lemma_avs(); }
//@at loop 0 spec
    invariant_except_break ending(fs, *global, s0, n).2 is Next,
    invariant fs == filters@, s0 == *old(filter_storage), 0 <= n <= fs.len(), vx_it0@.len() == fs.len() - n, forall|i: int| 0 <= i < vx_it0@.len() ==> *#[trigger] vx_it0@[i] == fs[fs.len() - 1 - n - i],
        all == ending(fs, *global, s0, fs.len()), (*filter_storage, avs(outputs@)) == (ending(fs, *global, s0, n).0, ending(fs, *global, s0, n).1),
    ensures (*filter_storage, avs(outputs@)) == (all.0, all.1), !(all.2 is Abort),
    decreases vx_it0@.len(),
//@at loop 0 start
    proof { lemma_ending(fs, *global, s0, n + 1); assert(*filter == fs[fs.len() - (n + 1)]); n = n + 1; lemma_avs(); }
//@at loop 1 init
    let ghost outs = all.1;
    let ghost s1 = all.0;
    let ghost o0 = vx_it1@;
    let ghost mut j: int = 0;
    proof { lemma_ending(fs, *global, s0, fs.len()); assert(outs.take(0) =~= Seq::empty()); assert(outs == avs(Seq::new(o0.len(), |i: int| o0[i].1))); lemma_avs(); lemma_ended(fs, *global, s1, outs, 0); }
//@at loop 1 spec
    invariant fs == filters@, s0 == *old(filter_storage), all == ending(fs, *global, s0, fs.len()), outs == all.1, s1 == all.0, !(all.2 is Abort), outs.len() <= fs.len() == vx_n, vx_n <= usize::MAX, o0.len() == outs.len(),
        forall|i: int| 0 <= i < outs.len() ==> (#[trigger] o0[i]).0 == i && o0[i].1.v() == outs[i],
        0 <= j <= outs.len(), vx_it1@ =~= o0.skip(j),
        *filter_storage == ended(fs, *global, s1, outs.take(j)).0, drained(avs(write_queue@)) == drained(ended(fs, *global, s1, outs.take(j)).1),
    ensures drained(avs(write_queue@)) == drained(ended(fs, *global, s1, outs).1),
    decreases vx_it1@.len(),
//@at loop 1 start
    let ghost p = ended(fs, *global, s1, outs.take(j));
    let ghost tail = fs.skip(fs.len() - j);
    proof { assert(o0[j] == (index, output)); assert(outs.take(j + 1).drop_last() =~= outs.take(j)); lemma_ended(fs, *global, s1, outs, j + 1); }
//@at loop 2 init
    let ghost mut k: int = 0;
    proof { assert(tail.take(0) =~= Seq::empty()); }
//@at loop 2 spec
    invariant fs == filters@, s0 == *old(filter_storage), all == ending(fs, *global, s0, fs.len()), outs == all.1, s1 == all.0, !(all.2 is Abort), 0 <= j < outs.len() <= fs.len(), tail == fs.skip(fs.len() - j), p == ended(fs, *global, s1, outs.take(j)),
        0 <= k <= tail.len(), vx_it2@.len() == tail.len() - k, forall|i: int| 0 <= i < vx_it2@.len() ==> *#[trigger] vx_it2@[i] == tail[k + i],
        (*filter_storage, rv(result)) == passed(tail.take(k), *global, p.0, outs[j]),
    ensures (*filter_storage, rv(result)) == passed(tail, *global, p.0, outs[j]),
    decreases vx_it2@.len(),
//@at loop 2 start
    proof {
        lemma_stays(tail, *global, p.0, outs[j], k);
        lemma_ended(fs, *global, s1, outs, j + 1);
        assert(outs.take(j + 1).drop_last() =~= outs.take(j));
        assert(outs.take(j + 1).last() == outs[j]);
        assert(fs.len() - outs.take(j + 1).len() + 1 == fs.len() - j);
        assert(ended(fs, *global, s1, outs.take(j + 1)).1.last() == passed(tail, *global, p.0, outs[j]).1);
        lemma_ended(fs, *global, s1, outs.take(j + 1), j + 1);
        assert(ended(fs, *global, s1, outs).1[j] == ended(fs, *global, s1, outs).1.take(j + 1)[j]);
        assert(finale(fs, *global, s0)[j] == passed(tail, *global, p.0, outs[j]).1);
        assert(tail.take(k + 1).drop_last() =~= tail.take(k)); assert(tail.take(k + 1).last() == tail[k]); k = k + 1;
    }
//@at loop 2 exit
    proof { assert(tail.take(k) =~= tail); }
//@at before write_queue.extend
    let ghost w0 = write_queue@;
    let ghost r0 = rv(result);
    proof {
        assert(outs.take(j + 1).drop_last() =~= outs.take(j));
        assert(ended(fs, *global, s1, outs.take(j + 1)) == (*filter_storage, p.1.push(r0)));
        lemma_drained(avs(w0), p.1, r0); lemma_avs();
        if result is None { lemma_drained(avs(w0), p.1, r0); }
        j = j + 1;
    }
//@at loop 1 exit
    proof { assert(outs.take(j) =~= outs); }
//@end
/// the first abort counts
pub proof fn lemma_drained_on(q: Seq<AV>, n: int) requires 0 <= n <= q.len() ensures drained(q.take(n)).1 is Some ==> drained(q) == drained(q.take(n)) decreases q.len() - n {
    if n < q.len() { lemma_drained_on(q, n + 1); assert(q.take(n + 1).drop_last() =~= q.take(n)); } else { assert(q.take(n) =~= q); }
}
pub proof fn lemma_aborting(q: Seq<AV>) ensures drained(q).1 matches Some(m) ==> aborting(q, m) decreases q.len() {
    if q.len() > 0 { lemma_aborting(q.drop_last()); let h = q.drop_last();
        if let Some(m) = drained(h).1 { let i = choose|i: int| 0 <= i < h.len() && #[trigger] h[i] == AV::Abort(m); assert(q[i] == AV::Abort(m)); } else if let AV::Abort(m) = q.last() { assert(q[q.len() - 1] == AV::Abort(m)); } }
}
pub proof fn lemma_drained(a: Seq<AV>, b: Seq<AV>, x: AV) requires drained(a) == drained(b) ensures drained(a.push(x)) == drained(b.push(x)), x is Silent ==> drained(a) == drained(b.push(x)) {
    assert(a.push(x).drop_last() =~= a); assert(b.push(x).drop_last() =~= b);
}

pub trait BytesExt { spec fn held(&self) -> Seq<u8>; fn push_bytes(&mut self, bytes: &[u8]) ensures final(self).held() == old(self).held() + bytes@; }
/// std: Write for Vec<u8> can't fail
#[verifier::external_body] pub fn vx_write_vec(v: &mut Vec<u8>, b: &[u8]) -> (r: Result<(), IoError>) ensures r is Ok, final(v)@ == old(v)@ + b@ { unimplemented!() }
impl BytesExt for Vec<u8> {
    open spec fn held(&self) -> Seq<u8> { self@ }
//@fn src/utils.rs Vec<u8> BytesExt push_bytes
//@sig fn push_bytes(&mut self, bytes: &[u8])
//@tok self . write_all ( $b ) . unwrap ( ) => vx_unwrap_io ( vx_write_vec ( self , $b ) )
//@end
}
#[verifier::external_body] pub fn vx_unwrap_io(r: Result<(), IoError>) requires r is Ok { unimplemented!() }
// ---------------------------------------------------------------- Response
//@item src/response.rs Response
//@end
//@item src/response.rs Chunked
//@end
//@item src/response.rs Raw
//@end
/// `&[][..]`
#[verifier::external_body] pub fn vx_no_bytes<'x>() -> (r: &'x [u8]) ensures r@ == Seq::<u8>::empty() { unimplemented!() }
pub open spec fn fresh(w: Wire) -> bool { !w.started && w.body.len() == 0 && !w.ended && !w.failed }
pub open spec fn closed(h: HeadersV, close: bool) -> HeadersV { if close { h.insert(Kind::Connection, closing()) } else { h } }
/// the head without filters
pub open spec fn plain_head(now: Wire, close: bool) -> Wire { Wire { headers: closed(now.headers, close), ..now } }
pub open spec fn out(a: AV) -> Seq<u8> { match a { AV::Next(Some(d)) => d.b(), _ => Seq::empty() } }
/// A whole response: the data c, and what the filters make of it.
pub struct Whole { pub fs: FS, pub g: Global, pub h: Head, pub c: DV }
impl Whole {
    pub open spec fn begun(self) -> Result<(Head, Seq<AV>), Seq<u8>> { begun(self.fs, self.g, self.h) }
    pub open spec fn passed(self) -> (AnyMap, AV) { passed(self.fs, self.g, self.begun()->Ok_0.0.storage, AV::Next(Some(self.c))) }
    /// no filter aborts
    pub open spec fn quiet(self) -> bool {
        self.begun() is Ok && drained(self.begun()->Ok_0.1).1 is None && !(self.passed().1 is Abort)
        && !(end_stopped(self.fs, self.g, self.passed().0) is Abort) && drained(finale(self.fs, self.g, self.passed().0)).1 is None
    }
    /// a filter aborts and says m
    pub open spec fn aborts(self, m: Seq<u8>) -> bool {
        match self.begun() { Err(e) => e == m, Ok(b) => drained(b.1).1 == Some(m) || self.passed().1 == AV::Abort(m) || end_aborts(self.fs, self.g, self.passed().0, m) }
    }
    pub open spec fn aborts_at_all(self) -> bool { exists|m: Seq<u8>| self.aborts(m) }
    /// what is sent
    pub open spec fn body(self) -> Seq<u8> { drained(self.begun()->Ok_0.1).0 + out(self.passed().1) + drained(finale(self.fs, self.g, self.passed().0)).0 }
    pub open spec fn head(self, now: Wire, close: bool) -> Wire { let h = self.begun()->Ok_0.0; Wire { status: h.status, headers: closed(h.headers, close), ..now } }
    /// the result of sending it
    pub open spec fn told(self, r: Result<(), Error>) -> bool { match r { Err(Error::Filter(m)) => self.aborts(m.bytes()), _ => self.quiet() } }
    /// what is sent
    pub open spec fn sent(self, now: Wire, end: Wire, close: bool, r: Result<(), Error>) -> bool {
        match r { Err(Error::Filter(_)) => fresh(end), _ => sent_as(self.head(now, close), end, self.body(), r is Ok) }
    }
}
/// without filters, the data is sent as it is
pub proof fn lemma_no_filters(w: Whole) requires w.fs.len() == 0
    ensures w.quiet(), w.body() == w.c.b(), w.begun()->Ok_0.0 == w.h, drained(w.begun()->Ok_0.1) == (Seq::<u8>::empty(), None::<Seq<u8>>), !w.aborts_at_all()
{
    let q = seq![AV::Next(None)];
    assert(began(w.fs, w.g, w.h).1.push(AV::Next(None)) =~= q);
    assert(q.drop_last() =~= Seq::empty());
    reveal_with_fuel(drained, 2);
    assert(drained(q) == (Seq::<u8>::empty(), None::<Seq<u8>>));
    assert(finale(w.fs, w.g, w.passed().0) =~= Seq::empty());
    assert(w.body() =~= w.c.b());
}
pub proof fn lemma_closing() ensures forall|v: Seq<ConnectionOption>| v.len() == 1 && v[0] == ConnectionOption::Close ==> #[trigger] connection_val(v) == closing() {
    assert forall|v: Seq<ConnectionOption>| v.len() == 1 && v[0] == ConnectionOption::Close implies #[trigger] connection_val(v) == closing() by { assert(v =~= seq![ConnectionOption::Close]); }
}
pub open spec fn head_of(w: Wire, s: AnyMap) -> Head { Head { storage: s, status: w.status, headers: w.headers } }
impl<'a, 'b> Response<'a, 'b> {
    pub open spec fn wf(&self) -> bool { self.writer is Some && self.filter_storage is Some && fresh(self.now()) }
    pub open spec fn now(&self) -> Wire { self.writer->Some_0.now() }
    #[verifier::prophetic] pub open spec fn end(&self) -> Option<Wire> { self.writer->Some_0.end() }
    pub open spec fn whole(&self, c: DV) -> Whole { Whole { fs: self.filters@, g: *self.global, h: head_of(self.now(), self.filter_storage->Some_0), c } }
    pub open spec fn same(&self, o: &Self) -> bool { self.filters == o.filters && self.global == o.global && self.force_close == o.force_close }
//@fn src/response.rs Response<'a,'b> - new
//@sig pub fn new(response: HyperFresh<'a>, filters: &'b [ResponseFilterBox], global: &'b Global, force_close: bool) -> (r: Response<'a, 'b>)
//@spec
    requires fresh(response.now()),
    ensures r.wf(), r.now() == response.now(), r.end() == Some(response.end()), r.filters == filters, r.global == global, r.force_close == force_close, r.filter_storage == Some(AnyMap::empty()),
//@end
//@fn src/response.rs Response<'a,'b> - mock
//@sig pub fn mock(global: &'b Global) -> (r: Response<'a, 'b>)
//@spec
    ensures r.wf(), r.end() is None, r.filters@.len() == 0, r.now().status == StatusCode::Ok, r.now().headers == HeadersV::empty(), r.global == global,
//@end
//@fn src/response.rs Response<'a,'b> - status
//@sig pub fn status(&self) -> (r: StatusCode)
//@spec
    requires self.wf(),
    ensures r == self.now().status,
//@end
//@fn src/response.rs Response<'a,'b> - set_status
//@sig pub fn set_status(&mut self, status: StatusCode)
//@spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).now() == (Wire { status, ..old(self).now() }), final(self).end() == old(self).end(), final(self).same(old(self)), final(self).filter_storage == old(self).filter_storage,
//@end
//@fn src/response.rs Response<'a,'b> - headers
//@sig pub fn headers(&self) -> (r: &Headers)
//@spec
    requires self.wf(),
    ensures r@ == self.now().headers,
//@end
//@fn src/response.rs Response<'a,'b> - headers_mut
//@sig pub fn headers_mut<'s>(&'s mut self) -> (r: &'s mut Headers)
//@spec
    requires old(self).wf(),
    ensures r@ == old(self).now().headers, final(self).wf(), final(self).now() == (Wire { headers: final(r)@, ..old(self).now() }), final(self).end() == old(self).end(), final(self).same(old(self)), final(self).filter_storage == old(self).filter_storage,
//@end
//@fn src/response.rs Response<'a,'b> - filter_storage
//@sig pub fn filter_storage(&self) -> (r: &AnyMap)
//@spec
    requires self.wf(),
    ensures *r == self.filter_storage->Some_0,
//@end
//@fn src/response.rs Response<'a,'b> - filter_storage_mut
//@sig pub fn filter_storage_mut<'s>(&'s mut self) -> (r: &'s mut AnyMap)
//@spec
    requires old(self).filter_storage is Some,
    ensures *r == old(self).filter_storage->Some_0, final(self).writer == old(self).writer, final(self).same(old(self)), final(self).filter_storage == Some(*final(r)),
//@end
//@fn src/response.rs Response<'a,'b> - send_sized
//@attr #[verifier::loop_isolation(false)]
//@attr #[verifier::allow_complex_invariants]
//@sig pub fn send_sized<'d, Content: IntoData<'d>>(&mut self, content: Content) -> (r: Result<(), Error>)
//@spec
    requires old(self).wf(),
    ensures
        final(self).writer is None,
        old(self).whole(content.data()).told(r), // [P12]
        old(self).end() matches Some(e) ==> old(self).whole(content.data()).sent(old(self).now(), e, old(self).force_close, r), // [P12]
        old(self).filters@.len() == 0 ==> !(r matches Err(Error::Filter(_))) && (old(self).end() matches Some(e) ==> sent_as(plain_head(old(self).now(), old(self).force_close), e, content.data().b(), r is Ok)), // [P13]
        old(self).end() is None ==> !(r matches Err(Error::Io(_))), // [P13]
        old(self).end() matches Some(e) ==> (r matches Err(Error::Io(_)) <==> e.failed), // [P13]
        old(self).end() matches Some(e) ==> (r matches Err(Error::Filter(_)) ==> !sized(e)), // [P13]
        old(self).end() matches Some(e) ==> (old(self).force_close ==> e.headers.contains_key(Kind::Connection) && e.headers[Kind::Connection] == closing()), // [P19]
//@at entry
    let ghost w = self.whole(content.data());
    let ghost now = self.now();
    let ghost force = self.force_close;
    proof { lemma_closing(); if w.fs.len() == 0 { lemma_no_filters(w); } }
//@at loop 0 init
    let ghost base = buffer@;
    let ghost q0 = vx_it0@;
    let ghost mut m: int = 0;
    proof { assert(avs(q0).take(0) =~= Seq::empty()); assert(base + Seq::<u8>::empty() =~= base); }
//@at loop 0 spec
    invariant 0 <= m <= q0.len(), vx_it0@ =~= q0.skip(m), drained(avs(q0).take(m)).1 is None, buffer@ == base + drained(avs(q0).take(m)).0,
        w.begun() is Ok, drained(w.begun()->Ok_0.1) == drained(avs(q0)),
    ensures drained(avs(q0)).1 is None, buffer@ == base + drained(avs(q0)).0,
    decreases vx_it0@.len(),
//@at loop 0 start
    proof { assert(avs(q0).take(m + 1).drop_last() =~= avs(q0).take(m)); assert(avs(q0).take(m + 1).last() == q0[m].v()); lemma_drained_on(avs(q0), m + 1); let b0 = base; let d0 = drained(avs(q0).take(m)).0;
        assert forall|x: Seq<u8>| (b0 + d0) + x =~= #[trigger] (b0 + (d0 + x)) by {} m = m + 1; }
//@at loop 0 exit
    proof { assert(avs(q0).take(m) =~= avs(q0)); }
//@at loop 1 init
    let ghost base = buffer@;
    let ghost q0 = vx_it1@;
    let ghost mut m: int = 0;
    proof { lemma_aborting(finale(w.fs, w.g, w.passed().0)); assert(avs(q0).take(0) =~= Seq::empty()); assert(base + Seq::<u8>::empty() =~= base); }
//@at loop 1 spec
    invariant 0 <= m <= q0.len(), vx_it1@ =~= q0.skip(m), drained(avs(q0).take(m)).1 is None, buffer@ == base + drained(avs(q0).take(m)).0,
        drained(finale(w.fs, w.g, w.passed().0)) == drained(avs(q0)), w.begun() is Ok,
    ensures drained(avs(q0)).1 is None, buffer@ == base + drained(avs(q0)).0,
    decreases vx_it1@.len(),
//@at loop 1 start
    proof { assert(avs(q0).take(m + 1).drop_last() =~= avs(q0).take(m)); assert(avs(q0).take(m + 1).last() == q0[m].v()); lemma_drained_on(avs(q0), m + 1); let b0 = base; let d0 = drained(avs(q0).take(m)).0;
        assert forall|x: Seq<u8>| (b0 + d0) + x =~= #[trigger] (b0 + (d0 + x)) by {} m = m + 1; }
//@at loop 1 exit
    proof { assert(avs(q0).take(m) =~= avs(q0)); }
//@at before match writer.send(&buffer)
    proof { assert(buffer@ =~= w.body());
        let h = closed(w.begun()->Ok_0.0.headers, force); let l = length_val(buffer@.len() as int);
        assert(h.remove(Kind::ContentLength).insert(Kind::ContentLength, l) =~= h.insert(Kind::ContentLength, l));
    }
//@end
//@fn src/response.rs Response<'a,'b> - try_send_data
//@sig pub fn try_send_data<'d, Content: IntoData<'d>>(self, content: Content) -> (r: Result<(), Error>)
//@tok self . send_sized => vx_self . send_sized
//@spec
    requires self.wf(),
    ensures
        self.whole(content.data()).told(r), // [P12]
        self.end() matches Some(e) ==> self.whole(content.data()).sent(self.now(), e, self.force_close, r), // [P12]
        self.v().data(content.data(), self.end(), r), // [P12]
//@at entry
    let mut vx_self = self;
//@end
//@fn src/response.rs Response<'a,'b> Drop drop
//@tok & [ ] [ .. ] => vx_no_bytes ( )
//@sig pub fn vx_drop(&mut self)
//@spec
    requires old(self).writer is Some ==> old(self).wf(),
    ensures
        final(self).writer is None, // [P13]
        old(self).writer is Some ==> (old(self).end() matches Some(e) ==> exists|r: Result<(), Error>| #[trigger] old(self).whole(DV::Bytes(Seq::empty())).sent(old(self).now(), e, old(self).force_close, r)
            && old(self).whole(DV::Bytes(Seq::empty())).told(r)), // [P13]
//@end
    /// what starting a chunked body comes to
    #[verifier::prophetic] pub open spec fn chunking(&self, r: Chunked<'a, 'b>) -> bool {
        let now = self.now();
        let h = head_of(Wire { headers: now.headers.remove(Kind::ContentLength), ..now }, self.filter_storage->Some_0);
        match begun(self.filters@, *self.global, h) {
            Err(m) => (r.writer matches Some(Err(Error::Filter(e))) && e.bytes() == m) && (self.end() matches Some(e) ==> fresh(e)),
            Ok(b) => r.filter_storage == b.0.storage && (r.writer matches Some(w) && opened(Wire { status: b.0.status, headers: closed(b.0.headers, self.force_close), ..now }, self.end(), w, drained(b.1))),
        }
    }
//@fn src/response.rs Response<'a,'b> - into_chunked
//@sig pub fn into_chunked(self) -> (r: Chunked<'a, 'b>)
//@opt lift and_then start_chunked(writer,vx_p)
//@result and_then
//@tok self => vx_self
//@spec
    requires self.wf(),
    ensures
        r.filters == self.filters, r.global == self.global,
        self.chunking(r), // [P12]
        self.filters@.len() == 0 ==> match r.writer {
            Some(Ok(s)) => s.end() == self.end() && (s.real() ==> s.now() == (Wire { started: true, headers: closed(self.now().headers.remove(Kind::ContentLength), self.force_close), ..self.now() })), // [P13]
            Some(Err(Error::Io(_))) => self.end() matches Some(e) && !e.ended && e.body.len() == 0, // [P13]
            _ => false, // [P13]
        },
        self.end() matches Some(e) ==> self.force_close ==> (r.writer matches Some(Err(_)) ==> closes(e)), // [P19]
        self.force_close ==> (r.writer matches Some(Ok(s)) ==> s.real() ==> closes(s.now())), // [P19]
//@at entry
    let mut vx_self = self;
    proof { lemma_closing(); let hs = self.now().headers.remove(Kind::ContentLength); assert(hs.remove(Kind::ContentLength) =~= hs); let h = head_of(Wire { headers: self.now().headers.remove(Kind::ContentLength), ..self.now() }, self.filter_storage->Some_0);
        assert(self.now().body =~= Seq::empty());
        if self.filters@.len() == 0 { lemma_no_filters(Whole { fs: self.filters@, g: *self.global, h, c: DV::Bytes(Seq::empty()) }); } }
//@at before let writer = match filter_result
    assert(self.force_close ==> closes(writer.now()));
    assert(filter_result is Err ==> self.end() == writer.end());
    assert(fresh(writer.now()));
//@end
//@fn src/response.rs Response<'a,'b> - into_raw
//@sig pub fn into_raw(self, content_length: u64) -> (r: Raw<'a>)
//@tok self => vx_self
//@spec
    requires self.wf(),
    ensures
        match r.writer {
            Some(Ok(s)) => s.end() == self.end() && (s.real() ==> s.now() == (Wire { started: true, headers: closed(self.now().headers, self.force_close).insert(Kind::ContentLength, length_val(content_length as int)), ..self.now() })), // [P13]
            Some(Err(_)) => self.end() matches Some(e) && e.failed && !e.started && !e.ended && e.body.len() == 0, // [P13]
            None => false, // [P13]
        },
        self.force_close ==> (r.writer matches Some(Ok(s)) ==> s.real() ==> closes(s.now())), // [P19]
//@at entry
    let mut vx_self = self;
    proof { lemma_closing(); let h = closed(self.now().headers, self.force_close); let l = length_val(content_length as int); assert(h.remove(Kind::ContentLength).insert(Kind::ContentLength, l) =~= h.insert(Kind::ContentLength, l)); }
//@end
}
pub open spec fn closes(w: Wire) -> bool { w.headers.contains_key(Kind::Connection) && w.headers[Kind::Connection] == closing() }
/// a streaming body after its first data
#[verifier::prophetic] pub open spec fn opened<'a>(now: Wire, end: Option<Wire>, w: Result<MaybeMock<HyperStreaming<'a>>, Error>, q: (Seq<u8>, Option<Seq<u8>>)) -> bool {
    match w {
        Ok(s) => q.1 is None && s.end() == end && (s.real() ==> s.now() == (Wire { started: true, body: q.0, ..now })),
        Err(Error::Filter(m)) => q.1 == Some(m.bytes()) && (end matches Some(e) ==> e == (Wire { started: true, body: q.0, ..now })),
        Err(Error::Io(_)) => end matches Some(e) && e.status == now.status && e.headers == now.headers && prefix(e.body, q.0) && !e.ended,
    }
}
pub proof fn lemma_some(a: Seq<u8>, c: Seq<u8>)
    ensures prefix(Seq::empty(), c), forall|d: Seq<u8>, k: int| 0 <= k <= d.len() && prefix(a + d, c) ==> prefix(a + #[trigger] d.take(k), c),
{
    assert(c.take(0) =~= Seq::empty());
    assert forall|d: Seq<u8>, k: int| 0 <= k <= d.len() && prefix(a + d, c) implies prefix(a + #[trigger] d.take(k), c) by { assert(c.take(a.len() + k) =~= c.take((a + d).len() as int).take(a.len() + k)); assert((a + d).take(a.len() + k) =~= a + d.take(k)); }
}
pub proof fn lemma_drained_prefix(q: Seq<AV>, n: int) requires 0 <= n <= q.len() ensures prefix(drained(q.take(n)).0, drained(q).0) decreases q.len() - n {
    if n < q.len() { lemma_drained_prefix(q, n + 1); assert(q.take(n + 1).drop_last() =~= q.take(n));
        let a = drained(q.take(n)).0; let b = drained(q.take(n + 1)).0; let c = drained(q).0; assert(b.take(a.len() as int) =~= a); assert(c.take(a.len() as int) =~= c.take(b.len() as int).take(a.len() as int)); } else { assert(q.take(n) =~= q); let c = drained(q).0; assert(c.take(c.len() as int) =~= c); }
}
//@fn src/response.rs Response<'a,'b> - into_chunked/and_then
//@attr #[verifier::loop_isolation(false)]
//@attr #[verifier::allow_complex_invariants]
//@sig pub fn start_chunked<'a, 'x>(vx_w: MaybeMock<HyperFresh<'a>>, vx_p: (StatusCode, Vec<ResponseAction<'x>>)) -> (r: Result<MaybeMock<HyperStreaming<'a>>, Error>)
//@spec
    requires fresh(vx_w.now()),
    ensures opened(Wire { status: vx_p.0, ..vx_w.now() }, vx_w.end(), r, drained(avs(vx_p.1@))), // [P12 P13]
//@at entry
    let mut writer = vx_w;
    let ghost w0 = Wire { status: vx_p.0, ..vx_w.now() };
    proof { lemma_some(Seq::empty(), drained(avs(vx_p.1@)).0); assert(vx_w.now().body =~= Seq::empty()); }
    let ghost q0 = vx_p.1@;
//@at loop 0 init
    let ghost mut m: int = 0;
    let ghost is_real = writer.real();
    proof { assert(avs(q0).take(0) =~= Seq::empty()); assert(is_real ==> writer.now().body =~= Seq::empty()); }
//@at loop 0 spec
    invariant 0 <= m <= q0.len(), vx_it0@ =~= q0.skip(m), drained(avs(q0).take(m)).1 is None, writer.real() == is_real, writer.end() == vx_w.end(), is_real ==> writer.now() == (Wire { started: true, body: drained(avs(q0).take(m)).0, ..w0 }),
    ensures drained(avs(q0)).1 is None, is_real ==> writer.now() == (Wire { started: true, body: drained(avs(q0)).0, ..w0 }),
    decreases vx_it0@.len(),
//@at loop 0 start
    proof { assert(avs(q0).take(m + 1).drop_last() =~= avs(q0).take(m)); assert(avs(q0).take(m + 1).last() == q0[m].v()); lemma_some(drained(avs(q0).take(m)).0, drained(avs(q0)).0); lemma_drained_on(avs(q0), m + 1); lemma_drained_prefix(avs(q0), m + 1); m = m + 1; }
//@at loop 0 exit
    proof { assert(avs(q0).take(m) =~= avs(q0)); }
//@end
impl<'a, 'b> Chunked<'a, 'b> {
    pub open spec fn g(&self) -> Global { *self.global }
    pub open spec fn same(&self, o: &Self) -> bool { self.filters == o.filters && self.global == o.global }
    /// what comes of more content
    pub open spec fn more(&self, c: DV) -> (AnyMap, AV) { passed(self.filters@, *self.global, self.filter_storage, AV::Next(Some(c))) }
    /// what sending content comes to
    #[verifier::prophetic] pub open spec fn sent(&self, c: DV, new: &Self, r: Result<usize, Error>) -> bool {
        match self.writer {
            None => (r matches Err(Error::Io(_))) && new.writer is None && new.filter_storage == self.filter_storage,
            Some(Err(e)) => r == Err::<usize, Error>(e) && new.writer is None && new.filter_storage == self.filter_storage,
            Some(Ok(w)) => new.filter_storage == self.more(c).0 && (new.writer matches Some(Ok(x)) && x.end() == w.end() && x.real() == w.real() && match self.more(c).1 {
                AV::Next(Some(d)) => (w.real() ==> all_written(w.now(), x.now(), d.b(), r is Ok)) && (r matches Ok(n) ==> n == d.b().len()) && !(r matches Err(Error::Filter(_))) && (!w.real() ==> r is Ok),
                AV::Abort(m) => x == w && (r matches Err(e) && failure(e) == Some(m)),
                _ => x == w && r == Ok::<usize, Error>(0),
            }),
        }
    }
    /// the same without filters
    #[verifier::prophetic] pub open spec fn plain_sent(&self, c: Seq<u8>, new: &Self, ok: bool) -> bool {
        match self.writer {
            Some(Ok(w)) => new.writer matches Some(Ok(x)) && x.end() == w.end() && x.real() == w.real() && if w.real() { all_written(w.now(), x.now(), c, ok) } else { ok },
            _ => !ok && new.writer is None,
        }
    }
    /// the same without filters
    #[verifier::prophetic] pub open spec fn plain_finished(&self, r: Result<(), Error>) -> bool {
        match self.writer {
            Some(Ok(w)) => !(r matches Err(Error::Filter(_))) && (w.end() matches Some(e) ==> w.real() ==> if r is Ok { e == (Wire { ended: true, ..w.now() }) } else { e.body == w.now().body && !e.ended }),
            Some(Err(e)) => r == Err::<(), Error>(e),
            None => r matches Err(Error::Io(_)),
        }
    }
    /// what ending the body comes to
    #[verifier::prophetic] pub open spec fn finished(&self, r: Result<(), Error>) -> bool {
        match self.writer {
            None => r matches Err(Error::Io(_)),
            Some(Err(e)) => r == Err::<(), Error>(e),
            Some(Ok(w)) => {
                let f = finale(self.filters@, *self.global, self.filter_storage);
                let stops = end_stopped(self.filters@, *self.global, self.filter_storage) is Abort;
                match r {
                    Ok(_) => !stops && drained(f).1 is None && (w.end() matches Some(e) ==> w.real() ==> e == (Wire { body: w.now().body + drained(f).0, ended: true, ..w.now() })),
                    Err(Error::Filter(m)) => end_aborts(self.filters@, *self.global, self.filter_storage, m.bytes()) && (w.end() matches Some(e) ==> w.real() ==> exists|b: Seq<u8>| prefix(b, drained(f).0) && e == (Wire { body: #[trigger] (w.now().body + b), ..w.now() })),
                    Err(Error::Io(_)) => !stops && w.real() && (w.end() matches Some(e) && exists|b: Seq<u8>| prefix(b, drained(f).0) && e == (Wire { body: #[trigger] (w.now().body + b), failed: e.failed, ..w.now() })),
                }
            }
        }
    }
//@fn src/response.rs Chunked<'a,'b> - filter_storage
//@sig pub fn filter_storage(&self) -> (r: &AnyMap)
//@spec
    ensures *r == self.filter_storage,
//@end
//@fn src/response.rs Chunked<'a,'b> - filter_storage_mut
//@sig pub fn filter_storage_mut<'s>(&'s mut self) -> (r: &'s mut AnyMap)
//@spec
    ensures *r == old(self).filter_storage, final(self).writer == old(self).writer, final(self).same(old(self)), final(self).filter_storage == *final(r),
//@end
//@fn src/response.rs Chunked<'a,'b> - try_send
//@opt keep-ref
//@sig pub fn try_send<'d, Content: IntoData<'d>>(&mut self, content: Content) -> (r: Result<usize, Error>)
//@spec
    ensures
        final(self).same(old(self)),
        old(self).sent(content.data(), final(self), r), // [P12]
        old(self).filters@.len() == 0 ==> old(self).plain_sent(content.data().b(), final(self), r is Ok), // [P13]
        r matches Ok(n) ==> old(self).filters@.len() == 0 ==> n == content.data().b().len(), // [P13]
//@end
//@fn src/response.rs Chunked<'a,'b> - send
//@sig pub fn send<'d, Content: IntoData<'d>>(&mut self, content: Content)
//@spec
    ensures
        final(self).same(old(self)),
        exists|r: Result<usize, Error>| #[trigger] old(self).sent(content.data(), final(self), r), // [P12]
//@end
//@fn src/response.rs Chunked<'a,'b> - finish
//@attr #[verifier::loop_isolation(false)]
//@attr #[verifier::allow_complex_invariants]
//@sig pub fn finish(&mut self) -> (r: Result<(), Error>)
//@method end => end_
//@spec
    ensures
        final(self).writer is None, // [P13]
        old(self).finished(r), // [P12]
        old(self).filters@.len() == 0 ==> (old(self).writer matches Some(Ok(w)) ==> !w.now().ended) ==> old(self).plain_finished(r), // [P13]
//@at loop 0 init
    let ghost q0 = vx_it0@;
    let ghost mut m: int = 0;
    let ghost is_real = writer.real();
    let ghost now = writer.now();
    let ghost f = finale(self.filters@, *self.global, old(self).filter_storage);
    proof { assert(avs(q0).take(0) =~= Seq::empty()); assert(is_real ==> now.body =~= now.body + Seq::<u8>::empty()); lemma_some(Seq::empty(), drained(avs(q0)).0); lemma_aborting(f); }
//@at loop 0 spec
    invariant 0 <= m <= q0.len(), vx_it0@ =~= q0.skip(m), drained(avs(q0).take(m)).1 is None, writer.real() == is_real, writer.end() == old(self).writer->Some_0->Ok_0.end(), is_real ==> writer.now() == (Wire { body: now.body + drained(avs(q0).take(m)).0, ..now }),
    ensures drained(avs(q0)).1 is None, is_real ==> writer.now() == (Wire { body: now.body + drained(avs(q0)).0, ..now }),
    decreases vx_it0@.len(),
//@at loop 0 start
    proof { assert(avs(q0).take(m + 1).drop_last() =~= avs(q0).take(m)); assert(avs(q0).take(m + 1).last() == q0[m].v()); lemma_some(drained(avs(q0).take(m)).0, drained(avs(q0)).0); lemma_drained_on(avs(q0), m + 1); lemma_drained_prefix(avs(q0), m + 1); lemma_drained_prefix(avs(q0), m);
        let b0 = now.body; let d0 = drained(avs(q0).take(m)).0; assert forall|x: Seq<u8>| #[trigger] ((b0 + d0) + x) =~= (b0 + (d0 + x)) by {} m = m + 1; }
//@at loop 0 exit
    proof { assert(avs(q0).take(m) =~= avs(q0)); lemma_drained_prefix(avs(q0), q0.len() as int); }
//@at before let write_queue
    proof { lemma_some(Seq::empty(), drained(finale(self.filters@, *self.global, self.filter_storage)).0); assert(writer.real() ==> writer.now().body =~= writer.now().body + Seq::<u8>::empty()); }
//@end
//@fn src/response.rs Chunked<'a,'b> - end
//@sig pub fn end_(self) -> (r: Result<(), Error>)
//@tok self => vx_self
//@spec
    ensures self.finished(r), // [P12]
        self.filters@.len() == 0 ==> (self.writer matches Some(Ok(w)) ==> !w.now().ended) ==> self.plain_finished(r), // [P13]
//@at entry
    let mut vx_self = self;
//@end
//@fn src/response.rs Chunked<'a,'b> Drop drop
//@sig pub fn vx_drop(&mut self)
//@spec
    ensures final(self).writer is None, // [P13]
        old(self).writer is Some ==> exists|r: Result<(), Error>| old(self).finished(r), // [P13]
//@end
//@fn src/response.rs Chunked<'a,'b> - borrow_writer
//@opt keep-ref
//@sig pub fn borrow_writer<'s>(&'s mut self) -> (r: Result<&'s mut MaybeMock<HyperStreaming<'a>>, Error>)
//@spec
    ensures
        final(self).same(old(self)), final(self).filter_storage == old(self).filter_storage,
        match old(self).writer {
            Some(Ok(w)) => r matches Ok(x) && *x == w && final(self).writer == Some(Ok::<_, Error>(*final(x))),
            Some(Err(e)) => r == Err::<&'s mut MaybeMock<HyperStreaming<'a>>, Error>(e) && final(self).writer is None,
            None => r matches Err(Error::Io(_)) && final(self).writer is None,
        },
//@end
//@fn src/response.rs Chunked<'a,'b> Write write
//@sig pub fn write(&mut self, content: &[u8]) -> (r: Result<usize, IoError>)
//@result map
//@spec
    ensures
        final(self).same(old(self)),
        r matches Ok(n) ==> n == content@.len(), // [P13]
        exists|t: Result<usize, Error>| #[trigger] old(self).sent(DV::Bytes(content@), final(self), t) && (r is Ok <==> t is Ok), // [P12]
        old(self).filters@.len() == 0 ==> old(self).plain_sent(content@, final(self), r is Ok), // [P13]
//@end
//@fn src/response.rs Chunked<'a,'b> Write write_all
//@sig pub fn write_all(&mut self, content: &[u8]) -> (r: Result<(), IoError>)
//@result map
//@spec
    ensures
        final(self).same(old(self)),
        exists|t: Result<usize, Error>| #[trigger] old(self).sent(DV::Bytes(content@), final(self), t) && (r is Ok <==> t is Ok), // [P12]
        old(self).filters@.len() == 0 ==> old(self).plain_sent(content@, final(self), r is Ok), // [P13]
//@end
//@fn src/response.rs Chunked<'a,'b> Write flush
//@sig pub fn flush(&mut self) -> (r: Result<(), IoError>)
//@spec
    ensures
        final(self).same(old(self)), final(self).filter_storage == old(self).filter_storage,
        match old(self).writer {
            Some(Ok(w)) => final(self).writer matches Some(Ok(x)) && x.end() == w.end() && (w.real() ==> x.now().body == w.now().body && x.now().ended == w.now().ended), // [P13]
            _ => r is Err && final(self).writer is None, // [P13]
        },
//@end
}
pub open spec fn io_of<T>(res: Result<T, Error>, r: Result<T, IoError>) -> bool {
    match res { Ok(v) => r == Ok::<T, IoError>(v), Err(Error::Io(e)) => r == Err::<T, IoError>(e), Err(_) => r is Err }
}
//@fn src/response.rs - - response_to_io_result
//@sig pub fn response_to_io_result<T>(res: Result<T, Error>) -> (r: Result<T, IoError>)
//@spec
    ensures io_of(res, r),
//@end
impl<'a> Raw<'a> {
    /// A content length was set when the body was opened
    pub open spec fn wf(&self) -> bool { self.writer matches Some(Ok(s)) ==> s.real() ==> sized(s.now()) }
//@fn src/response.rs Raw<'a> - borrow_writer
//@opt keep-ref
//@sig pub fn borrow_writer<'s>(&'s mut self) -> (r: Result<&'s mut MaybeMock<HyperStreaming<'a>>, IoError>)
//@spec
    ensures
        match old(self).writer {
            Some(Ok(w)) => r matches Ok(x) && *x == w && final(self).writer == Some(Ok::<_, IoError>(*final(x))),
            Some(Err(e)) => r == Err::<&'s mut MaybeMock<HyperStreaming<'a>>, IoError>(e) && final(self).writer is None,
            None => r is Err && final(self).writer is None,
        },
//@end
//@fn src/response.rs Raw<'a> Write write
//@sig pub fn write(&mut self, content: &[u8]) -> (r: Result<usize, IoError>)
//@spec
    requires old(self).wf(),
    ensures
        final(self).wf(),
        match old(self).writer {
            Some(Ok(w)) => final(self).writer matches Some(Ok(x)) && x.end() == w.end() && (w.real() ==> wrote(w.now(), x.now(), content@, r)), // [P13]
            _ => r is Err && final(self).writer is None, // [P13]
        },
//@end
//@fn src/response.rs Raw<'a> Write write_all
//@sig pub fn write_all(&mut self, content: &[u8]) -> (r: Result<(), IoError>)
//@spec
    requires old(self).wf(),
    ensures
        final(self).wf(),
        match old(self).writer {
            Some(Ok(w)) => final(self).writer matches Some(Ok(x)) && x.end() == w.end() && (w.real() ==> all_written(w.now(), x.now(), content@, r is Ok)), // [P13]
            _ => r is Err && final(self).writer is None, // [P13]
        },
//@end
//@fn src/response.rs Raw<'a> Write flush
//@sig pub fn flush(&mut self) -> (r: Result<(), IoError>)
//@spec
    requires old(self).wf(),
    ensures
        final(self).wf(),
        match old(self).writer {
            Some(Ok(w)) => final(self).writer matches Some(Ok(x)) && x.end() == w.end() && (w.real() ==> x.now().body == w.now().body && x.now().ended == w.now().ended), // [P13]
            _ => r is Err && final(self).writer is None, // [P13]
        },
//@end
//@fn src/response.rs Raw<'a> - try_send
//@sig pub fn try_send<'d, Content: IntoData<'d>>(&mut self, content: Content) -> (r: Result<(), IoError>)
//@spec
    requires old(self).wf(),
    ensures
        final(self).wf(),
        match old(self).writer {
            Some(Ok(w)) => final(self).writer matches Some(Ok(x)) && x.end() == w.end() && (w.real() ==> all_written(w.now(), x.now(), content.data().b(), r is Ok)), // [P13]
            _ => r is Err && final(self).writer is None, // [P13]
        },
//@end
//@fn src/response.rs Raw<'a> - send
//@sig pub fn send<'d, Content: IntoData<'d>>(&mut self, content: Content)
//@spec
    requires old(self).wf(),
    ensures
        final(self).wf(),
        old(self).writer matches Some(Ok(w)) ==> (final(self).writer matches Some(Ok(x)) && x.end() == w.end() && (w.real() ==> exists|ok: bool| #[trigger] all_written(w.now(), x.now(), content.data().b(), ok))), // [P13]
//@end
//@fn src/response.rs Raw<'a> - end
//@sig pub fn end_(self) -> (r: Result<(), IoError>)
//@tok self => vx_self
//@method end => end_
//@spec
    ensures
        match self.writer {
            Some(Ok(w)) => w.end() matches Some(e) ==> w.real() ==> match r { Ok(_) => e == (Wire { ended: true, ..w.now() }), Err(_) => e == (Wire { failed: true, ..w.now() }) }, // [P13]
            Some(Err(e)) => r == Err::<(), IoError>(e), // [P13]
            None => r is Ok,
        },
//@at entry
    let mut vx_self = self;
//@end
}

// ---------------------------------------------------------------- what can be sent
/// A response before anything is sent
pub struct RV { pub fs: FS, pub g: Global, pub now: Wire, pub storage: AnyMap, pub force: bool }
impl RV {
    pub open spec fn whole(self, c: DV) -> Whole { Whole { fs: self.fs, g: self.g, h: head_of(self.now, self.storage), c } }
    pub open spec fn status(self, status: StatusCode) -> RV { RV { now: Wire { status, ..self.now }, ..self } }
    pub open spec fn header(self, k: Kind, v: HV) -> RV { RV { now: Wire { headers: self.now.headers.insert(k, v), ..self.now }, ..self } }
    /// the data is the whole body
    pub open spec fn data(self, c: DV, end: Option<Wire>, r: Result<(), Error>) -> bool { self.whole(c).told(r) && (end matches Some(e) ==> self.whole(c).sent(self.now, e, self.force, r)) }
    /// it's dropped like this: Drop for Response sends it with no data
    pub open spec fn left(self, end: Option<Wire>) -> bool { end matches Some(e) ==> e == self.now }
}
impl<'a, 'b> Response<'a, 'b> {
    pub open spec fn v(&self) -> RV { RV { fs: self.filters@, g: *self.global, now: self.now(), storage: self.filter_storage->Some_0, force: self.force_close } }
}
/// errors that can be handled
pub trait ResponseError: Sized {
    #[verifier::prophetic] spec fn handled(self) -> bool;
    spec fn ok(self) -> bool;
    fn handle(self) requires self.ok() ensures self.handled();
}
pub trait SendResponse<'a, 'b>: Sized {
    type Error;
    /// what is sent, and what is returned
    #[verifier::prophetic] spec fn sends(self, v: RV, end: Option<Wire>, r: Result<(), Self::Error>) -> bool;
    fn send_response(self, response: Response<'a, 'b>) -> (r: Result<(), Self::Error>)
        requires response.wf() ensures self.sends(response.v(), response.end(), r);
}
impl ResponseError for Error {
    #[verifier::prophetic] open spec fn handled(self) -> bool { true }
    open spec fn ok(self) -> bool { true }
//@fn src/response.rs Error ResponseError handle
//@sig fn handle(self)
//@end
}
impl<'a, 'b, 'd, T: IntoData<'d>> SendResponse<'a, 'b> for T {
    type Error = Error;
    #[verifier::prophetic] open spec fn sends(self, v: RV, end: Option<Wire>, r: Result<(), Error>) -> bool { v.data(self.data(), end, r) }
//@fn src/response.rs T SendResponse send_response
//@sig fn send_response(self, response: Response<'a, 'b>) -> (r: Result<(), Error>)
//@end
}
impl<'a, 'b, T: SendResponse<'a, 'b>, U: SendResponse<'a, 'b>> SendResponse<'a, 'b> for Result<T, U> where U::Error: VxInto<T::Error> {
    type Error = T::Error;
    #[verifier::prophetic] open spec fn sends(self, v: RV, end: Option<Wire>, r: Result<(), T::Error>) -> bool {
        match self {
            Ok(d) => d.sends(v.status(StatusCode::Ok), end, r),
            Err(d) => match r { Ok(_) => d.sends(v.status(StatusCode::InternalServerError), end, Ok(())), Err(e) => exists|x: U::Error| #[trigger] d.sends(v.status(StatusCode::InternalServerError), end, Err(x)) && x.into_ok(e) },
        }
    }
//@fn src/response.rs Result<T,U> SendResponse send_response
//@sig fn send_response(self, vx_response: Response<'a, 'b>) -> (r: Result<(), T::Error>)
//@result map_err
//@tok Into :: into => VxInto :: vx_into
//@at entry
    let mut response = vx_response;
//@end
}
impl<'a, 'b, T: SendResponse<'a, 'b>> SendResponse<'a, 'b> for Option<T> {
    type Error = T::Error;
    #[verifier::prophetic] open spec fn sends(self, v: RV, end: Option<Wire>, r: Result<(), T::Error>) -> bool {
        match self { Some(d) => d.sends(v, end, r), None => r is Ok && v.status(StatusCode::NotFound).left(end) }
    }
//@fn src/response.rs Option<T> SendResponse send_response
//@sig fn send_response(self, vx_response: Response<'a, 'b>) -> (r: Result<(), T::Error>)
//@at entry
    let mut response = vx_response;
//@end
}
impl IoError {
    pub uninterp spec fn says(&self) -> Seq<u8>;
    /// std: ToString::to_string
    #[verifier::external_body] pub fn to_string(&self) -> (r: String) ensures r.bytes() == self.says() { unimplemented!() }
}
impl<'a, 'b> SendResponse<'a, 'b> for IoError {
    type Error = Error;
    #[verifier::prophetic] open spec fn sends(self, v: RV, end: Option<Wire>, r: Result<(), Error>) -> bool {
        (if self.of() == ErrorKind::NotFound { v.status(StatusCode::NotFound) } else { v }).data(DV::Text(self.says()), end, r)
    }
//@fn src/response.rs io::Error SendResponse send_response
//@sig fn send_response(self, vx_response: Response<'a, 'b>) -> (r: Result<(), Error>)
//@at entry
    let mut resonse = vx_response;
//@end
}
impl<'a, 'b> Response<'a, 'b> {
//@fn src/response.rs Response<'a,'b> - try_send
//@sig pub fn try_send<Content: SendResponse<'a, 'b>>(self, content: Content) -> (r: Result<(), Content::Error>)
//@spec
    requires self.wf(),
    ensures content.sends(self.v(), self.end(), r), // [P16]
//@end
//@fn src/response.rs Response<'a,'b> - send
//@sig pub fn send<Content: SendResponse<'a, 'b>>(self, content: Content) where Content::Error: ResponseError
//@spec
    requires self.wf(), forall|r: Result<(), Content::Error>| #[trigger] content.sends(self.v(), self.end(), r) ==> (r matches Err(e) ==> e.ok()),
    ensures exists|r: Result<(), Content::Error>| #[trigger] content.sends(self.v(), self.end(), r) && (r matches Err(e) ==> e.handled()), // [P16]
//@end
//@fn src/response.rs Response<'a,'b> - send_data
//@sig pub fn send_data<'d, Content: IntoData<'d>>(self, content: Content)
//@spec
    requires self.wf(),
    ensures exists|r: Result<(), Error>| #[trigger] self.v().data(content.data(), self.end(), r), // [P16]
//@end
}

// ---------------------------------------------------------------- files
/// mime::Mime
pub struct Mime(pub TopLevel, pub SubLevel, pub Vec<MimeParam>);
#[verifier::external_body] pub struct MimeParam { x: u8 }
pub enum TopLevel { Application, Text, Image, Ext(String) }
pub enum SubLevel { OctetStream, Plain, Ext(String) }
/// a type has one text
pub uninterp spec fn mime_text(top: TopLevel, sub: SubLevel, params: Seq<MimeParam>) -> Seq<u8>;
/// `Mime(Application, Ext("octet-stream"), vec![])` is application/octet-stream
pub uninterp spec fn octet_stream() -> Seq<u8>;
impl Mime { pub open spec fn v(&self) -> Seq<u8> { mime_text(self.0, self.1, self.2@) } }
pub mod mimes {
    use super::*;
    /// mime: what application/octet-stream is written like
    pub broadcast axiom fn axiom_octet_stream(top: TopLevel, sub: SubLevel, params: Seq<MimeParam>)
        requires top is Application, (sub matches SubLevel::Ext(s) && s.bytes() == text("octet-stream")) || sub is OctetStream, params.len() == 0
        ensures #[trigger] mime_text(top, sub, params) == octet_stream();
}
pub struct ContentType(pub Mime);
pub uninterp spec fn type_val(m: Seq<u8>) -> HV;
impl Header for ContentType { open spec fn kind() -> Kind { Kind::ContentType } open spec fn val(&self) -> HV { type_val(self.0.v()) } }
/// std::path::Path
#[verifier::external_body] pub struct Path { x: u8 }
#[verifier::external_body] pub struct PathBuf { x: u8 }
#[verifier::external_body] pub struct OsStr { x: u8 }
impl OsStr {
    /// the text, with replacements for what isn't
    pub uninterp spec fn lossy(&self) -> Seq<u8>;
    /// std
    #[verifier::external_body] pub fn to_string_lossy<'s>(&'s self) -> (r: CowStr<'s>) ensures r.b() == self.lossy() { unimplemented!() }
}
impl Path {
    pub uninterp spec fn ext(&self) -> Option<Seq<u8>>;
    /// what is there when it's opened
    pub uninterp spec fn opens(&self) -> Result<File, ErrorKind>;
    /// std
    #[verifier::external_body] pub fn extension(&self) -> (r: Option<&OsStr>) ensures match r { Some(e) => self.ext() == Some(e.lossy()), None => self.ext() is None } { unimplemented!() }
}
impl PathBuf {
    pub uninterp spec fn p(&self) -> Path;
    /// std: Deref
    #[verifier::external_body] pub fn vx_path(&self) -> (r: &Path) ensures *r == self.p() { unimplemented!() }
}
/// std::fs::File; it isn't changed while it's sent
#[verifier::external_body] pub struct File { x: u8 }
#[verifier::external_body] pub struct Metadata { x: u8 }
impl Metadata {
    pub uninterp spec fn dir(&self) -> bool;
    pub uninterp spec fn size(&self) -> nat;
    /// std
    #[verifier::external_body] pub fn is_dir(&self) -> (r: bool) ensures r == self.dir() { unimplemented!() }
    /// std
    #[verifier::external_body] pub fn len(&self) -> (r: u64) ensures r == self.size() { unimplemented!() }
}
impl File {
    /// what is left to read
    pub uninterp spec fn rest(&self) -> Seq<u8>;
    pub uninterp spec fn stat(&self) -> Result<Metadata, ErrorKind>;
    /// std
    #[verifier::external_body] pub fn open(p: &Path) -> (r: Result<File, IoError>)
        ensures match r { Ok(f) => p.opens() == Ok::<File, ErrorKind>(f), Err(e) => p.opens() == Err::<File, ErrorKind>(e.of()) }
    { unimplemented!() }
    /// std; the length of a regular file that was just opened is what can be read
    #[verifier::external_body] pub fn metadata(&self) -> (r: Result<Metadata, IoError>)
        ensures match r { Ok(m) => self.stat() == Ok::<Metadata, ErrorKind>(m) && (!m.dir() ==> m.size() == self.rest().len()), Err(e) => self.stat() == Err::<Metadata, ErrorKind>(e.of()) }
    { unimplemented!() }
    /// std: Read::read (into a new buffer)
    #[verifier::external_body] pub fn vx_read(&mut self) -> (r: Result<Vec<u8>, IoError>)
        ensures r matches Ok(b) ==> b@ == old(self).rest().take(b@.len() as int) && b@.len() <= old(self).rest().len() && final(self).rest() == old(self).rest().skip(b@.len() as int) && (b@.len() == 0 ==> old(self).rest().len() == 0)
    { unimplemented!() }
    /// the error of opening it, if that is all that works
    pub open spec fn usable(&self) -> Result<Seq<u8>, ErrorKind> { match self.stat() { Err(k) => Err(k), Ok(m) => if m.dir() { Err(ErrorKind::Other) } else { Ok(self.rest()) } } }
}
impl Path { pub open spec fn content(&self) -> Result<Seq<u8>, ErrorKind> { match self.opens() { Err(k) => Err(k), Ok(f) => f.usable() } } }
//@fn src/response.rs - - file_metadata
//@sig pub fn file_metadata(file: &File) -> (r: Result<Metadata, IoError>)
//@spec
    ensures match r { Ok(m) => file.usable() is Ok && m.size() == file.rest().len(), Err(e) => file.usable() == Err::<Seq<u8>, ErrorKind>(e.of()) }, // [P24]
//@end
//@fn src/response.rs - - open_file
//@sig pub fn open_file(path: &Path) -> (r: Result<File, IoError>)
//@spec
    ensures match r { Ok(f) => path.content() == Ok::<Seq<u8>, ErrorKind>(f.rest()) && f.usable() is Ok, Err(e) => path.content() == Err::<Seq<u8>, ErrorKind>(e.of()) }, // [P24]
//@end
/// std: io::copy (reads and writes until there's nothing left, unless something fails)
pub fn io_copy<'a>(file: &mut File, writer: &mut Raw<'a>) -> (r: Result<u64, IoError>)
    requires old(writer).wf(),
    ensures
        match old(writer).writer {
            Some(Ok(w)) => final(writer).writer matches Some(Ok(x)) && x.end() == w.end() && (w.real() ==> all_written(w.now(), x.now(), old(file).rest(), r is Ok)),
            _ => (r is Ok ==> old(file).rest().len() == 0) && !(final(writer).writer matches Some(Ok(_))),
        },
{
    let ghost c = file.rest();
    let ghost w0 = writer.writer;
    proof { assert(c.take(0) =~= Seq::empty()); assert(c.skip(0) =~= c); if let Some(Ok(w)) = w0 { assert(w.now().body + Seq::<u8>::empty() =~= w.now().body); } }
    loop
        invariant
            c == old(file).rest(), w0 == old(writer).writer, writer.wf(), file.rest().len() <= c.len(), file.rest() == c.skip(c.len() - file.rest().len()),
            match w0 {
                Some(Ok(w)) => writer.writer matches Some(Ok(x)) && x.end() == w.end() && x.real() == w.real() && (w.real() ==> x.now() == (Wire { body: w.now().body + c.take(c.len() - file.rest().len()), ..w.now() })),
                _ => !(writer.writer matches Some(Ok(_))) && file.rest() == c,
            },
        decreases file.rest().len(),
    {
        let ghost k = c.len() - file.rest().len();
        let b = match file.vx_read() { Ok(b) => b, Err(e) => { proof { if let Some(Ok(w)) = w0 { assert(c.take(k) =~= c.take(k)); } } return Err(e) } };
        if b.len() == 0 { proof { assert(c.take(k) =~= c); } return Ok(0) }
        let ghost n = b@.len() as int;
        let ghost mid = writer.writer;
        proof { assert(c.take(k) + b@ =~= c.take(k + n)); if let Some(Ok(w)) = mid { let b0 = w0->Some_0->Ok_0.now().body; assert((b0 + c.take(k)) + b@ =~= b0 + c.take(k + n));
            assert forall|j: int| 0 <= j <= n implies (b0 + c.take(k)) + #[trigger] b@.take(j) == b0 + c.take(k + j) by { assert(c.take(k) + b@.take(j) =~= c.take(k + j)); assert((b0 + c.take(k)) + b@.take(j) =~= b0 + (c.take(k) + b@.take(j))); } } }
        match writer.write_all(&b) { Ok(()) => {}, Err(e) => return Err(e) }
    }
}
/// a file's bytes are the body
#[verifier::prophetic] pub open spec fn file_sent(v: RV, c: Seq<u8>, end: Option<Wire>, r: Result<(), FileError<'_, '_>>) -> bool {
    !(r matches Err(FileError::Open(_, _))) && (end matches Some(e) ==> {
        let w = Wire { headers: closed(v.now.headers, v.force).insert(Kind::ContentLength, length_val(c.len() as int)), started: true, ..v.now };
        if r is Ok && !(c.len() == 0 && e.failed) { e == (Wire { body: c, ..w }) } else { prefix(e.body, c) && e == (Wire { body: e.body, failed: e.failed, started: e.started, ..w }) || (e.failed && !e.started) }
    })
}
/// nothing is sent, and the response is handed back as it was
#[verifier::prophetic] pub open spec fn handed_back(v: RV, k: ErrorKind, end: Option<Wire>, r: Result<(), FileError<'_, '_>>) -> bool {
    r matches Err(FileError::Open(e, response)) && e.of() == k && response.wf() && response.v() == v && response.end() == end
}
#[verifier::prophetic] pub open spec fn path_sent(v: RV, p: Path, mime: Seq<u8>, end: Option<Wire>, r: Result<(), FileError<'_, '_>>) -> bool {
    match p.content() {
        Ok(c) => file_sent(v.header(Kind::ContentType, type_val(mime)), c, end, r),
        Err(k) => handed_back(v, k, end, r),
    }
}
//@item src/response.rs FileError
//@end
/// the type of an extension
pub uninterp spec fn known_type(ext: Seq<u8>) -> Option<Seq<u8>>;
pub open spec fn type_of(p: Path) -> Seq<u8> { match p.ext() { Some(x) => match known_type(x) { Some(m) => m, None => octet_stream() }, None => octet_stream() } }
/// src/file.rs, under contract for P21
#[verifier::external_body] pub fn ext_to_mime(ext: &str) -> (r: Option<Mime>) ensures match r { Some(m) => known_type(text(ext)) == Some(m.v()), None => known_type(text(ext)) is None } { unimplemented!() }
#[verifier::external_body] pub fn vx_string(s: &str) -> (r: String) ensures r.bytes() == text(s) { unimplemented!() }
impl<'a, 'b> SendResponse<'a, 'b> for File {
    type Error = FileError<'a, 'b>;
    #[verifier::prophetic] open spec fn sends(self, v: RV, end: Option<Wire>, r: Result<(), FileError<'a, 'b>>) -> bool {
        match self.usable() { Ok(c) => file_sent(v, c, end, r), Err(k) => handed_back(v, k, end, r) }
    }
//@fn src/response.rs File SendResponse send_response
//@sig fn send_response(self, response: Response<'a, 'b>) -> (r: Result<(), FileError<'a, 'b>>)
//@result map map_err
//@tok io :: copy => io_copy
//@tok self => vx_self
//@at entry
    let mut vx_self = self;
    proof { let c = self.rest(); lemma_some(Seq::empty(), c); assert(Seq::<u8>::empty() + c =~= c); assert(c.take(c.len() as int) =~= c); assert(response.now().body =~= Seq::empty()); }
//@end
}
impl<'d, 'a, 'b> SendResponse<'a, 'b> for &'d Path {
    type Error = FileError<'a, 'b>;
    #[verifier::prophetic] open spec fn sends(self, v: RV, end: Option<Wire>, r: Result<(), FileError<'a, 'b>>) -> bool { path_sent(v, *self, type_of(*self), end, r) }
//@fn src/response.rs &'dPath SendResponse send_response
//@sig fn send_response(self, vx_response: Response<'a, 'b>) -> (r: Result<(), FileError<'a, 'b>>)
//@tok & $e . to_string_lossy ( ) => $e . to_string_lossy ( ) . vx_str ( )
//@tok :: file :: ext_to_mime => ext_to_mime
//@tok SubLevel :: Ext ( $s . vx_into ( ) ) => SubLevel :: Ext ( vx_string ( $s ) )
//@at entry
    broadcast use mimes::axiom_octet_stream;
    let mut response = vx_response;
//@end
}
impl<'a, 'b> SendResponse<'a, 'b> for PathBuf {
    type Error = FileError<'a, 'b>;
    #[verifier::prophetic] open spec fn sends(self, v: RV, end: Option<Wire>, r: Result<(), FileError<'a, 'b>>) -> bool { path_sent(v, self.p(), type_of(self.p()), end, r) }
//@fn src/response.rs PathBuf SendResponse send_response
//@sig fn send_response(self, response: Response<'a, 'b>) -> (r: Result<(), FileError<'a, 'b>>)
//@tok ( & * self ) => self . vx_path ( )
//@end
}
/// std: AsRef<Path>
pub trait AsPath { spec fn path_of(&self) -> Path; fn as_ref(&self) -> (r: &Path) ensures *r == self.path_of(); }
/// what a mapping says about a path
pub open spec fn mapped<F: FnOnce(&str) -> Option<Mime>>(f: F, p: Path, mime: Seq<u8>) -> bool {
    match p.ext() { None => mime == octet_stream(), Some(x) => exists|s: &str, m: Option<Mime>| text(s) == x && #[trigger] call_ensures(f, (s,), m) && mime == match m { Some(m) => m.v(), None => octet_stream() } }
}
impl<'a, 'b> Response<'a, 'b> {
//@fn src/response.rs Response<'a,'b> - send_file_with_mime
//@sig pub fn send_file_with_mime<P: AsPath, F: FnOnce(&str) -> Option<Mime>>(self, path: P, to_mime: F) -> (r: Result<(), FileError<'a, 'b>>)
//@tok & $e . to_string_lossy ( ) => $e . to_string_lossy ( ) . vx_str ( )
//@tok SubLevel :: Ext ( $s . vx_into ( ) ) => SubLevel :: Ext ( vx_string ( $s ) )
//@tok self => vx_self
//@spec
    requires self.wf(), forall|s: &str| to_mime.requires((s,)),
    ensures exists|mime: Seq<u8>| path_sent(self.v(), path.path_of(), mime, self.end(), r) && #[trigger] mapped(to_mime, path.path_of(), mime), // [P24]
//@at entry
    broadcast use mimes::axiom_octet_stream;
    let mut vx_self = self;
//@at before let file
    proof { assert(mapped(to_mime, *path, mime.v())); }
//@end
}
impl<'a, 'b> FileError<'a, 'b> {
    pub open spec fn wf(&self) -> bool { self matches FileError::Open(_, response) ==> response.wf() }
//@fn src/response.rs FileError<'a,'b> - recover_response
//@sig pub fn recover_response(self) -> (r: Result<Response<'a, 'b>, FileError<'a, 'b>>)
//@spec
    ensures match self { FileError::Open(_, response) => r == Ok::<Response<'a, 'b>, FileError<'a, 'b>>(response), _ => r == Err::<Response<'a, 'b>, FileError<'a, 'b>>(self) }, // [P24]
//@end
//@fn src/response.rs FileError<'a,'b> - send_not_found
//@sig pub fn send_not_found<'d, M: IntoData<'d>>(self, message: M) -> (r: Result<(), FileError<'a, 'b>>)
//@spec
    requires self.wf(),
    ensures match self {
        FileError::Open(e, response) => if e.of() == ErrorKind::NotFound { r is Ok && exists|s: Result<(), Error>| #[trigger] response.v().status(StatusCode::NotFound).data(message.data(), response.end(), s) } else { r == Err::<(), FileError<'a, 'b>>(self) }, // [P24]
        _ => r == Err::<(), FileError<'a, 'b>>(self), // [P24]
    },
//@end
//@fn src/response.rs FileError<'a,'b> - ignore_send_error
//@sig pub fn ignore_send_error(self) -> (r: Result<(), (IoError, Response<'a, 'b>)>)
//@spec
    ensures match self { FileError::Open(e, response) => r == Err::<(), (IoError, Response<'a, 'b>)>((e, response)), _ => r is Ok }, // [P24]
//@end
}
impl<'a, 'b> ResponseError for FileError<'a, 'b> {
    /// 404 for a missing file, 500 for other failures
    #[verifier::prophetic] open spec fn handled(self) -> bool {
        self matches FileError::Open(e, response) ==> if e.of() == ErrorKind::NotFound { exists|s: Result<(), Error>| #[trigger] response.v().status(StatusCode::NotFound).data(DV::Text(text("")), response.end(), s) }
            else { response.v().status(StatusCode::InternalServerError).left(response.end()) }
    }
    open spec fn ok(self) -> bool { self.wf() }
//@fn src/response.rs FileError<'a,'b> ResponseError handle
//@sig fn handle(self)
//@result or_else
//@end
}
impl<'a, 'b> VxInto<IoError> for FileError<'a, 'b> {
    open spec fn into_ok(self, r: IoError) -> bool { match self { FileError::Open(e, _) => r == e, FileError::Send(e) => r == e } }
//@fn src/response.rs FileError<'a,'b> Into into
//@sig fn vx_into(self) -> (r: IoError)
//@end
}
}
fn main() {}
