// ---- lib/http.vrs: methods and status codes of hyper
/// hyper::status::StatusCode; a code that is registered isn't `Unregistered` (hyper never makes such a status).
#[derive(Copy, Clone, PartialEq, Eq, Structural)]
pub enum StatusCode { Continue, SwitchingProtocols, Processing, Ok, Created, Accepted, NonAuthoritativeInformation, NoContent, ResetContent, PartialContent, MultiStatus, AlreadyReported, ImUsed, MultipleChoices, MovedPermanently, Found, SeeOther, NotModified, UseProxy, TemporaryRedirect, PermanentRedirect, BadRequest, Unauthorized, PaymentRequired, Forbidden, NotFound, MethodNotAllowed, NotAcceptable, ProxyAuthenticationRequired, RequestTimeout, Conflict, Gone, LengthRequired, PreconditionFailed, PayloadTooLarge, UriTooLong, UnsupportedMediaType, RangeNotSatisfiable, ExpectationFailed, ImATeapot, MisdirectedRequest, UnprocessableEntity, Locked, FailedDependency, UpgradeRequired, PreconditionRequired, TooManyRequests, RequestHeaderFieldsTooLarge, UnavailableForLegalReasons, InternalServerError, NotImplemented, BadGateway, ServiceUnavailable, GatewayTimeout, HttpVersionNotSupported, VariantAlsoNegotiates, InsufficientStorage, LoopDetected, NotExtended, NetworkAuthenticationRequired, Unregistered(u16) }
#[derive(Copy, Clone, PartialEq, Eq, Structural)]
pub enum StatusClass { Informational, Success, Redirection, ClientError, ServerError, NoClass }
impl StatusCode {
    pub open spec fn code(self) -> u16 { match self { StatusCode::Continue => 100, StatusCode::SwitchingProtocols => 101, StatusCode::Processing => 102, StatusCode::Ok => 200, StatusCode::Created => 201, StatusCode::Accepted => 202, StatusCode::NonAuthoritativeInformation => 203, StatusCode::NoContent => 204, StatusCode::ResetContent => 205, StatusCode::PartialContent => 206, StatusCode::MultiStatus => 207, StatusCode::AlreadyReported => 208, StatusCode::ImUsed => 226, StatusCode::MultipleChoices => 300, StatusCode::MovedPermanently => 301, StatusCode::Found => 302, StatusCode::SeeOther => 303, StatusCode::NotModified => 304, StatusCode::UseProxy => 305, StatusCode::TemporaryRedirect => 307, StatusCode::PermanentRedirect => 308, StatusCode::BadRequest => 400, StatusCode::Unauthorized => 401, StatusCode::PaymentRequired => 402, StatusCode::Forbidden => 403, StatusCode::NotFound => 404, StatusCode::MethodNotAllowed => 405, StatusCode::NotAcceptable => 406, StatusCode::ProxyAuthenticationRequired => 407, StatusCode::RequestTimeout => 408, StatusCode::Conflict => 409, StatusCode::Gone => 410, StatusCode::LengthRequired => 411, StatusCode::PreconditionFailed => 412, StatusCode::PayloadTooLarge => 413, StatusCode::UriTooLong => 414, StatusCode::UnsupportedMediaType => 415, StatusCode::RangeNotSatisfiable => 416, StatusCode::ExpectationFailed => 417, StatusCode::ImATeapot => 418, StatusCode::MisdirectedRequest => 421, StatusCode::UnprocessableEntity => 422, StatusCode::Locked => 423, StatusCode::FailedDependency => 424, StatusCode::UpgradeRequired => 426, StatusCode::PreconditionRequired => 428, StatusCode::TooManyRequests => 429, StatusCode::RequestHeaderFieldsTooLarge => 431, StatusCode::UnavailableForLegalReasons => 451, StatusCode::InternalServerError => 500, StatusCode::NotImplemented => 501, StatusCode::BadGateway => 502, StatusCode::ServiceUnavailable => 503, StatusCode::GatewayTimeout => 504, StatusCode::HttpVersionNotSupported => 505, StatusCode::VariantAlsoNegotiates => 506, StatusCode::InsufficientStorage => 507, StatusCode::LoopDetected => 508, StatusCode::NotExtended => 510, StatusCode::NetworkAuthenticationRequired => 511, StatusCode::Unregistered(n) => n } }
    pub open spec fn of(n: u16) -> StatusCode { if n == 100 { StatusCode::Continue } else if n == 101 { StatusCode::SwitchingProtocols } else if n == 102 { StatusCode::Processing } else if n == 200 { StatusCode::Ok } else if n == 201 { StatusCode::Created } else if n == 202 { StatusCode::Accepted } else if n == 203 { StatusCode::NonAuthoritativeInformation } else if n == 204 { StatusCode::NoContent } else if n == 205 { StatusCode::ResetContent } else if n == 206 { StatusCode::PartialContent } else if n == 207 { StatusCode::MultiStatus } else if n == 208 { StatusCode::AlreadyReported } else if n == 226 { StatusCode::ImUsed } else if n == 300 { StatusCode::MultipleChoices } else if n == 301 { StatusCode::MovedPermanently } else if n == 302 { StatusCode::Found } else if n == 303 { StatusCode::SeeOther } else if n == 304 { StatusCode::NotModified } else if n == 305 { StatusCode::UseProxy } else if n == 307 { StatusCode::TemporaryRedirect } else if n == 308 { StatusCode::PermanentRedirect } else if n == 400 { StatusCode::BadRequest } else if n == 401 { StatusCode::Unauthorized } else if n == 402 { StatusCode::PaymentRequired } else if n == 403 { StatusCode::Forbidden } else if n == 404 { StatusCode::NotFound } else if n == 405 { StatusCode::MethodNotAllowed } else if n == 406 { StatusCode::NotAcceptable } else if n == 407 { StatusCode::ProxyAuthenticationRequired } else if n == 408 { StatusCode::RequestTimeout } else if n == 409 { StatusCode::Conflict } else if n == 410 { StatusCode::Gone } else if n == 411 { StatusCode::LengthRequired } else if n == 412 { StatusCode::PreconditionFailed } else if n == 413 { StatusCode::PayloadTooLarge } else if n == 414 { StatusCode::UriTooLong } else if n == 415 { StatusCode::UnsupportedMediaType } else if n == 416 { StatusCode::RangeNotSatisfiable } else if n == 417 { StatusCode::ExpectationFailed } else if n == 418 { StatusCode::ImATeapot } else if n == 421 { StatusCode::MisdirectedRequest } else if n == 422 { StatusCode::UnprocessableEntity } else if n == 423 { StatusCode::Locked } else if n == 424 { StatusCode::FailedDependency } else if n == 426 { StatusCode::UpgradeRequired } else if n == 428 { StatusCode::PreconditionRequired } else if n == 429 { StatusCode::TooManyRequests } else if n == 431 { StatusCode::RequestHeaderFieldsTooLarge } else if n == 451 { StatusCode::UnavailableForLegalReasons } else if n == 500 { StatusCode::InternalServerError } else if n == 501 { StatusCode::NotImplemented } else if n == 502 { StatusCode::BadGateway } else if n == 503 { StatusCode::ServiceUnavailable } else if n == 504 { StatusCode::GatewayTimeout } else if n == 505 { StatusCode::HttpVersionNotSupported } else if n == 506 { StatusCode::VariantAlsoNegotiates } else if n == 507 { StatusCode::InsufficientStorage } else if n == 508 { StatusCode::LoopDetected } else if n == 510 { StatusCode::NotExtended } else if n == 511 { StatusCode::NetworkAuthenticationRequired } else { StatusCode::Unregistered(n) } }
    pub open spec fn class_v(self) -> StatusClass { let n = self.code(); if 100 <= n < 200 { StatusClass::Informational } else if 200 <= n < 300 { StatusClass::Success } else if 300 <= n < 400 { StatusClass::Redirection } else if 400 <= n < 500 { StatusClass::ClientError } else if 500 <= n < 600 { StatusClass::ServerError } else { StatusClass::NoClass } }
    /// hyper
    #[verifier::external_body] pub fn to_u16(&self) -> (r: u16) ensures r == self.code() { unimplemented!() }
    /// hyper
    #[verifier::external_body] pub fn from_u16(n: u16) -> (r: StatusCode) ensures r == StatusCode::of(n), r.code() == n { unimplemented!() }
    /// hyper
    #[verifier::external_body] pub fn class(&self) -> (r: StatusClass) ensures r == self.class_v() { unimplemented!() }
    /// hyper
    #[verifier::external_body] pub fn is_informational(&self) -> (r: bool) ensures r == (self.class_v() == StatusClass::Informational) { unimplemented!() }
    /// hyper
    #[verifier::external_body] pub fn is_success(&self) -> (r: bool) ensures r == (self.class_v() == StatusClass::Success) { unimplemented!() }
    /// hyper
    #[verifier::external_body] pub fn is_redirection(&self) -> (r: bool) ensures r == (self.class_v() == StatusClass::Redirection) { unimplemented!() }
    /// hyper
    #[verifier::external_body] pub fn is_client_error(&self) -> (r: bool) ensures r == (self.class_v() == StatusClass::ClientError) { unimplemented!() }
    /// hyper
    #[verifier::external_body] pub fn is_server_error(&self) -> (r: bool) ensures r == (self.class_v() == StatusClass::ServerError) { unimplemented!() }
    /// hyper
    #[verifier::external_body] pub fn is_strange_status(&self) -> (r: bool) ensures r == (self.class_v() == StatusClass::NoClass) { unimplemented!() }
    /// hyper: ordered by their numbers
    #[verifier::external_body] pub fn vx_lt(&self, o: &StatusCode) -> (r: bool) ensures r == (self.code() < o.code()) { unimplemented!() }
}
/// The name of a method that hyper has no variant for.
#[verifier::external_body] pub struct MethodName { x: u8 }
impl View for MethodName { type V = Seq<u8>; uninterp spec fn view(&self) -> Seq<u8>; }
/// hyper::method::Method
pub enum Method { Options, Get, Post, Put, Delete, Head, Trace, Connect, Patch, Extension(MethodName) }
pub enum MethodV { Options, Get, Post, Put, Delete, Head, Trace, Connect, Patch, Extension(Seq<u8>) }
impl View for Method {
    type V = MethodV;
    open spec fn view(&self) -> MethodV { match *self { Method::Options => MethodV::Options, Method::Get => MethodV::Get, Method::Post => MethodV::Post, Method::Put => MethodV::Put, Method::Delete => MethodV::Delete, Method::Head => MethodV::Head, Method::Trace => MethodV::Trace, Method::Connect => MethodV::Connect, Method::Patch => MethodV::Patch, Method::Extension(n) => MethodV::Extension(n@) } }
}
impl PartialEqSpecImpl for Method {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, other: &Method) -> bool { self@ == other@ }
}
/// hyper: derived
impl PartialEq for Method {
    #[verifier::external_body]
    fn eq(&self, o: &Method) -> (r: bool) ensures r == (self@ == o@) { unimplemented!() }
}
impl Method {
    /// hyper: derived
    #[verifier::external_body] pub fn clone(&self) -> (r: Method) ensures r@ == self@, r == *self { unimplemented!() }
    pub open spec fn safe_v(self) -> bool { self is Get || self is Head || self is Options || self is Trace }
    /// hyper
    #[verifier::external_body] pub fn safe(&self) -> (r: bool) ensures r == self.safe_v() { unimplemented!() }
    /// hyper
    #[verifier::external_body] pub fn idempotent(&self) -> (r: bool) ensures r == (self.safe_v() || self is Put || self is Delete) { unimplemented!() }
}
