use vstd::prelude::*;
verus! {
/// std: IP addresses are opaque values
#[verifier::external_body] #[derive(Clone, Copy)] pub struct Ipv4Addr { x: u32 }
/// std: IP addresses are opaque values
#[verifier::external_body] #[derive(Clone, Copy)] pub struct Ipv6Addr { x: u128 }
#[verifier::external_body] pub struct AddrParseError { x: () }
pub struct V4 { pub ip: Ipv4Addr, pub port: u16 }
pub struct V6 { pub ip: Ipv6Addr, pub port: u16, pub flowinfo: u32, pub scope_id: u32 }
#[verifier::external_body] #[derive(Clone, Copy)] pub struct SocketAddrV4 { x: () }
impl View for SocketAddrV4 { type V = V4; uninterp spec fn view(&self) -> V4; }
#[verifier::external_body] #[derive(Clone, Copy)] pub struct SocketAddrV6 { x: () }
impl View for SocketAddrV6 { type V = V6; uninterp spec fn view(&self) -> V6; }
pub uninterp spec fn v4(a: u8, b: u8, c: u8, d: u8) -> Ipv4Addr;
impl Ipv4Addr {
    /// std: Ipv4Addr::new
    #[verifier::external_body] pub fn new(a: u8, b: u8, c: u8, d: u8) -> (r: Ipv4Addr) ensures r == v4(a, b, c, d) { unimplemented!() }
}
impl SocketAddrV4 {
    /// std: constructor and accessors
    #[verifier::external_body] pub fn new(ip: Ipv4Addr, port: u16) -> (r: SocketAddrV4) ensures r@ == (V4 { ip, port }) { unimplemented!() }
    #[verifier::external_body] pub fn ip(&self) -> (r: &Ipv4Addr) ensures *r == self@.ip { unimplemented!() }
    #[verifier::external_body] pub fn port(&self) -> (r: u16) ensures r == self@.port { unimplemented!() }
    #[verifier::external_body] pub fn set_port(&mut self, p: u16) ensures final(self)@ == (V4 { port: p, ..old(self)@ }) { unimplemented!() }
}
impl SocketAddrV6 {
    /// std: constructor and accessors
    #[verifier::external_body] pub fn new(ip: Ipv6Addr, port: u16, flowinfo: u32, scope_id: u32) -> (r: SocketAddrV6) ensures r@ == (V6 { ip, port, flowinfo, scope_id }) { unimplemented!() }
    #[verifier::external_body] pub fn ip(&self) -> (r: &Ipv6Addr) ensures *r == self@.ip { unimplemented!() }
    #[verifier::external_body] pub fn port(&self) -> (r: u16) ensures r == self@.port { unimplemented!() }
    #[verifier::external_body] pub fn flowinfo(&self) -> (r: u32) ensures r == self@.flowinfo { unimplemented!() }
    #[verifier::external_body] pub fn scope_id(&self) -> (r: u32) ensures r == self@.scope_id { unimplemented!() }
    #[verifier::external_body] pub fn set_port(&mut self, p: u16) ensures final(self)@ == (V6 { port: p, ..old(self)@ }) { unimplemented!() }
}
pub enum AddrV { V4(V4), V6(V6) }
pub enum SocketAddr { V4(SocketAddrV4), V6(SocketAddrV6) }
impl View for SocketAddr { type V = AddrV; open spec fn view(&self) -> AddrV { match self { SocketAddr::V4(a) => AddrV::V4(a@), SocketAddr::V6(a) => AddrV::V6(a@) } } }
impl SocketAddr {
    pub uninterp spec fn parsed(s: &str) -> Result<SocketAddr, AddrParseError>;
    /// std: SocketAddr::set_port
    #[verifier::external_body] pub fn set_port(&mut self, p: u16)
        ensures final(self)@ == (match old(self)@ { AddrV::V4(a) => AddrV::V4(V4 { port: p, ..a }), AddrV::V6(a) => AddrV::V6(V6 { port: p, ..a }) }) { unimplemented!() }
}
/// std: str::parse::<SocketAddr>
#[verifier::external_body] pub fn vx_parse(s: &str) -> (r: Result<SocketAddr, AddrParseError>) ensures r == SocketAddr::parsed(s) { unimplemented!() }
//@gmethod parse => vx_parse
//@gtok s . vx_parse ( ) => vx_parse ( s )
//@gtok Self :: Err => AddrParseError
//@item src/server/config.rs Host
//@attr #[derive(Clone, Copy)]
//@expect pub struct Host(pub SocketAddr);
//@end
impl Clone for SocketAddr { #[verifier::external_body] fn clone(&self) -> (r: SocketAddr) ensures r == *self { unimplemented!() } }
impl Copy for SocketAddr {}
pub open spec fn with_port(a: AddrV, p: u16) -> AddrV { match a { AddrV::V4(a) => AddrV::V4(V4 { port: p, ..a }), AddrV::V6(a) => AddrV::V6(V6 { port: p, ..a }) } }
/// std: From<T> for T (of the error in try!)
pub fn vx_from<E>(e: E) -> (r: E) ensures r == e { e }
pub trait VFrom<T>: Sized { spec fn from_ok(v: T, r: Self) -> bool; fn vx_from(v: T) -> (r: Self) ensures Self::from_ok(v, r); }
impl Host {
//@fn src/server/config.rs Host - any_v4
//@sig pub fn any_v4(port: u16) -> (r: Host)
//@spec
    ensures r.0@ == AddrV::V4(V4 { ip: v4(0, 0, 0, 0), port }),
//@end
//@fn src/server/config.rs Host - port
//@sig pub fn port(&mut self, port: u16)
//@spec
    ensures final(self).0@ == with_port(old(self).0@, port),
//@end
//@fn src/server/config.rs Host FromStr from_str
//@sig fn from_str(s: &str) -> (r: Result<Host, AddrParseError>)
//@result map
//@spec
    ensures match (r, SocketAddr::parsed(s)) { (Ok(h), Ok(a)) => h.0 == a, (Err(e), Err(f)) => e == f, _ => false },
//@end
}
impl VFrom<Host> for SocketAddr {
    open spec fn from_ok(v: Host, r: SocketAddr) -> bool { r == v.0 }
//@fn src/server/config.rs SocketAddr From<Host> from
//@sig fn vx_from(host: Host) -> (r: SocketAddr)
//@end
}
impl VFrom<u16> for Host {
    open spec fn from_ok(v: u16, r: Host) -> bool { r.0@ == AddrV::V4(V4 { ip: v4(0, 0, 0, 0), port: v }) }
//@fn src/server/config.rs Host From<u16> from
//@sig fn vx_from(port: u16) -> (r: Host)
//@end
}
impl VFrom<SocketAddr> for Host {
    open spec fn from_ok(v: SocketAddr, r: Host) -> bool { r.0@ == v@ }
//@fn src/server/config.rs Host From<SocketAddr> from
//@sig fn vx_from(addr: SocketAddr) -> (r: Host)
//@end
}
impl VFrom<SocketAddrV4> for Host {
    open spec fn from_ok(v: SocketAddrV4, r: Host) -> bool { r.0@ == AddrV::V4(v@) }
//@fn src/server/config.rs Host From<SocketAddrV4> from
//@sig fn vx_from(addr: SocketAddrV4) -> (r: Host)
//@end
}
impl VFrom<SocketAddrV6> for Host {
    open spec fn from_ok(v: SocketAddrV6, r: Host) -> bool { r.0@ == AddrV::V6(v@) }
//@fn src/server/config.rs Host From<SocketAddrV6> from
//@sig fn vx_from(addr: SocketAddrV6) -> (r: Host)
//@end
}
impl VFrom<(Ipv4Addr, u16)> for Host {
    open spec fn from_ok(v: (Ipv4Addr, u16), r: Host) -> bool { r.0@ == AddrV::V4(V4 { ip: v.0, port: v.1 }) }
//@fn src/server/config.rs Host From<(Ipv4Addr,u16)> from
//@sig fn vx_from(arg: (Ipv4Addr, u16)) -> (r: Host)
//@at entry
    let (ip, port) = arg;
//@end
}
/// P18: changing the port and changing it back gives the same address.
proof fn theorem_port(a: AddrV, p: u16, q: u16)
    ensures with_port(with_port(a, p), q) == with_port(a, q),
        with_port(a, match a { AddrV::V4(x) => x.port, AddrV::V6(x) => x.port }) == a,
{}
}
fn main() {}
