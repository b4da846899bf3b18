// ---- lib/answer.vrs: what is sent (hyper's responses), and the data that is
/// data, as filters and connections see it
pub enum DV { Bytes(Seq<u8>), Text(Seq<u8>) }
impl DV { pub open spec fn b(self) -> Seq<u8> { match self { DV::Bytes(b) => b, DV::Text(b) => b } } }
#[verifier::external_body] pub struct String { s: std::string::String }
impl Bytes for String { uninterp spec fn bytes(&self) -> Seq<u8>; }
#[verifier::external_body] pub struct IoError { e: () }
/// std::io::ErrorKind
#[derive(Copy, Clone, PartialEq, Eq, Structural)]
pub enum ErrorKind { NotFound, BrokenPipe, Other, WriteZero, Interrupted, Unknown(u8) }
impl IoError {
    pub uninterp spec fn of(&self) -> ErrorKind;
    /// std: io::Error::new
    #[verifier::external_body] pub fn new<E>(k: ErrorKind, e: E) -> (r: IoError) ensures r.of() == k { unimplemented!() }
    /// std: io::Error::kind
    #[verifier::external_body] pub fn kind(&self) -> (r: ErrorKind) ensures r == self.of() { unimplemented!() }
}
//@gtok io :: Error :: new => IoError :: new
//@gtok io :: ErrorKind => ErrorKind
/// anymap::AnyMap; in contracts: its contents, and whatever else the filters remember
#[verifier::external_body] pub struct AnyMap { x: u8 }
impl AnyMap {
    pub uninterp spec fn empty() -> AnyMap;
    /// anymap
    #[verifier::external_body] pub fn new() -> (r: AnyMap) ensures r == Self::empty() { unimplemented!() }
}
#[verifier::external_body] pub struct Global { x: u8 }
