// ---- lib/maybe.vrs: MaybeUtf8 as used by other units (its own behaviour is verified in unit maybe_utf8)
#[verifier::external_body] pub struct MaybeUtf8Owned { x: Vec<u8> }
impl Bytes for MaybeUtf8Owned { uninterp spec fn bytes(&self) -> Seq<u8>; }
impl VxKey for MaybeUtf8Owned { type KV = Seq<u8>; open spec fn kv(&self) -> Seq<u8> { self.bytes() } }
#[verifier::external_body] pub struct MaybeUtf8Slice<'a> { x: &'a [u8] }
impl<'a> Bytes for MaybeUtf8Slice<'a> { uninterp spec fn bytes(&self) -> Seq<u8>; }
impl MaybeUtf8Owned {
    #[verifier::external_body]
    pub fn as_slice(&self) -> (r: MaybeUtf8Slice<'_>) ensures r.bytes() == self.bytes() { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self.bytes().len() == 0) { unimplemented!() }
    #[verifier::external_body]
    pub fn push_char(&mut self, c: char) requires (c as u32) < 128 ensures final(self).bytes() == old(self).bytes().push(c as u8) { unimplemented!() }
    #[verifier::external_body]
    pub fn push_bytes(&mut self, b: &[u8]) ensures final(self).bytes() == old(self).bytes() + b@ { unimplemented!() }
    #[verifier::external_body]
    pub fn clone(&self) -> (r: MaybeUtf8Owned) ensures r.bytes() == self.bytes() { unimplemented!() }
}
impl PartialEqSpecImpl for MaybeUtf8Owned { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &MaybeUtf8Owned) -> bool { self.bytes() == o.bytes() } }
impl PartialEq for MaybeUtf8Owned { #[verifier::external_body] fn eq(&self, o: &MaybeUtf8Owned) -> (r: bool) ensures r == (self.bytes() == o.bytes()) { unimplemented!() } }
impl<'a> MaybeUtf8Slice<'a> {
    #[verifier::external_body]
    pub fn new() -> (r: MaybeUtf8Slice<'a>) ensures r.bytes() == Seq::<u8>::empty() { unimplemented!() }
}
/// `bytes.to_owned().into()`
#[verifier::external_body]
pub fn vx_owned(b: &[u8]) -> (r: MaybeUtf8Owned) ensures r.bytes() == b@ { unimplemented!() }
