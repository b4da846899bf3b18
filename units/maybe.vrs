use vstd::prelude::*;
use std::cmp::Ordering;
verus! {
//@include lib/utf8.vrs
pub trait Bytes { spec fn bs(&self) -> Seq<u8>; }
impl Bytes for [u8] { open spec fn bs(&self) -> Seq<u8> { self@ } }
impl Bytes for Vec<u8> { open spec fn bs(&self) -> Seq<u8> { self@ } }
impl Bytes for str { uninterp spec fn bs(&self) -> Seq<u8>; }
impl<'a, T: Bytes + ?Sized> Bytes for &'a T { open spec fn bs(&self) -> Seq<u8> { (**self).bs() } }
#[verifier::external_body] pub struct String { s: std::string::String }
impl Bytes for String { uninterp spec fn bs(&self) -> Seq<u8>; }
/// std: a str holds well-formed UTF-8
#[verifier::external_body] pub broadcast proof fn axiom_str(s: &str) ensures utf8_ok(#[trigger] s.bs()) {}
/// std: a String holds well-formed UTF-8
#[verifier::external_body] pub broadcast proof fn axiom_string(s: &String) ensures utf8_ok(#[trigger] s.bs()) {}
/// ""
#[verifier::external_body] pub broadcast proof fn axiom_empty(s: &str) ensures s@.len() == 0 ==> (#[trigger] s.bs()).len() == 0 {}
pub broadcast group std_str { axiom_str, axiom_string, axiom_empty }

/// std::convert::AsRef, of types which are byte strings
pub trait AsRef<T: Bytes + ?Sized>: Bytes { fn vx_ref(&self) -> (r: &T) ensures r.bs() == self.bs(); }
/// std: as_ref
impl AsRef<[u8]> for [u8] { #[verifier::external_body] fn vx_ref(&self) -> (r: &[u8]) { unimplemented!() } }
/// std: as_ref
impl AsRef<[u8]> for Vec<u8> { #[verifier::external_body] fn vx_ref(&self) -> (r: &[u8]) { unimplemented!() } }
/// std: as_ref
impl AsRef<[u8]> for str { #[verifier::external_body] fn vx_ref(&self) -> (r: &[u8]) { unimplemented!() } }
/// std: as_ref
impl AsRef<[u8]> for String { #[verifier::external_body] fn vx_ref(&self) -> (r: &[u8]) { unimplemented!() } }
/// std: as_ref
impl AsRef<str> for String { #[verifier::external_body] fn vx_ref(&self) -> (r: &str) { unimplemented!() } }
/// std: as_ref
impl AsRef<str> for str { #[verifier::external_body] fn vx_ref(&self) -> (r: &str) { unimplemented!() } }
/// std: as_ref
impl<'a, T: AsRef<U> + ?Sized, U: Bytes + ?Sized> AsRef<U> for &'a T { #[verifier::external_body] fn vx_ref(&self) -> (r: &U) { unimplemented!() } }

/// std::borrow::Cow<str>
pub enum Cow<'a> { Borrowed(&'a str), Owned(String) }
impl<'a> Cow<'a> {
    /// std: into_owned
    #[verifier::external_body] pub fn into_owned(self) -> (r: String) ensures r.bs() == self.bs() { unimplemented!() }
}
impl<'a> Bytes for Cow<'a> { open spec fn bs(&self) -> Seq<u8> { match self { Cow::Borrowed(s) => s.bs(), Cow::Owned(s) => s.bs() } } }
/// std: as_ref
impl<'a> AsRef<str> for Cow<'a> { #[verifier::external_body] fn vx_ref(&self) -> (r: &str) { unimplemented!() } }
/// String::from_utf8_lossy
pub uninterp spec fn lossy(b: Seq<u8>) -> Seq<u8>;
/// std: from_utf8_lossy leaves valid text as it is
#[verifier::external_body] pub broadcast proof fn axiom_lossy(b: Seq<u8>) ensures utf8_ok(b) ==> #[trigger] lossy(b) == b {}

#[verifier::external_body] pub struct Utf8Error { e: () }
#[verifier::external_body] pub struct FromUtf8Error { e: () }
impl FromUtf8Error {
    pub uninterp spec fn bs(&self) -> Seq<u8>;
    /// std: into_bytes
    #[verifier::external_body] pub fn into_bytes(self) -> (r: Vec<u8>) ensures r@ == self.bs() { unimplemented!() }
}
impl String {
    /// std: push
    #[verifier::external_body] pub fn push(&mut self, c: char) ensures final(self).bs() == old(self).bs() + encode(c) { unimplemented!() }
    /// std: push_str
    #[verifier::external_body] pub fn push_str(&mut self, s: &str) ensures final(self).bs() == old(self).bs() + s.bs() { unimplemented!() }
    /// std: from_utf8 accepts exactly well-formed UTF-8
    #[verifier::external_body] pub fn from_utf8(v: Vec<u8>) -> (r: Result<String, FromUtf8Error>)
        ensures match r { Ok(s) => utf8_ok(v@) && s.bs() == v@, Err(e) => !utf8_ok(v@) && e.bs() == v@ } { unimplemented!() }
    /// std: from_utf8_lossy borrows exactly well-formed UTF-8
    #[verifier::external_body] pub fn from_utf8_lossy<'a>(v: &'a [u8]) -> (r: Cow<'a>)
        ensures r.bs() == lossy(v@), (r is Borrowed) == utf8_ok(v@) { unimplemented!() }
    /// std: its safety condition is an obligation here
    #[verifier::external_body] pub unsafe fn from_utf8_unchecked(v: Vec<u8>) -> (r: String) requires utf8_ok(v@) ensures r.bs() == v@ { unimplemented!() }
}
/// std::str::from_utf8 accepts exactly well-formed UTF-8
#[verifier::external_body] pub fn vx_from_utf8<'a>(v: &'a [u8]) -> (r: Result<&'a str, Utf8Error>)
    ensures match r { Ok(s) => utf8_ok(v@) && s.bs() == v@, Err(_) => !utf8_ok(v@) } { unimplemented!() }
/// A Vec<u8> seen as a String (transmute): it may hold anything.
#[verifier::external_body] pub struct RawString { v: Vec<u8> }
impl RawString {
    pub uninterp spec fn bs(&self) -> Seq<u8>;
    /// String::push on any bytes: appends the encoded char (not guaranteed by std for bytes that aren't UTF-8, see DESIGN.md)
    #[verifier::external_body] pub fn push(&mut self, c: char) ensures final(self).bs() == old(self).bs() + encode(c) { unimplemented!() }
}
/// transmute(&mut Vec<u8>) to &mut String: layout equality isn't guaranteed by std, see DESIGN.md
#[verifier::external_body] pub fn vx_transmute(v: &mut Vec<u8>) -> (r: &mut RawString) ensures r.bs() == old(v)@, final(r).bs() == final(v)@ { unimplemented!() }
/// str::as_bytes
#[verifier::external_body] pub fn vx_as_bytes(s: &str) -> (r: &[u8]) ensures r@ == s.bs() { unimplemented!() }

/// Conversions: From and Into. Each says what becomes of the bytes.
pub trait VInto<T>: Sized { spec fn into_ok(&self, r: &T) -> bool; fn vx_into(self) -> (r: T) ensures self.into_ok(&r); }
/// Conversions which keep the bytes.
pub trait Keeps<T: Bytes>: Bytes + VInto<T> { proof fn keeps(&self, r: &T) ensures self.into_ok(r) ==> r.bs() == self.bs(); }
/// std: String from String
impl VInto<String> for String { open spec fn into_ok(&self, r: &String) -> bool { r.bs() == self.bs() } #[verifier::external_body] fn vx_into(self) -> (r: String) { unimplemented!() } }
impl Keeps<String> for String { proof fn keeps(&self, r: &String) {} }
/// std: String from &str
impl<'a> VInto<String> for &'a str { open spec fn into_ok(&self, r: &String) -> bool { r.bs() == self.bs() } #[verifier::external_body] fn vx_into(self) -> (r: String) { unimplemented!() } }
impl<'a> Keeps<String> for &'a str { proof fn keeps(&self, r: &String) {} }
/// std: &str from &str
impl<'a> VInto<&'a str> for &'a str { open spec fn into_ok(&self, r: &&'a str) -> bool { r.bs() == self.bs() } #[verifier::external_body] fn vx_into(self) -> (r: &'a str) { unimplemented!() } }
impl<'a> Keeps<&'a str> for &'a str { proof fn keeps(&self, r: &&'a str) {} }
/// std: Vec<u8> from String
impl VInto<Vec<u8>> for String { open spec fn into_ok(&self, r: &Vec<u8>) -> bool { r.bs() == self.bs() } #[verifier::external_body] fn vx_into(self) -> (r: Vec<u8>) { unimplemented!() } }
impl Keeps<Vec<u8>> for String { proof fn keeps(&self, r: &Vec<u8>) {} }
/// std: Vec<u8> from &str
impl<'a> VInto<Vec<u8>> for &'a str { open spec fn into_ok(&self, r: &Vec<u8>) -> bool { r.bs() == self.bs() } #[verifier::external_body] fn vx_into(self) -> (r: Vec<u8>) { unimplemented!() } }
impl<'a> Keeps<Vec<u8>> for &'a str { proof fn keeps(&self, r: &Vec<u8>) {} }
/// std: Vec<u8> from Vec<u8>
impl VInto<Vec<u8>> for Vec<u8> { open spec fn into_ok(&self, r: &Vec<u8>) -> bool { r.bs() == self.bs() } #[verifier::external_body] fn vx_into(self) -> (r: Vec<u8>) { unimplemented!() } }
impl Keeps<Vec<u8>> for Vec<u8> { proof fn keeps(&self, r: &Vec<u8>) {} }
/// std: Vec<u8> from &[u8]
impl<'a> VInto<Vec<u8>> for &'a [u8] { open spec fn into_ok(&self, r: &Vec<u8>) -> bool { r.bs() == self.bs() } #[verifier::external_body] fn vx_into(self) -> (r: Vec<u8>) { unimplemented!() } }
impl<'a> Keeps<Vec<u8>> for &'a [u8] { proof fn keeps(&self, r: &Vec<u8>) {} }
/// std: Cow<str> from &str
impl<'a> VInto<Cow<'a>> for &'a str { open spec fn into_ok(&self, r: &Cow<'a>) -> bool { r.bs() == self.bs() } #[verifier::external_body] fn vx_into(self) -> (r: Cow<'a>) { unimplemented!() } }

//@gmethod into => vx_into
//@gmethod as_ref => vx_ref
//@gmethod eq => vx_eq
//@gmethod partial_cmp => vx_partial_cmp
//@gmethod cmp => vx_cmp
//@gmethod hash => vx_hash
//@gmethod extend_from_slice => vx_append
//@gmethod reverse => vx_reversed
//@gtok :: std :: mem :: replace => vx_replace
//@gtok mem :: replace => vx_replace
/// std::mem::replace
#[verifier::external_body] pub fn vx_replace<T>(dest: &mut T, src: T) -> (r: T) ensures *final(dest) == src, r == *old(dest) { unimplemented!() }
/// std: Vec::extend_from_slice, of bytes
pub trait VxAppend { fn vx_append(&mut self, b: &[u8]); }
impl VxAppend for Vec<u8> { #[verifier::external_body] fn vx_append(&mut self, b: &[u8]) ensures final(self)@ == old(self)@ + b@ { unimplemented!() } }
//@gtok :: std :: str :: from_utf8 => vx_from_utf8
//@gtok string . as_bytes ( ) => vx_as_bytes ( string )
//@gtok :: std :: mem :: transmute => vx_transmute
//@gtok : & mut String => 
//@gtok :: std :: mem :: swap => std :: mem :: swap
// ---------------------------------------------------------------- extension trait on Vec<u8> (utils.rs)
/// std: io::Write for Vec<u8> takes everything; Vec::extend_from_slice
#[verifier::external_body] pub fn vx_extend(v: &mut Vec<u8>, b: &[u8]) ensures final(v)@ == old(v)@ + b@ { unimplemented!() }
pub trait BytesExt { spec fn ext(&self) -> Seq<u8>; fn push_bytes(&mut self, bytes: &[u8]) ensures final(self).ext() == old(self).ext() + bytes@; }
impl BytesExt for Vec<u8> {
    open spec fn ext(&self) -> Seq<u8> { self@ }
//@fn src/utils.rs Vec<u8> BytesExt push_bytes
//@sig fn push_bytes(&mut self, bytes: &[u8])
//@tok self . write_all ( bytes ) . unwrap ( ) => vx_extend ( self , bytes )
//@tok self . vx_append ( bytes ) => vx_extend ( self , bytes )
//@tok self . extend ( bytes ) => vx_extend ( self , bytes )
//@end
}

// ---------------------------------------------------------------- MaybeUtf8
//@item src/context/maybe_utf8.rs MaybeUtf8
//@end
pub type MaybeUtf8Owned = MaybeUtf8<String, Vec<u8>>;
impl<S: Bytes, V: Bytes> MaybeUtf8<S, V> {
    /// The tag tells the truth about the bytes.
    pub open spec fn wf(&self) -> bool { (self is Utf8) == utf8_ok(self.bs()) }
}
impl<S: Bytes, V: Bytes> Bytes for MaybeUtf8<S, V> {
    open spec fn bs(&self) -> Seq<u8> { match self { MaybeUtf8::Utf8(s) => s.bs(), MaybeUtf8::NotUtf8(v) => v.bs() } }
}
impl<S: Bytes, V: Bytes> MaybeUtf8<S, V> {
//@fn src/context/maybe_utf8.rs MaybeUtf8 - new
//@sig pub fn new() -> (r: MaybeUtf8<S, V>) where &'static str: Keeps<S>
//@spec
    ensures r.bs() == Seq::<u8>::empty(), r is Utf8, r.wf(),
//@at entry
    broadcast use std_str;
    proof { reveal_strlit(""); assert(forall|s: S| ("".into_ok(&s)) ==> s.bs() == "".bs()) by { assert forall|s: S| #[trigger] "".into_ok(&s) implies s.bs() == "".bs() by { "".keeps(&s); } } }
//@at return
    proof { assert(vx_ret.bs() =~= Seq::<u8>::empty()); }
//@end
//@fn src/context/maybe_utf8.rs MaybeUtf8 - as_slice
//@sig pub fn as_slice<Sref: ?Sized + Bytes, Vref: ?Sized + Bytes>(&self) -> (r: MaybeUtf8<&Sref, &Vref>) where S: AsRef<Sref>, V: AsRef<Vref>
//@spec
    ensures r.bs() == self.bs(), r.wf() == self.wf(), (r is Utf8) == (self is Utf8),
//@end
//@fn src/context/maybe_utf8.rs MaybeUtf8 - as_utf8
//@sig pub fn as_utf8(&self) -> (r: Option<&str>) where S: AsRef<str>
//@spec
    requires self.wf(),
    ensures match r { Some(s) => utf8_ok(self.bs()) && s.bs() == self.bs(), None => !utf8_ok(self.bs()) },
//@end
//@fn src/context/maybe_utf8.rs MaybeUtf8 - as_utf8_lossy
//@sig pub fn as_utf8_lossy<'x>(&'x self) -> (r: Cow<'x>) where S: AsRef<str>, V: AsRef<[u8]>
//@spec
    requires self.wf(),
    ensures r.bs() == lossy(self.bs()),
//@at entry
    broadcast use axiom_lossy;
//@end
//@fn src/context/maybe_utf8.rs MaybeUtf8 - as_bytes
//@sig pub fn as_bytes(&self) -> (r: &[u8]) where S: AsRef<[u8]>, V: AsRef<[u8]>
//@spec
    ensures r@ == self.bs(),
//@end
//@fn src/context/maybe_utf8.rs MaybeUtf8 - is_utf8
//@sig pub fn is_utf8(&self) -> (r: bool)
//@spec
    requires self.wf(),
    ensures r == utf8_ok(self.bs()),
//@end
}
impl MaybeUtf8<String, Vec<u8>> {
//@fn src/context/maybe_utf8.rs MaybeUtf8<String,Vec<u8>> - push_char
//@sig pub fn push_char(&mut self, c: char)
//@spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).bs() == old(self).bs() + encode(c),
//@at entry
    proof { lemma_encode(c); let ghost b = self.bs(); if utf8_ok(b) { lemma_concat(b, encode(c)); } else if utf8_ok(b + encode(c)) { lemma_prefix(b, encode(c)); } }
//@end
//@fn src/context/maybe_utf8.rs MaybeUtf8<String,Vec<u8>> - push_byte
//@sig pub fn push_byte(&mut self, byte: u8)
//@spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).bs() == old(self).bs().push(byte),
//@end
//@fn src/context/maybe_utf8.rs MaybeUtf8<String,Vec<u8>> - push_str
//@sig pub fn push_str(&mut self, string: &str)
//@spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).bs() == old(self).bs() + string.bs(),
//@at entry
    broadcast use std_str;
    proof { let ghost b = self.bs(); assert(utf8_ok(string.bs())); if utf8_ok(b) { lemma_concat(b, string.bs()); } else if utf8_ok(b + string.bs()) { lemma_prefix(b, string.bs()); } }
//@end
//@fn src/context/maybe_utf8.rs MaybeUtf8<String,Vec<u8>> - push_bytes
//@sig pub fn push_bytes(&mut self, bytes: &[u8])
//@spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).bs() == old(self).bs() + bytes@,
//@opt drops as_buffer
//@end
//@fn src/context/maybe_utf8.rs MaybeUtf8<String,Vec<u8>> - as_buffer
//@sig pub fn as_buffer<'a>(&'a mut self) -> (r: Buffer<'a>)
//@spec
    ensures r.bytes@ == old(self).bs(), *final(r.source) == *final(self),
//@end
}
impl<V: Bytes> VInto<MaybeUtf8<String, V>> for String {
    open spec fn into_ok(&self, r: &MaybeUtf8<String, V>) -> bool { r.bs() == self.bs() && r.wf() }
//@fn src/context/maybe_utf8.rs MaybeUtf8<String,V> From<String> from
//@sig fn vx_into(self) -> (r: MaybeUtf8<String, V>)
//@tok string => self
//@at entry
    broadcast use std_str;
//@end
}
impl<'a, S: Bytes, V: Bytes> VInto<MaybeUtf8<S, V>> for &'a str where &'a str: Keeps<S> {
    open spec fn into_ok(&self, r: &MaybeUtf8<S, V>) -> bool { r.bs() == self.bs() && r.wf() }
//@fn src/context/maybe_utf8.rs MaybeUtf8<S,V> From<&'astr> from
//@sig fn vx_into(self) -> (r: MaybeUtf8<S, V>)
//@tok string => self
//@at entry
    broadcast use std_str;
    proof { assert forall|s: S| #[trigger] self.into_ok(&s) implies s.bs() == self.bs() by { self.keeps(&s); } assert(utf8_ok(self.bs())); }
//@end
}
impl VInto<MaybeUtf8<String, Vec<u8>>> for Vec<u8> {
    open spec fn into_ok(&self, r: &MaybeUtf8<String, Vec<u8>>) -> bool { r.bs() == self.bs() && r.wf() }
//@fn src/context/maybe_utf8.rs MaybeUtf8<String,Vec<u8>> From<Vec<u8>> from
//@sig fn vx_into(self) -> (r: MaybeUtf8<String, Vec<u8>>)
//@tok from_utf8 ( bytes ) => from_utf8 ( self )
//@end
}
impl<S: Bytes + Keeps<String>, V: Bytes + Keeps<Vec<u8>>> VInto<String> for MaybeUtf8<S, V> {
    open spec fn into_ok(&self, r: &String) -> bool { self.wf() ==> r.bs() == lossy(self.bs()) }
//@fn src/context/maybe_utf8.rs MaybeUtf8<S,V> Into<String> into
//@sig fn vx_into(self) -> (r: String)
//@at entry
    broadcast use axiom_lossy;
    proof {
        match &self { MaybeUtf8::Utf8(s) => { assert forall|r: String| #[trigger] s.into_ok(&r) implies r.bs() == s.bs() by { s.keeps(&r); } }
            MaybeUtf8::NotUtf8(v) => { assert forall|r: Vec<u8>| #[trigger] v.into_ok(&r) implies r.bs() == v.bs() by { v.keeps(&r); } } }
    }
//@end
}
impl<S: Bytes + Keeps<Vec<u8>>, V: Bytes + Keeps<Vec<u8>>> VInto<Vec<u8>> for MaybeUtf8<S, V> {
    open spec fn into_ok(&self, r: &Vec<u8>) -> bool { r.bs() == self.bs() }
//@fn src/context/maybe_utf8.rs MaybeUtf8<S,V> Into<Vec<u8>> into
//@sig fn vx_into(self) -> (r: Vec<u8>)
//@at entry
    proof {
        match &self { MaybeUtf8::Utf8(s) => { assert forall|r: Vec<u8>| #[trigger] s.into_ok(&r) implies r.bs() == s.bs() by { s.keeps(&r); } }
            MaybeUtf8::NotUtf8(v) => { assert forall|r: Vec<u8>| #[trigger] v.into_ok(&r) implies r.bs() == v.bs() by { v.keeps(&r); } } }
    }
//@end
}
impl<S: AsRef<[u8]>, V: AsRef<[u8]>> AsRef<[u8]> for MaybeUtf8<S, V> {
//@fn src/context/maybe_utf8.rs MaybeUtf8<S,V> AsRef<[u8]> as_ref
//@sig fn vx_ref(&self) -> (r: &[u8])
//@end
}
impl<S: AsRef<[u8]>, V: AsRef<[u8]>> MaybeUtf8<S, V> {
//@fn src/context/maybe_utf8.rs MaybeUtf8<S,V> Borrow<[u8]> borrow
//@sig fn borrow(&self) -> (r: &[u8])
//@spec
    ensures r@ == self.bs(),
//@end
//@fn src/context/maybe_utf8.rs MaybeUtf8<S,V> Deref deref
//@sig fn deref(&self) -> (r: &[u8])
//@spec
    ensures r@ == self.bs(),
//@end
}
// ---------------------------------------------------------------- Buffer
pub struct Buffer<'a> { pub bytes: Vec<u8>, pub source: &'a mut MaybeUtf8<String, Vec<u8>> }
impl<'a> Buffer<'a> {
//@fn src/context/maybe_utf8.rs Buffer<'a> - push_bytes
//@sig pub fn push_bytes(&mut self, bytes: &[u8])
//@spec
    ensures final(self).bytes@ == old(self).bytes@ + bytes@, *final(final(self).source) == *final(old(self).source),
//@end
//@fn src/context/maybe_utf8.rs Buffer<'a> - push_char
//@sig pub fn push_char(&mut self, c: char)
//@spec
    ensures final(self).bytes@ == old(self).bytes@ + encode(c), *final(final(self).source) == *final(old(self).source),
//@end
//@fn src/context/maybe_utf8.rs Buffer<'a> Deref deref
//@sig fn deref(&self) -> (r: &Vec<u8>)
//@spec
    ensures *r == self.bytes,
//@end
//@fn src/context/maybe_utf8.rs Buffer<'a> DerefMut deref_mut
//@sig fn deref_mut(&mut self) -> (r: &mut Vec<u8>)
//@spec
    ensures *r == old(self).bytes, *final(r) == final(self).bytes, *final(final(self).source) == *final(old(self).source),
//@end
//@fn src/context/maybe_utf8.rs Buffer<'a> Drop drop
//@sig fn drop(&mut self)
//@spec
    ensures final(self).source.bs() == old(self).bytes@, final(self).source.wf(), *final(final(self).source) == *final(old(self).source),
//@end
}
// ---------------------------------------------------------------- comparisons (P11)
pub trait PartialEqual<B: Bytes + ?Sized>: Bytes { fn vx_eq(&self, other: &B) -> (r: bool) ensures r == (self.bs() == other.bs()); }
/// std: slices of bytes are compared element by element
impl PartialEqual<[u8]> for [u8] { #[verifier::external_body] fn vx_eq(&self, other: &[u8]) -> (r: bool) { unimplemented!() } }
pub trait PartialOrder<B: Bytes + ?Sized>: Bytes { fn vx_partial_cmp(&self, other: &B) -> (r: Option<Ordering>) ensures r == Some(lex_cmp(self.bs(), other.bs())); }
/// std: slices of bytes are compared lexicographically
impl PartialOrder<[u8]> for [u8] { #[verifier::external_body] fn vx_partial_cmp(&self, other: &[u8]) -> (r: Option<Ordering>) { unimplemented!() } }
/// Ordering::reverse
#[verifier::external_body] pub fn vx_reverse(o: Ordering) -> (r: Ordering) ensures r == rev(o) { unimplemented!() }
/// std: Ordering::reverse
pub trait VxReversed { spec fn rev_spec(&self) -> Ordering; fn vx_reversed(self) -> (r: Ordering) ensures r == self.rev_spec(); }
impl VxReversed for Ordering { open spec fn rev_spec(&self) -> Ordering { rev(*self) } #[verifier::external_body] fn vx_reversed(self) -> (r: Ordering) { unimplemented!() } }
/// std: slices of bytes are compared lexicographically
pub trait TotalOrder: Bytes { fn vx_cmp(&self, other: &Self) -> (r: Ordering) ensures r == lex_cmp(self.bs(), other.bs()); }
impl TotalOrder for [u8] { #[verifier::external_body] fn vx_cmp(&self, other: &[u8]) -> (r: Ordering) { unimplemented!() } }
pub trait Hasher { spec fn fed(&self) -> Seq<Seq<u8>>; }
/// std: what a byte slice feeds to a hasher
pub uninterp spec fn hash_feed(b: Seq<u8>) -> Seq<Seq<u8>>;
pub trait Hash: Bytes { fn vx_hash<H: Hasher>(&self, hasher: &mut H) ensures final(hasher).fed() == old(hasher).fed() + hash_feed(self.bs()); }
/// std: Hash for [u8]
impl Hash for [u8] { #[verifier::external_body] fn vx_hash<H: Hasher>(&self, hasher: &mut H) { unimplemented!() } }
//@gtok Ordering :: reverse => vx_reverse
impl<S: AsRef<[u8]>, V: AsRef<[u8]>, B: ?Sized + AsRef<[u8]>> PartialEqual<B> for MaybeUtf8<S, V> {
//@fn src/context/maybe_utf8.rs MaybeUtf8<S,V> PartialEq<B> eq
//@sig fn vx_eq(&self, other: &B) -> (r: bool)
//@opt eq
//@end
}
impl<S: AsRef<[u8]>, V: AsRef<[u8]>, B: ?Sized + AsRef<[u8]>> PartialOrder<B> for MaybeUtf8<S, V> {
//@fn src/context/maybe_utf8.rs MaybeUtf8<S,V> PartialOrd<B> partial_cmp
//@sig fn vx_partial_cmp(&self, other: &B) -> (r: Option<Ordering>)
//@end
}
impl<S: AsRef<[u8]>, V: AsRef<[u8]>> MaybeUtf8<S, V> {
//@fn src/context/maybe_utf8.rs MaybeUtf8<S,V> Ord cmp
//@sig fn vx_cmp(&self, other: &MaybeUtf8<S, V>) -> (r: Ordering)
//@spec
    ensures r == lex_cmp(self.bs(), other.bs()),
//@end
}
impl<S: AsRef<[u8]>, V: AsRef<[u8]>> Hash for MaybeUtf8<S, V> {
//@fn src/context/maybe_utf8.rs MaybeUtf8<S,V> Hash hash
//@sig fn vx_hash<H: Hasher>(&self, hasher: &mut H)
//@end
}
impl<S: AsRef<[u8]>, V: AsRef<[u8]>> PartialEqual<MaybeUtf8<S, V>> for str {
//@fn src/context/maybe_utf8.rs str PartialEq<MaybeUtf8<S,V>> eq
//@sig fn vx_eq(&self, other: &MaybeUtf8<S, V>) -> (r: bool)
//@end
}
impl<S: AsRef<[u8]>, V: AsRef<[u8]>> PartialOrder<MaybeUtf8<S, V>> for str {
//@fn src/context/maybe_utf8.rs str PartialOrd<MaybeUtf8<S,V>> partial_cmp
//@sig fn vx_partial_cmp(&self, other: &MaybeUtf8<S, V>) -> (r: Option<Ordering>)
//@at entry
    proof { lemma_rev(self.bs(), other.bs()); }
//@end
}
impl<'a, S: AsRef<[u8]>, V: AsRef<[u8]>> PartialEqual<MaybeUtf8<S, V>> for &'a str {
//@fn src/context/maybe_utf8.rs &'astr PartialEq<MaybeUtf8<S,V>> eq
//@sig fn vx_eq(&self, other: &MaybeUtf8<S, V>) -> (r: bool)
//@end
}
impl<'a, S: AsRef<[u8]>, V: AsRef<[u8]>> PartialOrder<MaybeUtf8<S, V>> for &'a str {
//@fn src/context/maybe_utf8.rs &'astr PartialOrd<MaybeUtf8<S,V>> partial_cmp
//@sig fn vx_partial_cmp(&self, other: &MaybeUtf8<S, V>) -> (r: Option<Ordering>)
//@at entry
    proof { lemma_rev(self.bs(), other.bs()); }
//@end
}
impl<S: AsRef<[u8]>, V: AsRef<[u8]>> PartialEqual<MaybeUtf8<S, V>> for String {
//@fn src/context/maybe_utf8.rs String PartialEq<MaybeUtf8<S,V>> eq
//@sig fn vx_eq(&self, other: &MaybeUtf8<S, V>) -> (r: bool)
//@end
}
impl<S: AsRef<[u8]>, V: AsRef<[u8]>> PartialOrder<MaybeUtf8<S, V>> for String {
//@fn src/context/maybe_utf8.rs String PartialOrd<MaybeUtf8<S,V>> partial_cmp
//@sig fn vx_partial_cmp(&self, other: &MaybeUtf8<S, V>) -> (r: Option<Ordering>)
//@at entry
    proof { lemma_rev(self.bs(), other.bs()); }
//@end
}
impl<'a, S: AsRef<[u8]>, V: AsRef<[u8]>> PartialEqual<MaybeUtf8<S, V>> for Cow<'a> {
//@fn src/context/maybe_utf8.rs Cow<'a,str> PartialEq<MaybeUtf8<S,V>> eq
//@sig fn vx_eq(&self, other: &MaybeUtf8<S, V>) -> (r: bool)
//@end
}
impl<'a, S: AsRef<[u8]>, V: AsRef<[u8]>> PartialOrder<MaybeUtf8<S, V>> for Cow<'a> {
//@fn src/context/maybe_utf8.rs Cow<'a,str> PartialOrd<MaybeUtf8<S,V>> partial_cmp
//@sig fn vx_partial_cmp(&self, other: &MaybeUtf8<S, V>) -> (r: Option<Ordering>)
//@at entry
    proof { lemma_rev(self.bs(), other.bs()); }
//@end
}
impl<S: AsRef<[u8]>, V: AsRef<[u8]>> PartialEqual<MaybeUtf8<S, V>> for [u8] {
//@fn src/context/maybe_utf8.rs [u8] PartialEq<MaybeUtf8<S,V>> eq
//@sig fn vx_eq(&self, other: &MaybeUtf8<S, V>) -> (r: bool)
//@end
}
impl<S: AsRef<[u8]>, V: AsRef<[u8]>> PartialOrder<MaybeUtf8<S, V>> for [u8] {
//@fn src/context/maybe_utf8.rs [u8] PartialOrd<MaybeUtf8<S,V>> partial_cmp
//@sig fn vx_partial_cmp(&self, other: &MaybeUtf8<S, V>) -> (r: Option<Ordering>)
//@at entry
    proof { lemma_rev(self.bs(), other.bs()); }
//@end
}
impl<'a, S: AsRef<[u8]>, V: AsRef<[u8]>> PartialEqual<MaybeUtf8<S, V>> for &'a [u8] {
//@fn src/context/maybe_utf8.rs &'a[u8] PartialEq<MaybeUtf8<S,V>> eq
//@sig fn vx_eq(&self, other: &MaybeUtf8<S, V>) -> (r: bool)
//@end
}
impl<'a, S: AsRef<[u8]>, V: AsRef<[u8]>> PartialOrder<MaybeUtf8<S, V>> for &'a [u8] {
//@fn src/context/maybe_utf8.rs &'a[u8] PartialOrd<MaybeUtf8<S,V>> partial_cmp
//@sig fn vx_partial_cmp(&self, other: &MaybeUtf8<S, V>) -> (r: Option<Ordering>)
//@at entry
    proof { lemma_rev(self.bs(), other.bs()); }
//@end
}
impl<S: AsRef<[u8]>, V: AsRef<[u8]>> PartialEqual<MaybeUtf8<S, V>> for Vec<u8> {
//@fn src/context/maybe_utf8.rs Vec<u8> PartialEq<MaybeUtf8<S,V>> eq
//@sig fn vx_eq(&self, other: &MaybeUtf8<S, V>) -> (r: bool)
//@end
}
impl<S: AsRef<[u8]>, V: AsRef<[u8]>> PartialOrder<MaybeUtf8<S, V>> for Vec<u8> {
//@fn src/context/maybe_utf8.rs Vec<u8> PartialOrd<MaybeUtf8<S,V>> partial_cmp
//@sig fn vx_partial_cmp(&self, other: &MaybeUtf8<S, V>) -> (r: Option<Ordering>)
//@at entry
    proof { lemma_rev(self.bs(), other.bs()); }
//@end
}
// ---------------------------------------------------------------- what follows from the contracts
/// P11: the order is total and consistent with equality.
proof fn theorem_order<S: Bytes, V: Bytes>(a: MaybeUtf8<S, V>, b: MaybeUtf8<S, V>, c: MaybeUtf8<S, V>)
    ensures (lex_cmp(a.bs(), b.bs()) == Ordering::Equal) == (a.bs() == b.bs()),
        lex_cmp(a.bs(), b.bs()) == rev(lex_cmp(b.bs(), a.bs())),
        lex_cmp(a.bs(), b.bs()) != Ordering::Greater && lex_cmp(b.bs(), c.bs()) != Ordering::Greater ==> lex_cmp(a.bs(), c.bs()) != Ordering::Greater,
{
    lemma_equal(a.bs(), b.bs());
    lemma_rev(a.bs(), b.bs());
    if lex_cmp(a.bs(), b.bs()) != Ordering::Greater && lex_cmp(b.bs(), c.bs()) != Ordering::Greater { lemma_trans(a.bs(), b.bs(), c.bs()); }
}
}
fn main() {}
