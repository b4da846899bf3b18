// Unit params: P22 (Parameters is a map from byte strings to byte strings with typed views)
use vstd::prelude::*;
verus! {
//@include lib/prelude.vrs
/// MaybeUtf8Owned: its own behaviour (bytes kept, lossy view) is verified in unit maybe
#[verifier::external_body] pub struct MaybeUtf8Owned { x: Vec<u8> }
impl Bytes for MaybeUtf8Owned { uninterp spec fn bytes(&self) -> Seq<u8>; }
impl VxKey for MaybeUtf8Owned { type KV = Seq<u8>; open spec fn kv(&self) -> Seq<u8> { self.bytes() } }
/// String::from_utf8_lossy
pub uninterp spec fn lossy(b: Seq<u8>) -> Text;
/// text
#[verifier::external_body] pub struct Text { s: String }
/// std::borrow::Cow<str>
#[verifier::external_body] pub struct Cow<'a> { s: &'a str }
impl<'a> Cow<'a> { pub uninterp spec fn text(&self) -> Text; }
impl MaybeUtf8Owned {
    /// verified in unit maybe
    #[verifier::external_body] pub fn as_utf8_lossy(&self) -> (r: Cow<'_>) ensures r.text() == lossy(self.bytes()) { unimplemented!() }
}
/// Into<MaybeUtf8Owned>: keeps the bytes (proved for the crate's own conversions in unit maybe)
pub trait Into<T: Bytes>: Sized + Bytes { fn vx_into(self) -> (r: T) ensures r.bytes() == self.bytes(); }
/// std::str::FromStr
pub trait FromStr: Sized { type Err; spec fn parsed(t: Text) -> Result<Self, Self::Err>; }
/// std: IntoIterator::into_iter
pub trait VxInto: VxIter { fn vx_into_iter(self) -> (r: VIter<Self::Item>) ensures r@ == self.vx_items(); }
/// std: Into<Parameters> from From
impl HashMap<MaybeUtf8Owned, MaybeUtf8Owned> { pub fn vx_into(self) -> (r: Parameters) ensures r.map() == self@ { Parameters::from(self) } }
/// str::parse
impl<'a> Cow<'a> { #[verifier::external_body] pub fn parse<T: FromStr>(&self) -> (r: Result<T, T::Err>) ensures r == T::parsed(self.text()) { unimplemented!() } }
/// AsRef<[u8]>
pub trait AsRef: Bytes { fn vx_ref(&self) -> (r: &[u8]) ensures r@ == self.bytes(); }
/// std::collections::hash_map::Entry
#[verifier::external_body] pub struct Entry<'a> { m: &'a mut HashMap<MaybeUtf8Owned, MaybeUtf8Owned> }
pub type Raw = Map<Seq<u8>, MaybeUtf8Owned>;
impl<'a> Entry<'a> {
    pub uninterp spec fn key(&self) -> Seq<u8>;
    /// the map it was taken from
    pub uninterp spec fn before(&self) -> Raw;
    /// what becomes of that map
    pub uninterp spec fn after(&self) -> Raw;
}
impl HashMap<MaybeUtf8Owned, MaybeUtf8Owned> {
    /// std: HashMap::entry
    #[verifier::external_body] pub fn entry<'a>(&'a mut self, k: MaybeUtf8Owned) -> (r: Entry<'a>)
        ensures r.key() == k.bytes(), r.before() == old(self)@, r.after() == final(self)@ { unimplemented!() }
    /// std: HashMap::extend inserts the pairs in order
    #[verifier::external_body] pub fn extend(&mut self, v: Vec<(MaybeUtf8Owned, MaybeUtf8Owned)>) ensures final(self)@ == put_all(old(self)@, v@) { unimplemented!() }
    /// std: HashMap::from_iter inserts the pairs in order
    #[verifier::external_body] pub fn from_iter(v: Vec<(MaybeUtf8Owned, MaybeUtf8Owned)>) -> (r: Self) ensures r@ == put_all(Raw::empty(), v@) { unimplemented!() }
    /// std: == of HashMaps
    #[verifier::external_body] pub fn vx_eq(&self, o: &Self) -> (r: bool)
        ensures r == (self@.dom() =~= o@.dom() && forall|k: Seq<u8>| #[trigger] self@.contains_key(k) ==> self@[k].bytes() == o@[k].bytes()) { unimplemented!() }
    /// std: HashMap::into_iter visits every entry once
    #[verifier::external_body] pub fn vx_into_iter(self) -> (r: VIter<(MaybeUtf8Owned, MaybeUtf8Owned)>) ensures entries(self@, r@) { unimplemented!() }
}
pub open spec fn got(m: Raw, k: Seq<u8>) -> Option<MaybeUtf8Owned> { if m.contains_key(k) { Some(m[k]) } else { None } }
/// v has each entry of m once
pub open spec fn entries(m: Raw, v: Seq<(MaybeUtf8Owned, MaybeUtf8Owned)>) -> bool {
    &&& forall|i: int| 0 <= i < v.len() ==> m.contains_key((#[trigger] v[i]).0.bytes()) && m[v[i].0.bytes()] == v[i].1
    &&& forall|k: Seq<u8>| #[trigger] m.contains_key(k) ==> exists|i: int| 0 <= i < v.len() && (#[trigger] v[i]).0.bytes() == k
    &&& forall|i: int, j: int| 0 <= i < j < v.len() ==> (#[trigger] v[i]).0.bytes() != (#[trigger] v[j]).0.bytes()
}
pub open spec fn put_all(m: Raw, v: Seq<(MaybeUtf8Owned, MaybeUtf8Owned)>) -> Raw decreases v.len() {
    if v.len() == 0 { m } else { put_all(m, v.drop_last()).insert(v.last().0.bytes(), v.last().1) }
}
pub open spec fn same_pairs<K: Bytes, V: Bytes>(v: Seq<(MaybeUtf8Owned, MaybeUtf8Owned)>, w: Seq<(K, V)>) -> bool {
    v.len() == w.len() && forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i]).0.bytes() == w[i].0.bytes() && v[i].1.bytes() == w[i].1.bytes()
}
//@gmethod into => vx_into
//@gmethod into_iter => vx_into_iter
//@gmethod as_ref => vx_ref
//@gmethod eq => vx_eq
//@item src/context/parameters.rs Parameters
//@end
impl Parameters {
    pub open spec fn map(&self) -> Raw { self.0@ }
//@fn src/context/parameters.rs Parameters - new
//@sig pub fn new() -> (r: Parameters)
//@spec
    ensures r.map() == Raw::empty(),
//@end
//@fn src/context/parameters.rs Parameters - get
//@sig pub fn get<'a, K: ?Sized + AsRef>(&'a self, key: &K) -> (r: Option<Cow<'a>>)
//@spec
    ensures match r { Some(c) => self.map().contains_key(key.bytes()) && c.text() == lossy(self.map()[key.bytes()].bytes()), None => !self.map().contains_key(key.bytes()) },
//@end
//@fn src/context/parameters.rs Parameters - get_raw
//@sig pub fn get_raw<'a, K: ?Sized + AsRef>(&'a self, key: &K) -> (r: Option<&'a MaybeUtf8Owned>)
//@spec
    ensures match r { Some(v) => self.map().contains_key(key.bytes()) && *v == self.map()[key.bytes()], None => !self.map().contains_key(key.bytes()) },
//@end
//@fn src/context/parameters.rs Parameters - get_mut
//@sig pub fn get_mut<'a, K: ?Sized + AsRef>(&'a mut self, key: &K) -> (r: Option<&'a mut MaybeUtf8Owned>)
//@spec
    ensures match r { Some(v) => old(self).map().contains_key(key.bytes()) && *v == old(self).map()[key.bytes()] && final(self).map() == old(self).map().insert(key.bytes(), *final(v)),
        None => !old(self).map().contains_key(key.bytes()) && final(self).map() == old(self).map() },
//@end
//@fn src/context/parameters.rs Parameters - contains_key
//@sig pub fn contains_key<K: ?Sized + AsRef>(&self, key: &K) -> (r: bool)
//@spec
    ensures r == self.map().contains_key(key.bytes()),
//@end
//@fn src/context/parameters.rs Parameters - insert
//@sig pub fn insert<K: Into<MaybeUtf8Owned>, V: Into<MaybeUtf8Owned>>(&mut self, key: K, value: V) -> (r: Option<MaybeUtf8Owned>)
//@spec
    ensures r == got(old(self).map(), key.bytes()),
        exists|v: MaybeUtf8Owned| v.bytes() == value.bytes() && final(self).map() == #[trigger] old(self).map().insert(key.bytes(), v),
//@end
//@fn src/context/parameters.rs Parameters - remove
//@sig pub fn remove<K: ?Sized + AsRef>(&mut self, key: &K) -> (r: Option<MaybeUtf8Owned>)
//@spec
    ensures r == got(old(self).map(), key.bytes()), final(self).map() == old(self).map().remove(key.bytes()),
//@end
//@fn src/context/parameters.rs Parameters - entry
//@sig pub fn entry<'a, K: Into<MaybeUtf8Owned>>(&'a mut self, key: K) -> (r: Entry<'a>)
//@spec
    ensures r.key() == key.bytes(), r.before() == old(self).map(), r.after() == final(self).map(),
//@end
    pub open spec fn parse_of<T: FromStr>(&self, key: Seq<u8>) -> Result<T, Option<T::Err>> {
        if !self.map().contains_key(key) { Err(None) } else { match T::parsed(lossy(self.map()[key].bytes())) { Ok(t) => Ok(t), Err(e) => Err(Some(e)) } }
    }
//@fn src/context/parameters.rs Parameters - parse
//@sig pub fn parse<K: ?Sized + AsRef, T: FromStr>(&self, key: &K) -> (r: Result<T, Option<T::Err>>)
//@spec
    ensures r == self.parse_of::<T>(key.bytes()),
//@end
//@fn src/context/parameters.rs Parameters - parse_or
//@sig pub fn parse_or<K: ?Sized + AsRef, T: FromStr>(&self, key: &K, or: T) -> (r: T)
//@spec
    ensures r == (match self.parse_of::<T>(key.bytes()) { Ok(t) => t, Err(_) => or }),
//@end
//@fn src/context/parameters.rs Parameters - parse_or_else
//@result unwrap_or_else
//@sig pub fn parse_or_else<K: ?Sized + AsRef, T: FromStr, F: FnOnce(Option<T::Err>) -> T>(&self, key: &K, or_else: F) -> (r: T)
//@spec
    requires forall|e: Option<T::Err>| #[trigger] or_else.requires((e,)),
    ensures match self.parse_of::<T>(key.bytes()) { Ok(t) => r == t, Err(e) => or_else.ensures((e,), r) },
//@end
//@fn src/context/parameters.rs Parameters Deref deref
//@sig pub fn deref(&self) -> (r: &HashMap<MaybeUtf8Owned, MaybeUtf8Owned>)
//@spec
    ensures r@ == self.map(),
//@end
//@fn src/context/parameters.rs Parameters DerefMut deref_mut
//@sig pub fn deref_mut(&mut self) -> (r: &mut HashMap<MaybeUtf8Owned, MaybeUtf8Owned>)
//@spec
    ensures r@ == old(self).map(), final(self).map() == final(r)@,
//@end
//@fn src/context/parameters.rs Parameters AsRef<HashMap<MaybeUtf8Owned,MaybeUtf8Owned>> as_ref
//@sig pub fn as_ref_map(&self) -> (r: &HashMap<MaybeUtf8Owned, MaybeUtf8Owned>)
//@spec
    ensures r@ == self.map(),
//@end
//@fn src/context/parameters.rs Parameters AsMut<HashMap<MaybeUtf8Owned,MaybeUtf8Owned>> as_mut
//@sig pub fn as_mut(&mut self) -> (r: &mut HashMap<MaybeUtf8Owned, MaybeUtf8Owned>)
//@spec
    ensures r@ == old(self).map(), final(self).map() == final(r)@,
//@end
//@fn src/context/parameters.rs Parameters Into<HashMap<MaybeUtf8Owned,MaybeUtf8Owned>> into
//@sig pub fn into_map(self) -> (r: HashMap<MaybeUtf8Owned, MaybeUtf8Owned>)
//@spec
    ensures r@ == self.map(),
//@end
//@fn src/context/parameters.rs Parameters From<HashMap<MaybeUtf8Owned,MaybeUtf8Owned>> from
//@sig pub fn from(map: HashMap<MaybeUtf8Owned, MaybeUtf8Owned>) -> (r: Parameters)
//@spec
    ensures r.map() == map@,
//@end
//@fn src/context/parameters.rs Parameters PartialEq eq
//@sig pub fn vx_eq(&self, other: &Parameters) -> (r: bool)
//@opt eq
//@spec
    ensures r == (self.map().dom() =~= other.map().dom() && forall|k: Seq<u8>| #[trigger] self.map().contains_key(k) ==> self.map()[k].bytes() == other.map()[k].bytes()),
//@end
//@fn src/context/parameters.rs Parameters Default default
//@sig pub fn default() -> (r: Parameters)
//@spec
    ensures r.map() == Raw::empty(),
//@end
//@fn src/context/parameters.rs Parameters FromIterator<(K,V)> from_iter
//@sig pub fn from_iter<K: Into<MaybeUtf8Owned>, V: Into<MaybeUtf8Owned>, T: VxInto<Item = (K, V)>>(iterable: T) -> (r: Parameters)
//@spec
    ensures exists|v: Seq<(MaybeUtf8Owned, MaybeUtf8Owned)>| same_pairs(v, iterable.vx_items()) && r.map() == #[trigger] put_all(Raw::empty(), v),
//@at entry
    let ghost vx_all = iterable.vx_items();
//@at loop 0 spec
    invariant vx_c1@.len() + vx_it0@.len() == vx_all.len(), vx_it0@ == vx_all.skip(vx_c1@.len() as int), same_pairs(vx_c1@, vx_all.take(vx_c1@.len() as int)),
    ensures same_pairs(vx_c1@, vx_all),
    decreases vx_it0@.len(),
//@at loop 0 exit
    proof { assert(vx_all.take(vx_c1@.len() as int) =~= vx_all); assert(same_pairs(vx_c1@, vx_all)); }
//@end
//@fn src/context/parameters.rs Parameters Extend<(K,V)> extend
//@sig pub fn extend<K: Into<MaybeUtf8Owned>, V: Into<MaybeUtf8Owned>, T: VxInto<Item = (K, V)>>(&mut self, iter: T)
//@spec
    ensures exists|v: Seq<(MaybeUtf8Owned, MaybeUtf8Owned)>| same_pairs(v, iter.vx_items()) && final(self).map() == #[trigger] put_all(old(self).map(), v),
//@at entry
    let ghost vx_all = iter.vx_items();
//@at loop 0 spec
    invariant self.map() == old(self).map(), vx_c1@.len() + vx_it0@.len() == vx_all.len(), vx_it0@ == vx_all.skip(vx_c1@.len() as int), same_pairs(vx_c1@, vx_all.take(vx_c1@.len() as int)),
    ensures same_pairs(vx_c1@, vx_all), self.map() == old(self).map(),
    decreases vx_it0@.len(),
//@at loop 0 exit
    proof { assert(vx_all.take(vx_c1@.len() as int) =~= vx_all); assert(same_pairs(vx_c1@, vx_all)); }
//@end
//@fn src/context/parameters.rs Parameters IntoIterator into_iter
//@sig pub fn vx_into_iter(self) -> (r: VIter<(MaybeUtf8Owned, MaybeUtf8Owned)>)
//@spec
    ensures entries(self.map(), r@),
//@end
}
} fn main() {}
