// ---- lib/prelude.vrs: vocabulary shared by every unit.
// Everything marked external_body / uninterp here is trusted (std behaviour) and reported in the evidence.

/// Sequence of values an iterator has left to yield.
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct VIter<T> { x: core::marker::PhantomData<T> }
impl<T> View for VIter<T> { type V = Seq<T>; uninterp spec fn view(&self) -> Seq<T>; }
impl<T> VIter<T> {
    /// std: Iterator::next yields the elements in order, each once.
    #[verifier::external_body]
    pub fn vx_next(&mut self) -> (r: Option<T>)
        ensures match r {
            Some(x) => old(self)@.len() > 0 && x == old(self)@[0] && final(self)@ == old(self)@.skip(1),
            None => old(self)@.len() == 0 && final(self)@ == old(self)@,
        }
    { unimplemented!() }
}
/// What `for x in source` iterates over.
pub trait VxIter: Sized {
    type Item;
    spec fn vx_items(self) -> Seq<Self::Item>;
}
/// std: IntoIterator::into_iter.
#[verifier::external_body]
pub fn vx_iter<I: VxIter>(i: I) -> (r: VIter<I::Item>) ensures r@ == i.vx_items() { unimplemented!() }
impl<T> VxIter for Vec<T> { type Item = T; open spec fn vx_items(self) -> Seq<T> { self@ } }
impl<'a, T> VxIter for &'a Vec<T> { type Item = &'a T; open spec fn vx_items(self) -> Seq<&'a T> { Seq::new(self@.len(), |i: int| &self@[i]) } }
impl<'a, T> VxIter for &'a [T] { type Item = &'a T; open spec fn vx_items(self) -> Seq<&'a T> { Seq::new(self@.len(), |i: int| &self@[i]) } }
impl<T> VxIter for VIter<T> { type Item = T; open spec fn vx_items(self) -> Seq<T> { self@ } }

impl<T> VIter<T> {
    /// std: Iterator::zip.
    #[verifier::external_body]
    pub fn zip<U>(self, o: VIter<U>) -> (r: VIter<(T, U)>)
        ensures r@ == Seq::new(if self@.len() < o@.len() { self@.len() } else { o@.len() }, |i: int| (self@[i], o@[i]))
    { unimplemented!() }
    /// std: Iterator::take.
    #[verifier::external_body]
    pub fn take(self, n: usize) -> (r: VIter<T>)
        ensures r@ == self@.take(if n < self@.len() { n as int } else { self@.len() as int })
    { unimplemented!() }
}
/// `.iter()`
pub trait VxSeqExt<T> { fn vx_seq(&self) -> VIter<&T>; }
impl<T> VxSeqExt<T> for Vec<T> {
    #[verifier::external_body]
    fn vx_seq(&self) -> (r: VIter<&T>) ensures r@ == Seq::new(self@.len(), |i: int| &self@[i]) { unimplemented!() }
}
impl<T> VxSeqExt<T> for [T] {
    #[verifier::external_body]
    fn vx_seq(&self) -> (r: VIter<&T>) ensures r@ == Seq::new(self@.len(), |i: int| &self@[i]) { unimplemented!() }
}
/// std: Result::unwrap_or
pub assume_specification<T, E> [std::result::Result::<T, E>::unwrap_or] (r: std::result::Result<T, E>, d: T) -> (o: T)
    where E: std::marker::Destruct, T: std::marker::Destruct
    ensures o == (match r { Ok(t) => t, Err(_) => d });
/// std::mem::replace
pub assume_specification<T> [core::mem::replace] (dest: &mut T, src: T) -> (r: T)
    where T: std::marker::Destruct
    ensures *final(dest) == src, r == *old(dest);
/// std: to_vec of a slice
pub assume_specification<T: Clone> [<[T]>::to_vec] (s: &[T]) -> (r: Vec<T>)
    ensures r@.len() == s@.len(), forall|i: int| 0 <= i < s@.len() ==> vstd::pervasive::cloned::<T>(#[trigger] s@[i], r@[i]);
/// std: contains of a slice
pub assume_specification<T: PartialEq> [<[T]>::contains] (s: &[T], x: &T) -> (r: bool)
    ensures <T as vstd::std_specs::cmp::PartialEqSpec>::obeys_eq_spec() ==> r == (exists|i: int| 0 <= i < s@.len() && vstd::std_specs::cmp::PartialEqSpec::eq_spec(&(#[trigger] s@[i]), x));
/// std: to_ascii_lowercase and to_ascii_uppercase of bytes
pub assume_specification [<[u8]>::to_ascii_lowercase] (s: &[u8]) -> (r: Vec<u8>)
    ensures r@ == s@.map_values(|b: u8| if 65 <= b <= 90 { (b + 32) as u8 } else { b });
/// std
pub assume_specification [<[u8]>::to_ascii_uppercase] (s: &[u8]) -> (r: Vec<u8>)
    ensures r@ == s@.map_values(|b: u8| if 97 <= b <= 122 { (b - 32) as u8 } else { b });
/// A reachable panic is a failed obligation.
#[verifier::external_body]
pub fn vx_unreachable<T>() -> (r: T) requires false { unimplemented!() }
#[verifier::external_body]
pub fn vx_panic<T>() -> (r: T) requires false { unimplemented!() }

/// `vec![x; n]` (x: Copy)
#[verifier::external_body]
pub fn vx_vec_repeat<T: Copy>(x: T, n: usize) -> (r: Vec<T>) ensures r@.len() == n, forall|i: int| 0 <= i < n ==> #[trigger] r@[i] == x { unimplemented!() }

/// Things that are, to the program, a byte string.
pub trait Bytes { spec fn bytes(&self) -> Seq<u8>; }
impl Bytes for [u8] { open spec fn bytes(&self) -> Seq<u8> { self@ } }
impl Bytes for Vec<u8> { open spec fn bytes(&self) -> Seq<u8> { self@ } }

/// Map keys are compared through a key view (for byte strings: the bytes).
pub trait VxKey { type KV; spec fn kv(&self) -> Self::KV; }
impl VxKey for [u8] { type KV = Seq<u8>; open spec fn kv(&self) -> Seq<u8> { self@ } }

#[verifier::external_body]
#[verifier::accept_recursive_types(V)]
#[verifier::reject_recursive_types(K)]
pub struct HashMap<K, V> { m: std::collections::HashMap<K, V> }
impl<K: VxKey, V> View for HashMap<K, V> { type V = Map<K::KV, V>; uninterp spec fn view(&self) -> Map<K::KV, V>; }
impl<K: VxKey, V> HashMap<K, V> {
    /// std: HashMap::get.
    #[verifier::external_body]
    pub fn get<Q: VxKey<KV = K::KV> + ?Sized>(&self, k: &Q) -> (r: Option<&V>)
        ensures match r { Some(v) => self@.contains_key(k.kv()) && self@[k.kv()] == *v, None => !self@.contains_key(k.kv()) }
    { unimplemented!() }
    /// std: HashMap::keys visits every key (order unspecified).
    #[verifier::external_body]
    pub fn keys(&self) -> (r: VIter<&K>)
        ensures
            forall|i: int| 0 <= i < r@.len() ==> self@.contains_key((#[trigger] r@[i]).kv()),
            forall|k: K::KV| #[trigger] self@.contains_key(k) ==> exists|i: int| 0 <= i < r@.len() && (#[trigger] r@[i]).kv() == k,
    { unimplemented!() }
    /// std: HashMap::iter visits every entry once (order unspecified).
    #[verifier::external_body]
    pub fn vx_seq(&self) -> (r: VIter<(&K, &V)>)
        ensures
            forall|i: int| 0 <= i < r@.len() ==> self@.contains_key((#[trigger] r@[i]).0.kv()) && self@[r@[i].0.kv()] == *r@[i].1,
            forall|k: K::KV| #[trigger] self@.contains_key(k) ==> exists|i: int| 0 <= i < r@.len() && (#[trigger] r@[i]).0.kv() == k,
            forall|i: int, j: int| 0 <= i < j < r@.len() ==> (#[trigger] r@[i]).0.kv() != (#[trigger] r@[j]).0.kv(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn with_capacity(n: usize) -> (r: Self) ensures r@ == Map::<K::KV, V>::empty() { unimplemented!() }
    /// std: HashMap::new.
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Map::<K::KV, V>::empty() { unimplemented!() }
    /// std: HashMap::get_mut
    #[verifier::external_body]
    pub fn get_mut<Q: VxKey<KV = K::KV> + ?Sized>(&mut self, k: &Q) -> (r: Option<&mut V>)
        ensures match r { Some(v) => old(self)@.contains_key(k.kv()) && *v == old(self)@[k.kv()] && final(self)@ == old(self)@.insert(k.kv(), *final(v)), None => !old(self)@.contains_key(k.kv()) && *final(self) == *old(self) }
    { unimplemented!() }
    /// std: HashMap::contains_key
    #[verifier::external_body]
    pub fn contains_key<Q: VxKey<KV = K::KV> + ?Sized>(&self, k: &Q) -> (r: bool) ensures r == self@.contains_key(k.kv()) { unimplemented!() }
    /// std: HashMap::remove
    #[verifier::external_body]
    pub fn remove<Q: VxKey<KV = K::KV> + ?Sized>(&mut self, k: &Q) -> (r: Option<V>)
        ensures final(self)@ == old(self)@.remove(k.kv()), r == (if old(self)@.contains_key(k.kv()) { Some(old(self)@[k.kv()]) } else { None::<V> })
    { unimplemented!() }
    /// std: HashMap::len
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len(), self@.dom().finite() { unimplemented!() }
    /// std: HashMap::is_empty
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@ == Map::<K::KV, V>::empty()) { unimplemented!() }
    /// std: HashMap::clear
    #[verifier::external_body]
    pub fn clear(&mut self) ensures final(self)@ == Map::<K::KV, V>::empty() { unimplemented!() }
    /// std: HashMap::insert.
    #[verifier::external_body]
    pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>)
        ensures final(self)@ == old(self)@.insert(k.kv(), v),
            r == (if old(self)@.contains_key(k.kv()) { Some(old(self)@[k.kv()]) } else { None::<V> })
    { unimplemented!() }
}
