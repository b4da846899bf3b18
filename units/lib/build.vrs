// ---- lib/build.vrs: what building and merging routers works on (P05, P06)
pub open spec fn names_of(v: Seq<MaybeUtf8Owned>) -> Seq<Seq<u8>> { Seq::new(v.len(), |i: int| v[i].bytes()) }
/// anymap: everything in a builder context except the variable names
#[verifier::external_body] pub struct Rest { x: () }
pub uninterp spec fn no_rest() -> Rest;
/// A builder context: the variable names, if there are any, and the rest.
pub struct Ctx { pub names: Option<Seq<Seq<u8>>>, pub rest: Rest }
/// anymap::Map
#[verifier::external_body] pub struct BuilderContext { x: () }
impl View for BuilderContext { type V = Ctx; uninterp spec fn view(&self) -> Ctx; }
//@item src/handler/mod.rs VariableNames
//@end
impl BuilderContext {
    #[verifier::external_body] pub fn new() -> (r: BuilderContext) ensures r@ == (Ctx { names: None, rest: no_rest() }) { unimplemented!() }
    /// anymap: insert::<VariableNames>
    #[verifier::external_body] pub fn insert(&mut self, n: VariableNames) -> (r: Option<VariableNames>)
        ensures final(self)@ == (Ctx { names: Some(names_of(n.0@)), ..old(self)@ }) { unimplemented!() }
    /// anymap: remove::<VariableNames>
    #[verifier::external_body] pub fn remove(&mut self) -> (r: Option<VariableNames>)
        ensures final(self)@ == (Ctx { names: None, ..old(self)@ }), match r { Some(n) => old(self)@.names == Some(names_of(n.0@)), None => old(self)@.names is None } { unimplemented!() }
}
/// Clone of things that are the same afterwards, as far as can be told.
pub trait VxClone: Sized { spec fn same(self, r: Self) -> bool; fn vx_clone(&self) -> (r: Self) ensures (*self).same(r); }
impl VxClone for BuilderContext { open spec fn same(self, r: Self) -> bool { self@ == r@ } #[verifier::external_body] fn vx_clone(&self) -> (r: Self) { unimplemented!() } }
impl VxClone for VariableNames { open spec fn same(self, r: Self) -> bool { names_of(self.0@) == names_of(r.0@) } #[verifier::external_body] fn vx_clone(&self) -> (r: Self) { unimplemented!() } }
impl VxClone for Vec<MaybeUtf8Owned> { open spec fn same(self, r: Self) -> bool { names_of(self@) == names_of(r@) } #[verifier::external_body] fn vx_clone(&self) -> (r: Self) { unimplemented!() } }
pub trait VxOrDefault: Sized { type O; spec fn or_default(self, r: Self::O) -> bool; fn vx_or_default(self) -> (r: Self::O) ensures self.or_default(r); }
impl VxOrDefault for Option<VariableNames> {
    type O = VariableNames;
    open spec fn or_default(self, r: VariableNames) -> bool { match self { Some(n) => r == n, None => r.0@.len() == 0 } }
    #[verifier::external_body] fn vx_or_default(self) -> (r: VariableNames) { unimplemented!() }
}
/// std: Vec::extend with a vector
#[verifier::external_body] pub fn vx_extend<T>(v: &mut Vec<T>, o: Vec<T>) ensures final(v)@ == old(v)@ + o@ { unimplemented!() }
/// std: mem::swap
#[verifier::external_body] pub fn swap<T>(a: &mut T, b: &mut T) ensures *final(a) == *old(b), *final(b) == *old(a) { unimplemented!() }

// ---------------------------------------------------------------- std's maps, mutably
impl<K: VxKey, V> HashMap<K, V> {
    /// std: HashMap::iter_mut visits every entry once (order unspecified).
    #[verifier::external_body]
    pub fn iter_mut(&mut self) -> (r: VIter<(&K, &mut V)>)
        ensures
            final(self)@.dom() == old(self)@.dom(),
            forall|i: int| 0 <= i < r@.len() ==> old(self)@.contains_key((#[trigger] r@[i]).0.kv()) && old(self)@[r@[i].0.kv()] == *r@[i].1 && final(self)@[r@[i].0.kv()] == *final(r@[i].1),
            forall|k: K::KV| #[trigger] old(self)@.contains_key(k) ==> exists|i: int| 0 <= i < r@.len() && (#[trigger] r@[i]).0.kv() == k,
            forall|i: int, j: int| 0 <= i < j < r@.len() ==> (#[trigger] r@[i]).0.kv() != (#[trigger] r@[j]).0.kv(),
    { unimplemented!() }
    /// std: HashMap::entry
    #[verifier::external_body]
    pub fn entry<'a>(&'a mut self, k: K) -> (r: Entry<'a, K, V>)
        ensures match r {
            Entry::Occupied(e) => old(self)@.contains_key(k.kv()) && e.k() == k.kv() && *e.map == *old(self) && *final(e.map) == *final(self),
            Entry::Vacant(e) => !old(self)@.contains_key(k.kv()) && e.k() == k.kv() && *e.map == *old(self) && *final(e.map) == *final(self),
        }
    { unimplemented!() }
}
#[verifier::reject_recursive_types(K)] pub enum Entry<'a, K, V> { Occupied(OccupiedEntry<'a, K, V>), Vacant(VacantEntry<'a, K, V>) }
#[verifier::reject_recursive_types(K)] pub struct OccupiedEntry<'a, K, V> { pub key: K, pub map: &'a mut HashMap<K, V> }
#[verifier::reject_recursive_types(K)] pub struct VacantEntry<'a, K, V> { pub key: K, pub map: &'a mut HashMap<K, V> }
impl<'a, K: VxKey, V> OccupiedEntry<'a, K, V> {
    pub open spec fn k(&self) -> K::KV { self.key.kv() }
    #[verifier::external_body] pub fn into_mut(self) -> (r: &'a mut V) requires (*self.map)@.contains_key(self.k()) ensures *r == (*old(self.map))@[self.k()], (*final(self.map))@ == (*old(self.map))@.insert(self.k(), *final(r)) { unimplemented!() }
    #[verifier::external_body] pub fn get_mut(&mut self) -> (r: &mut V) requires (*old(self).map)@.contains_key(old(self).k())
        ensures *r == (*old(self).map)@[old(self).k()], (*final(self).map)@ == (*old(self).map)@.insert(old(self).k(), *final(r)), final(self).key == old(self).key, *final(final(self).map) == *final(old(self).map) { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, v: V) -> (r: V) requires (*old(self).map)@.contains_key(old(self).k())
        ensures r == (*old(self).map)@[old(self).k()], (*final(self).map)@ == (*old(self).map)@.insert(old(self).k(), v), final(self).key == old(self).key, *final(final(self).map) == *final(old(self).map) { unimplemented!() }
}
impl<'a, K: VxKey, V> VacantEntry<'a, K, V> {
    pub open spec fn k(&self) -> K::KV { self.key.kv() }
    #[verifier::external_body] pub fn insert(self, v: V) -> (r: &'a mut V) ensures *r == v, (*final(self.map))@ == (*old(self.map))@.insert(self.k(), *final(r)) { unimplemented!() }
}
/// std: a map by value gives every entry once (order unspecified).
impl<K: VxKey, V> VxIter for HashMap<K, V> { type Item = (K, V); uninterp spec fn vx_items(self) -> Seq<(K, V)>; }
pub broadcast axiom fn axiom_map_items<K: VxKey, V>(m: HashMap<K, V>) ensures ({ let s = #[trigger] m.vx_items();
    &&& forall|i: int| 0 <= i < s.len() ==> m@.contains_key((#[trigger] s[i]).0.kv()) && m@[s[i].0.kv()] == s[i].1
    &&& forall|k: K::KV| #[trigger] m@.contains_key(k) ==> exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0.kv() == k
    &&& forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).0.kv() != (#[trigger] s[j]).0.kv() });
