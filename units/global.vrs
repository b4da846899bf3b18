use vstd::prelude::*;
verus! {
pub mod outside { use vstd::prelude::*; verus! {
#[verifier::external_body] #[derive(Clone, Copy)] pub struct TypeId { x: u64 }
pub uninterp spec fn tid<T>() -> TypeId;
impl TypeId {
    /// std: TypeId::of, different for different types (its spec value stands for the type)
    #[verifier::external_body] pub fn of<T>() -> (r: TypeId) ensures r == tid::<T>() { unimplemented!() }
    /// std: == on TypeId
    #[verifier::external_body] pub fn vx_eq(&self, o: &TypeId) -> (r: bool) ensures r == (*self == *o) { unimplemented!() }
}
/// std: == on TypeId
#[verifier::external_body] pub fn vx_same(a: TypeId, b: TypeId) -> (r: bool) ensures r == (a == b) { unimplemented!() }
/// Box<Any + Send + Sync>
#[verifier::external_body] pub struct AnyBox { x: () }
impl AnyBox {
    pub uninterp spec fn tid(&self) -> TypeId;
    pub uninterp spec fn val<T>(&self) -> T;
    /// anymap: downcast_ref_unchecked; its safety condition is an obligation
    #[verifier::external_body] pub unsafe fn downcast_ref_unchecked<T>(&self) -> (r: &T) requires self.tid() == tid::<T>() ensures *r == self.val::<T>() { unimplemented!() }
    /// anymap: downcast_unchecked; its safety condition is an obligation
    #[verifier::external_body] pub unsafe fn downcast_unchecked<T>(self) -> (r: Box<T>) requires self.tid() == tid::<T>() ensures *r == self.val::<T>() { unimplemented!() }
}
/// Box<T> as Box<Any + Send + Sync> (unsizing)
#[verifier::external_body] pub fn vx_any<T>(b: Box<T>) -> (r: AnyBox) ensures r == boxed(*b) { unimplemented!() }
/// anymap::Map
#[verifier::external_body] pub struct Map { x: () }
pub type Store = vstd::map::Map<TypeId, AnyBox>;
/// every value is stored under its own type
pub open spec fn sound(m: Store) -> bool { forall|k: TypeId| #[trigger] m.contains_key(k) ==> m[k].tid() == k }
impl View for Map { type V = Store; uninterp spec fn view(&self) -> Store; }
/// anymap::raw::RawMap
#[verifier::external_body] pub struct RawMap { x: () }
impl View for RawMap { type V = Store; uninterp spec fn view(&self) -> Store; }
impl Map {
    /// anymap: Map::new
    #[verifier::external_body] pub fn new() -> (r: Map) ensures r@ == Store::empty() { unimplemented!() }
    /// anymap: Map::get
    #[verifier::external_body] pub fn get<T>(&self) -> (r: Option<&T>) requires sound(self@)
        ensures match r { Some(v) => self@.contains_key(tid::<T>()) && *v == self@[tid::<T>()].val::<T>(), None => !self@.contains_key(tid::<T>()) } { unimplemented!() }
    /// anymap: Map::insert
    #[verifier::external_body] pub fn insert<T>(&mut self, v: T) -> (r: Option<T>) requires sound(old(self)@)
        ensures put::<T>(old(self)@, final(self)@, v), old_value::<T>(old(self)@, r) { unimplemented!() }
    /// anymap: Map::as_mut gives the raw map
    #[verifier::external_body] pub fn as_mut(&mut self) -> (r: &mut RawMap) ensures r@ == old(self)@, final(self)@ == final(r)@ { unimplemented!() }
}
impl RawMap {
    /// anymap: RawMap::insert; its safety condition is an obligation
    #[verifier::external_body] pub unsafe fn insert(&mut self, id: TypeId, v: AnyBox) -> (r: Option<AnyBox>) requires v.tid() == id ensures final(self)@ == old(self)@.insert(id, v) { unimplemented!() }
}
/// b is a with `v` as the one value of its type
pub open spec fn put<T>(a: Store, b: Store, v: T) -> bool { b =~= a.insert(tid::<T>(), boxed(v)) }
/// the box holding a value
pub uninterp spec fn boxed<T>(v: T) -> AnyBox;
/// std: a box knows its type and its value
#[verifier::external_body] pub broadcast proof fn axiom_boxed<T>(v: T) ensures (#[trigger] boxed(v)).tid() == tid::<T>(), boxed(v).val::<T>() == v {}

pub open spec fn old_value<T>(a: Store, r: Option<T>) -> bool {
    match r { Some(v) => a.contains_key(tid::<T>()) && v == a[tid::<T>()].val::<T>(), None => !a.contains_key(tid::<T>()) }
}
/// std::mem::replace
pub assume_specification<T> [core::mem::replace] (dest: &mut T, src: T) -> (r: T)
    where T: std::marker::Destruct
    ensures *final(dest) == src, r == *old(dest);
/// std::mem::swap
#[verifier::external_body] pub fn swap<T>(a: &mut T, b: &mut T) ensures *final(a) == *old(b), *final(b) == *old(a) { unimplemented!() }
#[verifier::external_body] pub fn vx_unreachable<T>() -> (r: T) requires false { unimplemented!() }

} }
use outside::*; use outside::Map;
broadcast use outside::axiom_boxed;
//@gtok Box < Any + Send + Sync > => AnyBox
//@gtok Map < Any + Send + Sync > => Map
//@gtok Box :: new ( value ) as AnyBox => vx_any ( Box :: new ( value ) )
//@gtok id == TypeId :: of :: < T > ( ) => vx_same ( id , TypeId :: of :: < T > ( ) )
//@gtok TypeId :: of :: < T > ( ) == id => vx_same ( id , TypeId :: of :: < T > ( ) )
//@gmethod into => vx_into
//@item src/server/config.rs GlobalState
//@end
//@item src/server/config.rs Global
//@end
pub trait VInto<T>: Sized { spec fn into_ok(self, r: T) -> bool; fn vx_into(self) -> (r: T) ensures self.into_ok(r); }
impl Global {
    /// What Global is: at most one value for each type.
    pub open spec fn store(&self) -> Store {
        match self.0 { GlobalState::None => Store::empty(), GlobalState::One(id, b) => Store::empty().insert(id, b), GlobalState::Many(m) => m@ }
    }
    pub open spec fn wf(&self) -> bool { sound(self.store()) }
//@fn src/server/config.rs Global - get
//@opt keep-ref
//@sig pub fn get<T>(&self) -> (r: Option<&T>)
//@spec
    requires self.wf(),
    ensures match r { Some(v) => self.store().contains_key(tid::<T>()) && *v == self.store()[tid::<T>()].val::<T>(), None => !self.store().contains_key(tid::<T>()) },
//@at entry
    proof { if let GlobalState::One(id, b) = &self.0 { assert(self.store().contains_key(*id)); assert(self.store()[*id] == *b); } }
//@end
//@fn src/server/config.rs Global - insert
//@opt keep-ref
//@sig pub fn insert<T>(&mut self, value: T) -> (r: Option<T>)
//@spec
    requires old(self).wf(),
    ensures final(self).wf(), put::<T>(old(self).store(), final(self).store(), value), old_value::<T>(old(self).store(), r),
//@at entry
    proof { if let GlobalState::One(id, b) = &self.0 { assert(self.store().contains_key(*id)); assert(self.store()[*id] == *b); } }
//@end
}
impl<T> VInto<Global> for Box<T> {
    open spec fn into_ok(self, r: Global) -> bool { r.wf() && put::<T>(Store::empty(), r.store(), *self) }
//@fn src/server/config.rs Global From<Box<T>> from
//@sig fn vx_into(self) -> (r: Global)
//@tok data => vx_any ( self )
//@end
}
impl VInto<Global> for () {
    open spec fn into_ok(self, r: Global) -> bool { r.store() == Store::empty() && r.wf() }
//@fn src/server/config.rs Global From<()> from
//@sig fn vx_into(self) -> (r: Global)
//@end
}
// collecting from tuples: the last value of a type wins (the macro is expanded by rustc)
impl<T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11> VInto<Global> for (T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11) {
    open spec fn into_ok(self, r: Global) -> bool { r.wf() && r.store() == Store::empty().insert(tid::<T0>(), boxed(self.0)).insert(tid::<T1>(), boxed(self.1)).insert(tid::<T2>(), boxed(self.2)).insert(tid::<T3>(), boxed(self.3)).insert(tid::<T4>(), boxed(self.4)).insert(tid::<T5>(), boxed(self.5)).insert(tid::<T6>(), boxed(self.6)).insert(tid::<T7>(), boxed(self.7)).insert(tid::<T8>(), boxed(self.8)).insert(tid::<T9>(), boxed(self.9)).insert(tid::<T10>(), boxed(self.10)).insert(tid::<T11>(), boxed(self.11)) }
//@fn src/server/config.rs Global From<(T0,T1,T2,T3,T4,T5,T6,T7,T8,T9,T10,T11)> from
//@sig fn vx_into(self) -> (r: Global)
//@tok tuple => self
//@end
}
impl<T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11> VInto<Global> for (T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11) {
    open spec fn into_ok(self, r: Global) -> bool { r.wf() && r.store() == Store::empty().insert(tid::<T1>(), boxed(self.0)).insert(tid::<T2>(), boxed(self.1)).insert(tid::<T3>(), boxed(self.2)).insert(tid::<T4>(), boxed(self.3)).insert(tid::<T5>(), boxed(self.4)).insert(tid::<T6>(), boxed(self.5)).insert(tid::<T7>(), boxed(self.6)).insert(tid::<T8>(), boxed(self.7)).insert(tid::<T9>(), boxed(self.8)).insert(tid::<T10>(), boxed(self.9)).insert(tid::<T11>(), boxed(self.10)) }
//@fn src/server/config.rs Global From<(T1,T2,T3,T4,T5,T6,T7,T8,T9,T10,T11)> from
//@sig fn vx_into(self) -> (r: Global)
//@tok tuple => self
//@end
}
impl<T2, T3, T4, T5, T6, T7, T8, T9, T10, T11> VInto<Global> for (T2, T3, T4, T5, T6, T7, T8, T9, T10, T11) {
    open spec fn into_ok(self, r: Global) -> bool { r.wf() && r.store() == Store::empty().insert(tid::<T2>(), boxed(self.0)).insert(tid::<T3>(), boxed(self.1)).insert(tid::<T4>(), boxed(self.2)).insert(tid::<T5>(), boxed(self.3)).insert(tid::<T6>(), boxed(self.4)).insert(tid::<T7>(), boxed(self.5)).insert(tid::<T8>(), boxed(self.6)).insert(tid::<T9>(), boxed(self.7)).insert(tid::<T10>(), boxed(self.8)).insert(tid::<T11>(), boxed(self.9)) }
//@fn src/server/config.rs Global From<(T2,T3,T4,T5,T6,T7,T8,T9,T10,T11)> from
//@sig fn vx_into(self) -> (r: Global)
//@tok tuple => self
//@end
}
impl<T3, T4, T5, T6, T7, T8, T9, T10, T11> VInto<Global> for (T3, T4, T5, T6, T7, T8, T9, T10, T11) {
    open spec fn into_ok(self, r: Global) -> bool { r.wf() && r.store() == Store::empty().insert(tid::<T3>(), boxed(self.0)).insert(tid::<T4>(), boxed(self.1)).insert(tid::<T5>(), boxed(self.2)).insert(tid::<T6>(), boxed(self.3)).insert(tid::<T7>(), boxed(self.4)).insert(tid::<T8>(), boxed(self.5)).insert(tid::<T9>(), boxed(self.6)).insert(tid::<T10>(), boxed(self.7)).insert(tid::<T11>(), boxed(self.8)) }
//@fn src/server/config.rs Global From<(T3,T4,T5,T6,T7,T8,T9,T10,T11)> from
//@sig fn vx_into(self) -> (r: Global)
//@tok tuple => self
//@end
}
impl<T4, T5, T6, T7, T8, T9, T10, T11> VInto<Global> for (T4, T5, T6, T7, T8, T9, T10, T11) {
    open spec fn into_ok(self, r: Global) -> bool { r.wf() && r.store() == Store::empty().insert(tid::<T4>(), boxed(self.0)).insert(tid::<T5>(), boxed(self.1)).insert(tid::<T6>(), boxed(self.2)).insert(tid::<T7>(), boxed(self.3)).insert(tid::<T8>(), boxed(self.4)).insert(tid::<T9>(), boxed(self.5)).insert(tid::<T10>(), boxed(self.6)).insert(tid::<T11>(), boxed(self.7)) }
//@fn src/server/config.rs Global From<(T4,T5,T6,T7,T8,T9,T10,T11)> from
//@sig fn vx_into(self) -> (r: Global)
//@tok tuple => self
//@end
}
impl<T5, T6, T7, T8, T9, T10, T11> VInto<Global> for (T5, T6, T7, T8, T9, T10, T11) {
    open spec fn into_ok(self, r: Global) -> bool { r.wf() && r.store() == Store::empty().insert(tid::<T5>(), boxed(self.0)).insert(tid::<T6>(), boxed(self.1)).insert(tid::<T7>(), boxed(self.2)).insert(tid::<T8>(), boxed(self.3)).insert(tid::<T9>(), boxed(self.4)).insert(tid::<T10>(), boxed(self.5)).insert(tid::<T11>(), boxed(self.6)) }
//@fn src/server/config.rs Global From<(T5,T6,T7,T8,T9,T10,T11)> from
//@sig fn vx_into(self) -> (r: Global)
//@tok tuple => self
//@end
}
impl<T6, T7, T8, T9, T10, T11> VInto<Global> for (T6, T7, T8, T9, T10, T11) {
    open spec fn into_ok(self, r: Global) -> bool { r.wf() && r.store() == Store::empty().insert(tid::<T6>(), boxed(self.0)).insert(tid::<T7>(), boxed(self.1)).insert(tid::<T8>(), boxed(self.2)).insert(tid::<T9>(), boxed(self.3)).insert(tid::<T10>(), boxed(self.4)).insert(tid::<T11>(), boxed(self.5)) }
//@fn src/server/config.rs Global From<(T6,T7,T8,T9,T10,T11)> from
//@sig fn vx_into(self) -> (r: Global)
//@tok tuple => self
//@end
}
impl<T7, T8, T9, T10, T11> VInto<Global> for (T7, T8, T9, T10, T11) {
    open spec fn into_ok(self, r: Global) -> bool { r.wf() && r.store() == Store::empty().insert(tid::<T7>(), boxed(self.0)).insert(tid::<T8>(), boxed(self.1)).insert(tid::<T9>(), boxed(self.2)).insert(tid::<T10>(), boxed(self.3)).insert(tid::<T11>(), boxed(self.4)) }
//@fn src/server/config.rs Global From<(T7,T8,T9,T10,T11)> from
//@sig fn vx_into(self) -> (r: Global)
//@tok tuple => self
//@end
}
impl<T8, T9, T10, T11> VInto<Global> for (T8, T9, T10, T11) {
    open spec fn into_ok(self, r: Global) -> bool { r.wf() && r.store() == Store::empty().insert(tid::<T8>(), boxed(self.0)).insert(tid::<T9>(), boxed(self.1)).insert(tid::<T10>(), boxed(self.2)).insert(tid::<T11>(), boxed(self.3)) }
//@fn src/server/config.rs Global From<(T8,T9,T10,T11)> from
//@sig fn vx_into(self) -> (r: Global)
//@tok tuple => self
//@end
}
impl<T9, T10, T11> VInto<Global> for (T9, T10, T11) {
    open spec fn into_ok(self, r: Global) -> bool { r.wf() && r.store() == Store::empty().insert(tid::<T9>(), boxed(self.0)).insert(tid::<T10>(), boxed(self.1)).insert(tid::<T11>(), boxed(self.2)) }
//@fn src/server/config.rs Global From<(T9,T10,T11)> from
//@sig fn vx_into(self) -> (r: Global)
//@tok tuple => self
//@end
}
impl<T10, T11> VInto<Global> for (T10, T11) {
    open spec fn into_ok(self, r: Global) -> bool { r.wf() && r.store() == Store::empty().insert(tid::<T10>(), boxed(self.0)).insert(tid::<T11>(), boxed(self.1)) }
//@fn src/server/config.rs Global From<(T10,T11)> from
//@sig fn vx_into(self) -> (r: Global)
//@tok tuple => self
//@end
}
impl<T11> VInto<Global> for (T11,) {
    open spec fn into_ok(self, r: Global) -> bool { r.wf() && r.store() == Store::empty().insert(tid::<T11>(), boxed(self.0)) }
//@fn src/server/config.rs Global From<(T11,)> from
//@sig fn vx_into(self) -> (r: Global)
//@tok tuple => self
//@end
}
impl Global {
//@fn src/server/config.rs Global Default default
//@sig fn default() -> (r: Global)
//@spec
    ensures r.store() == Store::empty(), r.wf(),
//@end
}
/// P15: after an insertion, the value last inserted is found, every other type has what it had.
proof fn theorem_last<T, U>(a: Store, b: Store, v: T)
    requires put::<T>(a, b, v), sound(a),
    ensures sound(b), b.contains_key(tid::<T>()), b[tid::<T>()].val::<T>() == v,
        tid::<U>() != tid::<T>() ==> (b.contains_key(tid::<U>()) <==> a.contains_key(tid::<U>())) && (a.contains_key(tid::<U>()) ==> b[tid::<U>()] == a[tid::<U>()]),
{
    assert forall|k: TypeId| #[trigger] b.contains_key(k) implies b[k].tid() == k by { if k != tid::<T>() { assert(a.contains_key(k)); } }
}
}
fn main() {}
