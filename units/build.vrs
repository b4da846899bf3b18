use vstd::prelude::*;
use vstd::std_specs::cmp::*;
use crate::Entry::{Occupied, Vacant};
verus! {
//@include lib/prelude.vrs
//@include lib/maybe.vrs
//@include lib/cut.vrs
//@include lib/build.vrs
//@include lib/http.vrs
/// hyper's methods and status codes, as map keys
impl VxKey for Method { type KV = MethodV; open spec fn kv(&self) -> MethodV { self@ } }
impl VxKey for StatusCode { type KV = StatusCode; open spec fn kv(&self) -> StatusCode { *self } }
//@gtok remove :: < VariableNames > => remove
//@gtok vx_iter ( & mut self . $f ) => self . $f . iter_mut ( )
//@gmethod clone => vx_clone
//@gmethod unwrap_or_default => vx_or_default
//@item src/handler/tree_router.rs TreeRouter
//@end
//@item src/handler/variables.rs Variables
//@end
//@item src/handler/method_router.rs MethodRouter
//@end
//@item src/handler/status_router.rs StatusRouter
//@end
//@item src/handler/or_else.rs OrElse
//@end
//@item src/handler/mod.rs ContentFactory
//@tok T : CreateContent => T
//@end
pub trait Handler: Sized {}
pub trait CreateContent: Sized {}

pub trait ApplyContext: Sized {
    /// what apply_context and prepend_context leave
    spec fn applied(self, c: Ctx, r: Self) -> bool;
    spec fn prepended(self, c: Ctx, r: Self) -> bool;
    fn apply_context(&mut self, context: BuilderContext) ensures old(self).applied(context@, *final(self));
    fn prepend_context(&mut self, context: BuilderContext) ensures old(self).prepended(context@, *final(self));
}
pub trait Merge: Sized {
    spec fn merged(self, o: Self, r: Self) -> bool;
    fn merge(&mut self, other: Self) ensures old(self).merged(other, *final(self));
}
// ---------------------------------------------------------------- places in a route tree
pub enum Step { Fixed(Seq<u8>), Variable, Wildcard }
pub open spec fn boxed<T>(b: Option<Box<T>>) -> Option<T> { match b { Some(b) => Some(*b), None => None } }
pub open spec fn child<T>(t: TreeRouter<T>, s: Step) -> Option<TreeRouter<T>> {
    match s {
        Step::Fixed(k) => if t.static_routes@.contains_key(k) { Some(t.static_routes@[k]) } else { None },
        Step::Variable => boxed(t.variable_route),
        Step::Wildcard => boxed(t.wildcard_route),
    }
}
pub open spec fn at<T>(t: Option<TreeRouter<T>>, p: Seq<Step>) -> Option<TreeRouter<T>> decreases p.len() {
    if p.len() == 0 { t } else { match t { Some(t) => at(child(t, p[0]), p.skip(1)), None => None } }
}
/// The same places, with items related by `rel`.
pub open spec fn each<T>(a: Option<TreeRouter<T>>, r: Option<TreeRouter<T>>, rel: spec_fn(T, T) -> bool) -> bool {
    forall|p: Seq<Step>| match (#[trigger] at(a, p), at(r, p)) { (Some(x), Some(y)) => rel(x.item, y.item), (None, None) => true, _ => false }
}
pub proof fn lemma_each<T>(a: TreeRouter<T>, r: TreeRouter<T>, rel: spec_fn(T, T) -> bool)
    requires rel(a.item, r.item), forall|s: Step| each(#[trigger] child(a, s), child(r, s), rel),
    ensures each(Some(a), Some(r), rel),
{
    assert forall|p: Seq<Step>| match (#[trigger] at(Some(a), p), at(Some(r), p)) { (Some(x), Some(y)) => rel(x.item, y.item), (None, None) => true, _ => false } by {
        if p.len() > 0 { assert(each(child(a, p[0]), child(r, p[0]), rel)); let _ = at(child(a, p[0]), p.skip(1)); }
    }
}
pub proof fn lemma_each_none<T>(rel: spec_fn(T, T) -> bool) ensures each(None::<TreeRouter<T>>, None, rel) {
    assert forall|p: Seq<Step>| #[trigger] at(None::<TreeRouter<T>>, p) is None by {}
}
/// Applying a context to an end point: its variables come first, then the rest.
pub open spec fn item_applied<T: ApplyContext>(x: T, c: Ctx, y: T) -> bool {
    match c.names { Some(n) => exists|m: T| #[trigger] x.prepended(Ctx { names: Some(n), rest: no_rest() }, m) && m.applied(Ctx { names: None, rest: c.rest }, y), None => x.applied(c, y) }
}
impl<T: ApplyContext> ApplyContext for TreeRouter<T> {
    open spec fn applied(self, c: Ctx, r: Self) -> bool { each(Some(self), Some(r), |x: T, y: T| item_applied(x, c, y)) }
    open spec fn prepended(self, c: Ctx, r: Self) -> bool { each(Some(self), Some(r), |x: T, y: T| x.prepended(c, y)) }
//@fn src/handler/tree_router.rs TreeRouter<T> ApplyContext apply_context
//@sig fn apply_context(&mut self, mut context: BuilderContext)
//@attr #[verifier::exec_allows_no_decreases_clause]
//@attr #[verifier::loop_isolation(false)]
//@at entry
    let ghost c = context@;
//@at loop 0 init
    let ghost all = vx_it0@;
    let ghost mut k: int = 0;
//@at loop 0 spec
    invariant 0 <= k <= all.len(), vx_it0@ == all.skip(k), context@ == c, forall|j: int| 0 <= j < k ==> TreeRouter::applied(*(#[trigger] all[j]).1, c, *final(all[j].1)),
//@at loop 0 start
    proof { assert(all[k].1 == node); k = k + 1; }
//@at loop 0 exit
    proof {
        assert forall|key: Seq<u8>| #[trigger] old(self).static_routes@.contains_key(key) implies TreeRouter::applied(old(self).static_routes@[key], c, self.static_routes@[key]) by {
            let j = choose|j: int| 0 <= j < all.len() && (#[trigger] all[j]).0.kv() == key;
            assert(TreeRouter::applied(*all[j].1, c, *final(all[j].1)));
        }
    }
//@at return
    proof {
        let rel = |x: T, y: T| item_applied(x, c, y);
        lemma_each_none::<T>(rel);
        lemma_each(*old(self), *self, rel);
    }
//@end
//@fn src/handler/tree_router.rs TreeRouter<T> ApplyContext prepend_context
//@sig fn prepend_context(&mut self, mut context: BuilderContext)
//@attr #[verifier::exec_allows_no_decreases_clause]
//@attr #[verifier::loop_isolation(false)]
//@at entry
    let ghost c = context@;
//@at loop 0 init
    let ghost all = vx_it0@;
    let ghost mut k: int = 0;
//@at loop 0 spec
    invariant 0 <= k <= all.len(), vx_it0@ == all.skip(k), context@ == c, forall|j: int| 0 <= j < k ==> TreeRouter::prepended(*(#[trigger] all[j]).1, c, *final(all[j].1)),
//@at loop 0 start
    proof { assert(all[k].1 == node); k = k + 1; }
//@at loop 0 exit
    proof {
        assert forall|key: Seq<u8>| #[trigger] old(self).static_routes@.contains_key(key) implies TreeRouter::prepended(old(self).static_routes@[key], c, self.static_routes@[key]) by {
            let j = choose|j: int| 0 <= j < all.len() && (#[trigger] all[j]).0.kv() == key;
            assert(TreeRouter::prepended(*all[j].1, c, *final(all[j].1)));
        }
    }
//@at return
    proof {
        let rel = |x: T, y: T| x.prepended(c, y);
        lemma_each_none::<T>(rel);
        lemma_each(*old(self), *self, rel);
    }
//@end
}

// ---------------------------------------------------------------- contexts everywhere else
pub open spec fn each_key<K, T>(a: Map<K, T>, r: Map<K, T>, rel: spec_fn(T, T) -> bool) -> bool { a.dom() == r.dom() && forall|k: K| #[trigger] a.contains_key(k) ==> rel(a[k], r[k]) }
impl<T: ApplyContext> ApplyContext for MethodRouter<T> {
    open spec fn applied(self, c: Ctx, r: Self) -> bool { each_key(self.handlers@, r.handlers@, |x: T, y: T| x.applied(c, y)) }
    open spec fn prepended(self, c: Ctx, r: Self) -> bool { each_key(self.handlers@, r.handlers@, |x: T, y: T| x.prepended(c, y)) }
//@fn src/handler/method_router.rs MethodRouter<T> ApplyContext apply_context
//@sig fn apply_context(&mut self, mut context: BuilderContext)
//@attr #[verifier::loop_isolation(false)]
//@at entry
    let ghost c = context@;
//@at loop 0 init
    let ghost all = vx_it0@;
    let ghost mut k: int = 0;
//@at loop 0 spec
    invariant 0 <= k <= all.len(), vx_it0@ == all.skip(k), context@ == c, forall|j: int| 0 <= j < k ==> T::applied(*(#[trigger] all[j]).1, c, *final(all[j].1)),
//@at loop 0 start
    proof { assert(all[k].1 == handler); k = k + 1; }
//@at loop 0 exit
    proof {
        assert forall|key| #[trigger] old(self).handlers@.contains_key(key) implies T::applied(old(self).handlers@[key], c, self.handlers@[key]) by {
            let j = choose|j: int| 0 <= j < all.len() && (#[trigger] all[j]).0.kv() == key;
            assert(T::applied(*all[j].1, c, *final(all[j].1)));
        }
    }
//@end
//@fn src/handler/method_router.rs MethodRouter<T> ApplyContext prepend_context
//@sig fn prepend_context(&mut self, mut context: BuilderContext)
//@attr #[verifier::loop_isolation(false)]
//@at entry
    let ghost c = context@;
//@at loop 0 init
    let ghost all = vx_it0@;
    let ghost mut k: int = 0;
//@at loop 0 spec
    invariant 0 <= k <= all.len(), vx_it0@ == all.skip(k), context@ == c, forall|j: int| 0 <= j < k ==> T::prepended(*(#[trigger] all[j]).1, c, *final(all[j].1)),
//@at loop 0 start
    proof { assert(all[k].1 == handler); k = k + 1; }
//@at loop 0 exit
    proof {
        assert forall|key| #[trigger] old(self).handlers@.contains_key(key) implies T::prepended(old(self).handlers@[key], c, self.handlers@[key]) by {
            let j = choose|j: int| 0 <= j < all.len() && (#[trigger] all[j]).0.kv() == key;
            assert(T::prepended(*all[j].1, c, *final(all[j].1)));
        }
    }
//@end
}
impl<T: ApplyContext> ApplyContext for StatusRouter<T> {
    open spec fn applied(self, c: Ctx, r: Self) -> bool { each_key(self.handlers@, r.handlers@, |x: T, y: T| x.applied(c, y)) }
    open spec fn prepended(self, c: Ctx, r: Self) -> bool { each_key(self.handlers@, r.handlers@, |x: T, y: T| x.prepended(c, y)) }
//@fn src/handler/status_router.rs StatusRouter<T> ApplyContext apply_context
//@sig fn apply_context(&mut self, mut context: BuilderContext)
//@attr #[verifier::loop_isolation(false)]
//@at entry
    let ghost c = context@;
//@at loop 0 init
    let ghost all = vx_it0@;
    let ghost mut k: int = 0;
//@at loop 0 spec
    invariant 0 <= k <= all.len(), vx_it0@ == all.skip(k), context@ == c, forall|j: int| 0 <= j < k ==> T::applied(*(#[trigger] all[j]).1, c, *final(all[j].1)),
//@at loop 0 start
    proof { assert(all[k].1 == handler); k = k + 1; }
//@at loop 0 exit
    proof {
        assert forall|key| #[trigger] old(self).handlers@.contains_key(key) implies T::applied(old(self).handlers@[key], c, self.handlers@[key]) by {
            let j = choose|j: int| 0 <= j < all.len() && (#[trigger] all[j]).0.kv() == key;
            assert(T::applied(*all[j].1, c, *final(all[j].1)));
        }
    }
//@end
//@fn src/handler/status_router.rs StatusRouter<T> ApplyContext prepend_context
//@sig fn prepend_context(&mut self, mut context: BuilderContext)
//@attr #[verifier::loop_isolation(false)]
//@at entry
    let ghost c = context@;
//@at loop 0 init
    let ghost all = vx_it0@;
    let ghost mut k: int = 0;
//@at loop 0 spec
    invariant 0 <= k <= all.len(), vx_it0@ == all.skip(k), context@ == c, forall|j: int| 0 <= j < k ==> T::prepended(*(#[trigger] all[j]).1, c, *final(all[j].1)),
//@at loop 0 start
    proof { assert(all[k].1 == handler); k = k + 1; }
//@at loop 0 exit
    proof {
        assert forall|key| #[trigger] old(self).handlers@.contains_key(key) implies T::prepended(old(self).handlers@[key], c, self.handlers@[key]) by {
            let j = choose|j: int| 0 <= j < all.len() && (#[trigger] all[j]).0.kv() == key;
            assert(T::prepended(*all[j].1, c, *final(all[j].1)));
        }
    }
//@end
}
/// Variable names are replaced, or come before the ones there.
pub open spec fn no_names(c: Ctx) -> Ctx { Ctx { names: None, ..c } }
impl<T: ApplyContext> ApplyContext for Variables<T> {
    open spec fn applied(self, c: Ctx, r: Self) -> bool { self.handler.applied(no_names(c), r.handler) && names_of(r.variables@) == (match c.names { Some(n) => n, None => names_of(self.variables@) }) }
    open spec fn prepended(self, c: Ctx, r: Self) -> bool { self.handler.prepended(no_names(c), r.handler) && names_of(r.variables@) == (match c.names { Some(n) => n + names_of(self.variables@), None => names_of(self.variables@) }) }
//@fn src/handler/variables.rs Variables<T> ApplyContext apply_context
//@sig fn apply_context(&mut self, mut context: BuilderContext)
//@end
//@fn src/handler/variables.rs Variables<T> ApplyContext prepend_context
//@sig fn prepend_context(&mut self, vx_context: BuilderContext)
//@at entry
    let mut context = vx_context;
//@tok :: std :: mem :: swap => swap
//@tok self . variables . extend ( $x ) => vx_extend(&mut self.variables, $x)
//@at return
    proof { assert(names_of(self.variables@) =~= (match vx_context@.names { Some(n) => n + names_of(old(self).variables@), None => names_of(old(self).variables@) })); }
//@end
}
impl<A: ApplyContext, B: ApplyContext> ApplyContext for OrElse<A, B> {
    open spec fn applied(self, c: Ctx, r: Self) -> bool { self.primary.applied(c, r.primary) && self.secondary.applied(c, r.secondary) }
    open spec fn prepended(self, c: Ctx, r: Self) -> bool { self.primary.prepended(c, r.primary) && self.secondary.prepended(c, r.secondary) }
//@fn src/handler/or_else.rs OrElse<A,B> ApplyContext apply_context
//@sig fn apply_context(&mut self, context: BuilderContext)
//@end
//@fn src/handler/or_else.rs OrElse<A,B> ApplyContext prepend_context
//@sig fn prepend_context(&mut self, context: BuilderContext)
//@end
}
impl<T: ApplyContext> ApplyContext for Option<T> {
    open spec fn applied(self, c: Ctx, r: Self) -> bool { match (self, r) { (Some(x), Some(y)) => x.applied(c, y), (None, None) => true, _ => false } }
    open spec fn prepended(self, c: Ctx, r: Self) -> bool { match (self, r) { (Some(x), Some(y)) => x.prepended(c, y), (None, None) => true, _ => false } }
//@fn src/handler/mod.rs Option<T> ApplyContext apply_context
//@sig fn apply_context(&mut self, context: BuilderContext)
//@end
//@fn src/handler/mod.rs Option<T> ApplyContext prepend_context
//@sig fn prepend_context(&mut self, context: BuilderContext)
//@end
}
impl<T: CreateContent> ApplyContext for ContentFactory<T> {
    open spec fn applied(self, c: Ctx, r: Self) -> bool { self == r }
    open spec fn prepended(self, c: Ctx, r: Self) -> bool { self == r }
//@fn src/handler/mod.rs ContentFactory<T> ApplyContext apply_context
//@sig fn apply_context(&mut self, _context: BuilderContext)
//@end
//@fn src/handler/mod.rs ContentFactory<T> ApplyContext prepend_context
//@sig fn prepend_context(&mut self, _context: BuilderContext)
//@end
}
impl<T: Handler> ApplyContext for T {
    open spec fn applied(self, c: Ctx, r: Self) -> bool { self == r }
    open spec fn prepended(self, c: Ctx, r: Self) -> bool { self == r }
//@fn src/handler/mod.rs T ApplyContext apply_context
//@sig fn apply_context(&mut self, _context: BuilderContext)
//@end
//@fn src/handler/mod.rs T ApplyContext prepend_context
//@sig fn prepend_context(&mut self, _context: BuilderContext)
//@end
}
// ---------------------------------------------------------------- merging (P06)
/// Everything that's in only one of them as it is, merged where it's in both.
pub open spec fn union<K, T>(a: Map<K, T>, b: Map<K, T>, r: Map<K, T>, rel: spec_fn(T, T, T) -> bool) -> bool {
    forall|k: K| #![trigger r.contains_key(k)] #![trigger a.contains_key(k)] #![trigger b.contains_key(k)] r.contains_key(k) == (a.contains_key(k) || b.contains_key(k))
        && (a.contains_key(k) && !b.contains_key(k) ==> r[k] == a[k])
        && (!a.contains_key(k) && b.contains_key(k) ==> r[k] == b[k])
        && (a.contains_key(k) && b.contains_key(k) ==> rel(a[k], b[k], r[k]))
}
pub open spec fn union_at<T: Merge>(a: Option<TreeRouter<T>>, b: Option<TreeRouter<T>>, r: Option<TreeRouter<T>>) -> bool {
    match (a, b, r) {
        (Some(x), Some(y), Some(z)) => x.item.merged(y.item, z.item),
        (Some(x), None, Some(z)) => x.item == z.item,
        (None, Some(y), Some(z)) => y.item == z.item,
        (None, None, None) => true,
        _ => false,
    }
}
/// ... at every place.
pub open spec fn union_tree<T: Merge>(a: Option<TreeRouter<T>>, b: Option<TreeRouter<T>>, r: Option<TreeRouter<T>>) -> bool {
    forall|p: Seq<Step>| #![trigger at(r, p)] union_at(at(a, p), at(b, p), at(r, p))
}
pub proof fn lemma_union<T: Merge>(a: TreeRouter<T>, b: TreeRouter<T>, r: TreeRouter<T>)
    requires a.item.merged(b.item, r.item), forall|s: Step| union_tree(#[trigger] child(a, s), child(b, s), child(r, s)),
    ensures union_tree(Some(a), Some(b), Some(r)),
{
    assert forall|p: Seq<Step>| #![trigger at(Some(r), p)] union_at(at(Some(a), p), at(Some(b), p), at(Some(r), p)) by {
        if p.len() > 0 { assert(union_tree(child(a, p[0]), child(b, p[0]), child(r, p[0]))); let _ = at(child(r, p[0]), p.skip(1)); }
    }
}
pub proof fn lemma_union_one<T: Merge>(a: Option<TreeRouter<T>>)
    ensures union_tree(a, None, a), union_tree(None, a, a),
{
    assert forall|p: Seq<Step>| #![trigger at(a, p)] at(None::<TreeRouter<T>>, p) is None by {}
}
impl<T: Merge> Merge for TreeRouter<T> {
    open spec fn merged(self, o: Self, r: Self) -> bool { union_tree(Some(self), Some(o), Some(r)) }
//@fn src/handler/tree_router.rs TreeRouter<T> Merge merge
//@sig fn merge(&mut self, other: TreeRouter<T>)
//@attr #[verifier::loop_isolation(false)]
//@attr #[verifier::exec_allows_no_decreases_clause]
//@at entry
    broadcast use axiom_map_items;
//@at loop 0 init
    let ghost all = vx_it0@;
    let ghost vx_item = self.item;
    let ghost mut k: int = 0;
//@at loop 0 spec
    invariant 0 <= k <= all.len(), vx_it0@ == all.skip(k), union_done(old(self).static_routes@, all, k, self.static_routes@, |x: TreeRouter<T>, y: TreeRouter<T>, z: TreeRouter<T>| union_tree(Some(x), Some(y), Some(z))),
        self.item == vx_item, self.variable_route == old(self).variable_route, self.wildcard_route == old(self).wildcard_route,
//@at loop 0 start
    proof { assert(all[k] == (key, other_node)); k = k + 1; }
//@at loop 0 exit
    proof { lemma_union_done(old(self).static_routes@, other.static_routes, self.static_routes@, |x: TreeRouter<T>, y: TreeRouter<T>, z: TreeRouter<T>| union_tree(Some(x), Some(y), Some(z))); }
//@at return
    proof {
        assert forall|s: Step| union_tree(#[trigger] child(*old(self), s), child(other, s), child(*self, s)) by {
            lemma_union_one(child(*old(self), s));
            lemma_union_one(child(other, s));
        }
        lemma_union(*old(self), other, *self);
    }
//@end
}
/// ... as far as the first `k` entries of the other one go.
pub open spec fn union_done<K: VxKey, T>(a: Map<K::KV, T>, all: Seq<(K, T)>, k: int, r: Map<K::KV, T>, rel: spec_fn(T, T, T) -> bool) -> bool {
    &&& forall|j: int| 0 <= j < k ==> r.contains_key((#[trigger] all[j]).0.kv()) && (if a.contains_key(all[j].0.kv()) { rel(a[all[j].0.kv()], all[j].1, r[all[j].0.kv()]) } else { r[all[j].0.kv()] == all[j].1 })
    &&& forall|key: K::KV| #![trigger r.contains_key(key)] #![trigger a.contains_key(key)] (forall|j: int| 0 <= j < k ==> (#[trigger] all[j]).0.kv() != key) ==> r.contains_key(key) == a.contains_key(key) && (a.contains_key(key) ==> r[key] == a[key])
}
pub proof fn lemma_union_done<K: VxKey, T>(a: Map<K::KV, T>, b: HashMap<K, T>, r: Map<K::KV, T>, rel: spec_fn(T, T, T) -> bool)
    requires union_done(a, b.vx_items(), b.vx_items().len() as int, r, rel),
    ensures union(a, b@, r, rel),
{
    broadcast use axiom_map_items;
    let all = b.vx_items();
    assert forall|k: K::KV| #![trigger r.contains_key(k)] #![trigger a.contains_key(k)] #![trigger b@.contains_key(k)] r.contains_key(k) == (a.contains_key(k) || b@.contains_key(k))
        && (a.contains_key(k) && !b@.contains_key(k) ==> r[k] == a[k])
        && (!a.contains_key(k) && b@.contains_key(k) ==> r[k] == b@[k])
        && (a.contains_key(k) && b@.contains_key(k) ==> rel(a[k], b@[k], r[k])) by {
        if b@.contains_key(k) { let j = choose|j: int| 0 <= j < all.len() && (#[trigger] all[j]).0.kv() == k; }
        let _ = (r.contains_key(k), a.contains_key(k));
    }
}
impl<T: Merge> Merge for MethodRouter<T> {
    open spec fn merged(self, o: Self, r: Self) -> bool { union(self.handlers@, o.handlers@, r.handlers@, |x: T, y: T, z: T| x.merged(y, z)) }
//@fn src/handler/method_router.rs MethodRouter<T> Merge merge
//@sig fn merge(&mut self, other: MethodRouter<T>)
//@attr #[verifier::loop_isolation(false)]
//@at entry
    broadcast use axiom_map_items;
//@at loop 0 init
    let ghost all = vx_it0@;
    let ghost mut k: int = 0;
//@at loop 0 spec
    invariant 0 <= k <= all.len(), vx_it0@ == all.skip(k), union_done(old(self).handlers@, all, k, self.handlers@, |x: T, y: T, z: T| x.merged(y, z)),
//@at loop 0 start
    proof { assert(all[k] == (method, handler)); k = k + 1; }
//@at loop 0 exit
    proof { lemma_union_done(old(self).handlers@, other.handlers, self.handlers@, |x: T, y: T, z: T| x.merged(y, z)); }
//@end
}
impl<T: Merge> Merge for StatusRouter<T> {
    open spec fn merged(self, o: Self, r: Self) -> bool { union(self.handlers@, o.handlers@, r.handlers@, |x: T, y: T, z: T| x.merged(y, z)) }
//@fn src/handler/status_router.rs StatusRouter<T> Merge merge
//@sig fn merge(&mut self, other: StatusRouter<T>)
//@attr #[verifier::loop_isolation(false)]
//@at entry
    broadcast use axiom_map_items;
//@at loop 0 init
    let ghost all = vx_it0@;
    let ghost mut k: int = 0;
//@at loop 0 spec
    invariant 0 <= k <= all.len(), vx_it0@ == all.skip(k), union_done(old(self).handlers@, all, k, self.handlers@, |x: T, y: T, z: T| x.merged(y, z)),
//@at loop 0 start
    proof { assert(all[k] == (status, handler)); k = k + 1; }
//@at loop 0 exit
    proof { lemma_union_done(old(self).handlers@, other.handlers, self.handlers@, |x: T, y: T, z: T| x.merged(y, z)); }
//@end
}
impl<T: Merge> Merge for Variables<T> {
    open spec fn merged(self, o: Self, r: Self) -> bool { r.variables == o.variables && self.handler.merged(o.handler, r.handler) }
//@fn src/handler/variables.rs Variables<T> Merge merge
//@sig fn merge(&mut self, other: Variables<T>)
//@end
}
impl<A: Merge, B: Merge> Merge for OrElse<A, B> {
    open spec fn merged(self, o: Self, r: Self) -> bool { self.primary.merged(o.primary, r.primary) && self.secondary.merged(o.secondary, r.secondary) }
//@fn src/handler/or_else.rs OrElse<A,B> Merge merge
//@sig fn merge(&mut self, other: OrElse<A, B>)
//@end
}
impl<T: Merge> Merge for Option<T> {
    open spec fn merged(self, o: Self, r: Self) -> bool { match (self, o) { (Some(x), Some(y)) => r matches Some(z) && x.merged(y, z), (Some(_), None) => r == self, (None, _) => r == o } }
//@fn src/handler/mod.rs Option<T> Merge merge
//@sig fn merge(&mut self, other: Option<T>)
//@end
}
impl<T: CreateContent> Merge for ContentFactory<T> {
    open spec fn merged(self, o: Self, r: Self) -> bool { r == o }
//@fn src/handler/mod.rs ContentFactory<T> Merge merge
//@sig fn merge(&mut self, other: ContentFactory<T>)
//@end
}
impl<T: Handler> Merge for T {
    open spec fn merged(self, o: Self, r: Self) -> bool { r == o }
//@fn src/handler/mod.rs T Merge merge
//@sig fn merge(&mut self, other: T)
//@end
}
// ---------------------------------------------------------------- builders (P05)
pub trait VxDefault: Sized { spec fn dflt(r: Self) -> bool; fn default() -> (r: Self) ensures Self::dflt(r); }
pub trait FromHandler<H>: Sized { spec fn made(c: Ctx, h: H, r: Self) -> bool; fn from_handler(context: BuilderContext, handler: H) -> (r: Self) ensures Self::made(context@, handler, r); }
/// A builder for something, that has the value `cur` now and will be left with the value `fin`.
pub trait Build<'a>: Sized {
    type Builder: 'a;
    #[verifier::prophetic] spec fn built(cur: Self, fin: Self, c: Ctx, b: Self::Builder) -> bool;
    fn get_builder(&'a mut self, context: BuilderContext) -> (r: Self::Builder) ensures Self::built(*old(self), *final(self), context@, r);
}
/// A closure without arguments (given to find_or_insert_router), as a value.
pub trait Thunk<T>: Sized {
    #[verifier::prophetic] spec fn ready(self) -> bool;
    #[verifier::prophetic] spec fn gave(self, r: T) -> bool;
    #[verifier::prophetic] spec fn unused(self) -> bool;
    fn vx_call(self) -> (r: T) requires self.ready() ensures self.gave(r);
    proof fn dropped(self) requires has_resolved(self) ensures self.unused();
}
// ---- std: Cow
pub trait VxToOwned { type Owned; }
impl VxToOwned for [MaybeUtf8Owned] { type Owned = Vec<MaybeUtf8Owned>; }
impl VxToOwned for BuilderContext { type Owned = BuilderContext; }
pub enum Cow<'a, B: VxToOwned + ?Sized> { Borrowed(&'a B), Owned(B::Owned) }
impl<'a> Cow<'a, [MaybeUtf8Owned]> {
    pub open spec fn names(self) -> Seq<Seq<u8>> { match self { Cow::Borrowed(b) => names_of(b@), Cow::Owned(v) => names_of(v@) } }
    #[verifier::external_body] pub fn into_owned(self) -> (r: Vec<MaybeUtf8Owned>) ensures names_of(r@) == self.names() { unimplemented!() }
    #[verifier::external_body] pub fn to_mut(&mut self) -> (r: &mut Vec<MaybeUtf8Owned>) ensures names_of(r@) == old(self).names(), final(self).names() == names_of(final(r)@) { unimplemented!() }
    #[verifier::external_body] pub fn vx_clone(&self) -> (r: Self) ensures r.names() == self.names() { unimplemented!() }
}
impl<'a> Cow<'a, BuilderContext> {
    pub open spec fn ctx(self) -> Ctx { match self { Cow::Borrowed(b) => b@, Cow::Owned(v) => v@ } }
    #[verifier::external_body] pub fn into_owned(self) -> (r: BuilderContext) ensures r@ == self.ctx() { unimplemented!() }
    #[verifier::external_body] pub fn vx_clone(&self) -> (r: Self) ensures r.ctx() == self.ctx() { unimplemented!() }
}
pub broadcast proof fn lemma_push(v: Seq<MaybeUtf8Owned>, x: MaybeUtf8Owned) ensures #[trigger] names_of(v.push(x)) == names_of(v).push(x.bytes()) { assert(names_of(v.push(x)) =~= names_of(v).push(x.bytes())); }
// ---- std: slices
pub trait VxSlice {
    spec fn s(&self) -> Seq<u8>;
    fn vx_starts(&self, p: &[u8; 1]) -> (r: bool) ensures r == (self.s().len() > 0 && self.s()[0] == p@[0]);
    fn vx_from(&self, n: usize) -> (r: &[u8]) requires n <= self.s().len() ensures r@ == self.s().skip(n as int);
    fn vx_at(&self, n: usize) -> (r: Option<&u8>) ensures match r { Some(x) => n < self.s().len() && *x == self.s()[n as int], None => n >= self.s().len() };
    fn vx_to_owned(&self) -> (r: Vec<u8>) ensures r@ == self.s();
    fn vx_first(&self) -> (r: Option<&u8>) ensures match r { Some(x) => 0 < self.s().len() && *x == self.s()[0], None => self.s().len() == 0 };
}
impl VxSlice for [u8] {
    open spec fn s(&self) -> Seq<u8> { self@ }
    #[verifier::external_body] fn vx_starts(&self, p: &[u8; 1]) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn vx_from(&self, n: usize) -> (r: &[u8]) { unimplemented!() }
    #[verifier::external_body] fn vx_at(&self, n: usize) -> (r: Option<&u8>) { unimplemented!() }
    #[verifier::external_body] fn vx_to_owned(&self) -> (r: Vec<u8>) { unimplemented!() }
    #[verifier::external_body] fn vx_first(&self) -> (r: Option<&u8>) { unimplemented!() }
}
pub trait VInto<T>: Sized { spec fn gives(self, r: T) -> bool; fn vx_into(self) -> (r: T) ensures self.gives(r); }
/// verified in unit maybe
impl VInto<MaybeUtf8Owned> for Vec<u8> { open spec fn gives(self, r: MaybeUtf8Owned) -> bool { r.bytes() == self@ } #[verifier::external_body] fn vx_into(self) -> (r: MaybeUtf8Owned) { unimplemented!() } }
pub trait AsBytes { spec fn bs(&self) -> Seq<u8>; fn as_ref(&self) -> (r: &[u8]) ensures r@ == self.bs(); }
/// verified in unit segments
pub trait Segments { fn segments(&self) -> VIter<&[u8]>; }
impl Segments for [u8] { #[verifier::external_body] fn segments(&self) -> (r: VIter<&[u8]>) ensures views(r@) == segments_of(self@) { unimplemented!() } }
impl<'a> VIter<&'a [u8]> { pub fn next(&mut self) -> (r: Option<&'a [u8]>)
        ensures match r { Some(x) => old(self)@.len() > 0 && x == old(self)@[0] && final(self)@ == old(self)@.skip(1), None => old(self)@.len() == 0 && final(self)@ == old(self)@ } { self.vx_next() } }

//@gtok b":" => &[b':']
//@gtok b"*" => &[b'*']
//@gmethod starts_with => vx_starts
//@gmethod get => vx_at
//@gmethod to_owned => vx_to_owned
//@gmethod first => vx_first
//@gmethod into => vx_into
// ---------------------------------------------------------------- where a path leads
/// The kind of place that a segment names.
pub open spec fn step(s: Seq<u8>) -> Step { if s.len() > 0 && s[0] == 0x2a { Step::Wildcard } else if s.len() > 0 && s[0] == 0x3a { Step::Variable } else { Step::Fixed(s) } }
pub open spec fn steps(segs: Seq<Seq<u8>>) -> Seq<Step> { Seq::new(segs.len(), |i: int| step(segs[i])) }
/// The names of the variables, with that of another segment.
pub open spec fn more(names: Seq<Seq<u8>>, s: Seq<u8>) -> Seq<Seq<u8>> { match step(s) { Step::Fixed(_) => names, _ => names.push(s.skip(1)) } }
pub open spec fn all_names(names: Seq<Seq<u8>>, segs: Seq<Seq<u8>>) -> Seq<Seq<u8>> decreases segs.len() { if segs.len() == 0 { names } else { all_names(more(names, segs[0]), segs.skip(1)) } }
pub proof fn lemma_names(names: Seq<Seq<u8>>, segs: Seq<Seq<u8>>, s: Seq<u8>)
    ensures all_names(names, segs.push(s)) == more(all_names(names, segs), s)
    decreases segs.len()
{
    reveal_with_fuel(all_names, 2);
    if segs.len() > 0 { lemma_names(more(names, segs[0]), segs.skip(1), s); assert(segs.push(s).skip(1) =~= segs.skip(1).push(s)); }
    else { assert(segs.push(s).skip(1) =~= Seq::empty()); }
}
pub open spec fn leaf<T>(n: TreeRouter<T>) -> bool { n.static_routes@ == Map::<Seq<u8>, TreeRouter<T>>::empty() && n.variable_route is None && n.wildcard_route is None && !n.find_hyperlinks }
/// `r` is `a` with the child `n` at `s`; nothing else is different.
pub open spec fn grafted<T>(a: TreeRouter<T>, s: Step, n: TreeRouter<T>, r: TreeRouter<T>) -> bool {
    r.item == a.item && r.find_hyperlinks == a.find_hyperlinks && forall|q: Step| #[trigger] child(r, q) == (if q == s { Some(n) } else { child(a, q) })
}
pub open spec fn new_item<T: VxDefault + ApplyContext>(names: Seq<Seq<u8>>, rest: Rest, x: T) -> bool { exists|d: T| T::dflt(d) && #[trigger] d.applied(Ctx { names: Some(names), rest }, x) }
/// What's already there, or a new node.
pub open spec fn found<T: VxDefault + ApplyContext>(a: Option<TreeRouter<T>>, names: Seq<Seq<u8>>, rest: Rest, n: TreeRouter<T>) -> bool {
    match a { Some(x) => n == x, None => leaf(n) && new_item(names, rest, n.item) }
}
/// The tree `r` is the tree `a`, where the nodes along `segs` exist, and the last of them (found as `n`) is now `f`.
pub open spec fn grown<T: VxDefault + ApplyContext>(a: Option<TreeRouter<T>>, segs: Seq<Seq<u8>>, names: Seq<Seq<u8>>, rest: Rest, n: TreeRouter<T>, f: TreeRouter<T>, r: TreeRouter<T>) -> bool
    decreases segs.len()
{
    if segs.len() == 0 { found(a, names, rest, n) && f == r }
    else { exists|x: TreeRouter<T>, c: TreeRouter<T>| found(a, names, rest, x) && grown(child(x, step(segs[0])), segs.skip(1), more(names, segs[0]), rest, n, f, c) && #[trigger] grafted(x, step(segs[0]), c, r) }
}
pub proof fn lemma_grown<T: VxDefault + ApplyContext>(a: Option<TreeRouter<T>>, segs: Seq<Seq<u8>>, names: Seq<Seq<u8>>, rest: Rest, m: TreeRouter<T>, mf: TreeRouter<T>, r: TreeRouter<T>, s: Seq<u8>, n: TreeRouter<T>, nf: TreeRouter<T>)
    requires grown(a, segs, names, rest, m, mf, r), found(child(m, step(s)), more(all_names(names, segs), s), rest, n), grafted(m, step(s), nf, mf),
    ensures grown(a, segs.push(s), names, rest, n, nf, r),
    decreases segs.len(),
{
    if segs.len() == 0 {
        assert(segs.push(s).skip(1) =~= Seq::empty());
        assert(grown(child(m, step(s)), segs.push(s).skip(1), more(names, s), rest, n, nf, nf));
        assert(grafted(m, step(segs.push(s)[0]), nf, r));
    } else {
        let (x, c) = choose|x: TreeRouter<T>, c: TreeRouter<T>| found(a, names, rest, x) && grown(child(x, step(segs[0])), segs.skip(1), more(names, segs[0]), rest, m, mf, c) && #[trigger] grafted(x, step(segs[0]), c, r);
        lemma_grown(child(x, step(segs[0])), segs.skip(1), more(names, segs[0]), rest, m, mf, c, s, n, nf);
        assert(segs.push(s).skip(1) =~= segs.skip(1).push(s));
        assert(grafted(x, step(segs.push(s)[0]), c, r));
    }
}
impl<T> TreeRouter<T> {
//@fn src/handler/tree_router.rs TreeRouter<T> - with_handler
//@sig pub fn with_handler(handler: T) -> (r: TreeRouter<T>)
//@spec
    ensures r.item == handler, leaf(r)
//@end
//@fn src/handler/tree_router.rs TreeRouter<T> - find_or_insert_router
//@sig pub fn find_or_insert_router<'a, F: Thunk<T>>(&'a mut self, key: &[u8], create_handler: F) -> (r: &'a mut TreeRouter<T>)
//@tok create_handler ( ) => create_handler.vx_call()
//@spec
    requires create_handler.ready()
    ensures match child(*old(self), step(key@)) { Some(n) => *r == n && create_handler.unused(), None => leaf(*r) && create_handler.gave(r.item) },
        grafted(*old(self), step(key@), *final(r), *final(self)),
//@at return
    proof { if child(*old(self), step(key@)) is Some { assert(has_resolved(create_handler)); create_handler.dropped(); } }
//@end
}
//@item src/handler/tree_router.rs Builder
//@tok struct Builder => struct TreeBuilder
//@end
/// the closure in path and on_path
pub struct NewItem<'x, 'a> { pub context: &'x Cow<'a, BuilderContext>, pub variables: &'x Cow<'a, [MaybeUtf8Owned]> }
impl<'x, 'a, T: VxDefault + ApplyContext> Thunk<T> for NewItem<'x, 'a> {
    open spec fn ready(self) -> bool { true }
    open spec fn gave(self, r: T) -> bool { new_item(self.variables.names(), self.context.ctx().rest, r) }
    open spec fn unused(self) -> bool { true }
//@fn src/handler/tree_router.rs Builder<'a,T> - path/find_or_insert_router
//@sig fn vx_call(self) -> (r: T)
//@at entry
    let context = self.context;
    let variables = self.variables;
//@end
    proof fn dropped(self) {}
}
/// the closure in on_path
pub struct NewItemToo<'x, 'a> { pub context: &'x Cow<'a, BuilderContext>, pub variables: &'x Cow<'a, [MaybeUtf8Owned]> }
impl<'x, 'a, T: VxDefault + ApplyContext> Thunk<T> for NewItemToo<'x, 'a> {
    open spec fn ready(self) -> bool { true }
    open spec fn gave(self, r: T) -> bool { new_item(self.variables.names(), self.context.ctx().rest, r) }
    open spec fn unused(self) -> bool { true }
//@fn src/handler/tree_router.rs Builder<'a,T> - on_path/find_or_insert_router
//@sig fn vx_call(self) -> (r: T)
//@at entry
    let context = self.context;
    let variables = self.variables;
//@end
    proof fn dropped(self) {}
}
impl<'a, T: VxDefault + ApplyContext> TreeBuilder<'a, T> {
//@fn src/handler/tree_router.rs Builder<'a,T> - path
//@sig pub fn path<'b, S: AsBytes>(&'b mut self, path: S) -> (r: TreeBuilder<'b, T>)
//@attr #[verifier::loop_isolation(false)]
//@opt lift find_or_insert_router NewItem{context:&context,variables:&variables}
//@opt ranges
//@tok Builder => TreeBuilder
//@spec
    ensures grown(Some(*old(self).node), segments_of(path.bs()), old(self).variables.names(), old(self).context.ctx().rest, *r.node, *final(r.node), *final(self).node),
        r.variables.names() == all_names(old(self).variables.names(), segments_of(path.bs())), r.context.ctx() == old(self).context.ctx(),
        *final(final(self).node) == *final(old(self).node), final(self).variables == old(self).variables, final(self).context == old(self).context,
//@at entry
    broadcast use lemma_push;
    let ghost root = *self.node;
//@at loop 0 init
    let ghost all = vx_it0@;
    let ghost segs = views(all);
    let ghost names = self.variables.names();
    let ghost rest = context.ctx().rest;
    let ghost mut k: int = 0;
    proof { assert(segs.take(0) =~= Seq::empty()); }
//@at loop 0 spec
    invariant 0 <= k <= all.len(), vx_it0@ == all.skip(k), variables.names() == all_names(names, segs.take(k)), context.ctx().rest == rest,
        grown(Some(root), segs.take(k), names, rest, *vx_c1, *final(vx_c1), *after_borrow(self.node)),
//@at loop 0 start
    let ghost m = vx_c1;
    proof { lemma_names(names, segs.take(k), segs[k]); assert(segs.take(k + 1) =~= segs.take(k).push(segs[k])); }
//@at loop 0 end
    proof { lemma_grown(Some(root), segs.take(k), names, rest, *m, *final(m), *after_borrow(self.node), segs[k], *vx_c1, *final(vx_c1)); k = k + 1; }
//@at loop 0 exit
    proof { assert(segs.take(k) =~= segs); }
//@end
//@fn src/handler/tree_router.rs Builder<'a,T> - on_path
//@sig pub fn on_path<'b, S: AsBytes, H>(&'b mut self, path: S, handler: H) -> (r: TreeBuilder<'b, T>) where T: FromHandler<H>
//@attr #[verifier::loop_isolation(false)]
//@opt lift find_or_insert_router NewItemToo{context:&context,variables:&variables}
//@opt ranges
//@tok Builder => TreeBuilder
//@spec
    ensures exists|n: TreeRouter<T>| #[trigger] grown(Some(*old(self).node), segments_of(path.bs()), old(self).variables.names(), old(self).context.ctx().rest, n, *final(r.node), *final(self).node)
            && *r.node == (TreeRouter { item: r.node.item, ..n }),
        T::made(Ctx { names: Some(all_names(old(self).variables.names(), segments_of(path.bs()))), rest: old(self).context.ctx().rest }, handler, r.node.item),
        r.variables.names() == all_names(old(self).variables.names(), segments_of(path.bs())), r.context.ctx() == old(self).context.ctx(),
        *final(final(self).node) == *final(old(self).node), final(self).variables == old(self).variables, final(self).context == old(self).context,
//@at entry
    broadcast use lemma_push;
    let ghost root = *self.node;
//@at loop 0 init
    let ghost all = vx_it0@;
    let ghost segs = views(all);
    let ghost names = self.variables.names();
    let ghost rest = context.ctx().rest;
    let ghost mut k: int = 0;
    proof { assert(segs.take(0) =~= Seq::empty()); }
//@at loop 0 spec
    invariant 0 <= k <= all.len(), vx_it0@ == all.skip(k), variables.names() == all_names(names, segs.take(k)), context.ctx().rest == rest,
        grown(Some(root), segs.take(k), names, rest, *vx_c1, *final(vx_c1), *after_borrow(self.node)),
//@at loop 0 start
    let ghost m = vx_c1;
    proof { lemma_names(names, segs.take(k), segs[k]); assert(segs.take(k + 1) =~= segs.take(k).push(segs[k])); }
//@at loop 0 end
    proof { lemma_grown(Some(root), segs.take(k), names, rest, *m, *final(m), *after_borrow(self.node), segs[k], *vx_c1, *final(vx_c1)); k = k + 1; }
//@at loop 0 exit
    proof { assert(segs.take(k) =~= segs); }
//@at before node . item =
    let ghost n = *node;
//@end
}
/// the closure in on_route
pub struct Prepared<'x, T> { pub item: &'x mut Option<T> }
/// what dropping a reference in a structure means
pub axiom fn axiom_dropped<'x, T>(p: Prepared<'x, T>) requires has_resolved(p) ensures *final(p.item) == *old(p.item);
impl<'x, T> Thunk<T> for Prepared<'x, T> {
    #[verifier::prophetic] open spec fn ready(self) -> bool { *self.item is Some }
    #[verifier::prophetic] open spec fn gave(self, r: T) -> bool { *self.item == Some(r) && *final(self.item) is None }
    #[verifier::prophetic] open spec fn unused(self) -> bool { *final(self.item) == *self.item }
//@fn src/handler/tree_router.rs Builder<'a,T> - on_route/find_or_insert_router
//@sig fn vx_call(self) -> (r: T)
//@at entry
    let item = self.item;
//@end
    proof fn dropped(self) { axiom_dropped(self); }
}
/// The node at `ss` was `n` and is now `f`; nothing else is different.
pub open spec fn replaced<T>(a: TreeRouter<T>, ss: Seq<Step>, n: TreeRouter<T>, f: TreeRouter<T>, r: TreeRouter<T>) -> bool
    decreases ss.len()
{
    if ss.len() == 0 { n == a && f == r }
    else { child(a, ss[0]) is Some && exists|c: TreeRouter<T>| replaced(child(a, ss[0])->0, ss.skip(1), n, f, c) && #[trigger] grafted(a, ss[0], c, r) }
}
pub proof fn lemma_replaced<T>(a: TreeRouter<T>, ss: Seq<Step>, m: TreeRouter<T>, mf: TreeRouter<T>, r: TreeRouter<T>, s: Step, n: TreeRouter<T>, nf: TreeRouter<T>)
    requires replaced(a, ss, m, mf, r), child(m, s) == Some(n), grafted(m, s, nf, mf),
    ensures replaced(a, ss.push(s), n, nf, r),
    decreases ss.len(),
{
    if ss.len() == 0 {
        assert(ss.push(s).skip(1) =~= Seq::empty());
        assert(child(a, ss.push(s)[0]) == Some(n)); assert(replaced(n, ss.push(s).skip(1), n, nf, nf));
        assert(grafted(a, ss.push(s)[0], nf, r));
    } else {
        let x = child(a, ss[0])->0; let c = choose|c: TreeRouter<T>| replaced(x, ss.skip(1), m, mf, c) && #[trigger] grafted(a, ss[0], c, r);
        lemma_replaced(x, ss.skip(1), m, mf, c, s, n, nf);
        assert(ss.push(s).skip(1) =~= ss.skip(1).push(s));
        assert(replaced(x, ss.push(s).skip(1), n, nf, c));
        assert(grafted(a, ss.push(s)[0], c, r));
    }
}
pub proof fn lemma_replaced_at<T>(a: TreeRouter<T>, ss: Seq<Step>, n: TreeRouter<T>, f: TreeRouter<T>, r: TreeRouter<T>)
    requires replaced(a, ss, n, f, r),
    ensures at(Some(a), ss) == Some(n), at(Some(r), ss) == Some(f),
    decreases ss.len(),
{
    if ss.len() > 0 {
        let x = child(a, ss[0])->0; let c = choose|c: TreeRouter<T>| replaced(x, ss.skip(1), n, f, c) && #[trigger] grafted(a, ss[0], c, r);
        lemma_replaced_at(x, ss.skip(1), n, f, c);
    }
}
/// Nothing is different.
pub open spec fn alike<T>(a: TreeRouter<T>, r: TreeRouter<T>) -> bool { each(Some(a), Some(r), |x: T, y: T| x == y) && a.find_hyperlinks == r.find_hyperlinks }
pub proof fn lemma_alike<T>(a: Option<TreeRouter<T>>) ensures each(a, a, |x: T, y: T| x == y) {}
pub proof fn lemma_replaced_alike<T>(a: TreeRouter<T>, ss: Seq<Step>, n: TreeRouter<T>, r: TreeRouter<T>)
    requires replaced(a, ss, n, n, r),
    ensures alike(a, r),
    decreases ss.len(),
{
    let rel = |x: T, y: T| x == y;
    if ss.len() > 0 {
        let x = child(a, ss[0])->0; let c = choose|c: TreeRouter<T>| replaced(x, ss.skip(1), n, n, c) && #[trigger] grafted(a, ss[0], c, r);
        lemma_replaced_alike(x, ss.skip(1), n, c);
        assert forall|s: Step| each(#[trigger] child(a, s), child(r, s), rel) by { lemma_alike(child(a, s)); }
        lemma_each(a, r, rel);
    } else { lemma_alike(Some(a)); }
}
pub proof fn lemma_at_more<T>(a: Option<TreeRouter<T>>, ss: Seq<Step>, s: Step)
    ensures at(a, ss.push(s)) == (match at(a, ss) { Some(n) => child(n, s), None => None }),
    decreases ss.len(),
{
    if ss.len() > 0 { if let Some(x) = a { lemma_at_more(child(x, ss[0]), ss.skip(1), s); assert(ss.push(s).skip(1) =~= ss.skip(1).push(s)); } }
    else { if let Some(x) = a { assert(ss.push(s).skip(1) =~= Seq::empty()); assert(at(child(x, s), ss.push(s).skip(1)) == child(x, s)); } }
}
impl<'a, T> TreeBuilder<'a, T> {
//@fn src/handler/tree_router.rs Builder<'a,T> - handler
//@sig pub fn handler<'b, H>(&'b mut self, handler: H) -> (r: TreeBuilder<'b, T>) where T: FromHandler<H>
//@tok Builder => TreeBuilder
//@spec
    ensures *r.node == (TreeRouter { item: r.node.item, ..*old(self).node }), *final(r.node) == *final(self).node,
        T::made(Ctx { names: Some(old(self).variables.names()), rest: old(self).context.ctx().rest }, handler, r.node.item),
        r.variables.names() == old(self).variables.names(), r.context.ctx() == old(self).context.ctx(),
        *final(final(self).node) == *final(old(self).node), final(self).variables == old(self).variables, final(self).context == old(self).context,
//@end
//@fn src/handler/tree_router.rs Builder<'a,T> - on_route
//@sig pub fn on_route<'b, S: AsBytes, H>(&'b mut self, vx_label: S, handler: H) -> (r: TreeBuilder<'b, T>) where T: FromHandler<H>
//@opt lift find_or_insert_router Prepared{item:&mut item}
//@opt ranges
//@tok Builder => TreeBuilder
//@spec
    requires segments_of(vx_label.bs()).len() <= 1
    ensures ({
        let segs = segments_of(vx_label.bs());
        &&& segs.len() == 0 ==> *r.node == (TreeRouter { item: r.node.item, ..*old(self).node }) && *final(r.node) == *final(self).node
        &&& segs.len() == 1 ==> grafted(*old(self).node, step(segs[0]), *final(r.node), *final(self).node)
                && match child(*old(self).node, step(segs[0])) { Some(n) => *r.node == (TreeRouter { item: r.node.item, ..n }), None => leaf(*r.node) }
        &&& T::made(Ctx { names: Some(all_names(old(self).variables.names(), segs)), rest: old(self).context.ctx().rest }, handler, r.node.item)
        &&& r.variables.names() == all_names(old(self).variables.names(), segs)
    }),
        r.context.ctx() == old(self).context.ctx(),
        *final(final(self).node) == *final(old(self).node), final(self).variables == old(self).variables, final(self).context == old(self).context,
//@at entry
    broadcast use lemma_push;
    proof { reveal_with_fuel(all_names, 2); }
    let label = vx_label;
//@end
//@fn src/handler/tree_router.rs Builder<'a,T> - get_path
//@sig pub fn get_path<'b, S: AsBytes>(&'b mut self, path: S) -> (r: Option<TreeBuilder<'b, T>>)
//@attr #[verifier::loop_isolation(false)]
//@opt ranges
//@tok Builder => TreeBuilder
//@spec
    ensures match r {
            Some(b) => replaced(*old(self).node, steps(segments_of(path.bs())), *b.node, *final(b.node), *final(self).node)
                && b.variables.names() == all_names(old(self).variables.names(), segments_of(path.bs())) && b.context.ctx() == old(self).context.ctx(),
            None => at(Some(*old(self).node), steps(segments_of(path.bs()))) is None && alike(*old(self).node, *final(self).node),
        },
        *final(final(self).node) == *final(old(self).node), final(self).variables == old(self).variables, final(self).context == old(self).context,
//@at entry
    broadcast use lemma_push;
    let ghost root = *self.node;
//@at loop 0 init
    let ghost all = vx_it0@;
    let ghost segs = views(all);
    let ghost names = self.variables.names();
    let ghost mut k: int = 0;
    proof { assert(segs.take(0) =~= Seq::empty()); assert(steps(segs.take(0)) =~= Seq::empty()); }
//@at loop 0 spec
    invariant 0 <= k <= all.len(), vx_it0@ == all.skip(k),
        match vx_c1 {
            Some(n) => replaced(root, steps(segs.take(k)), *n, *final(n), *after_borrow(self.node)) && variables.names() == all_names(names, segs.take(k)),
            None => at(Some(root), steps(segs.take(k))) is None && alike(root, *after_borrow(self.node)),
        },
//@at loop 0 start
    let ghost m = vx_c1;
    proof { lemma_names(names, segs.take(k), segs[k]); assert(segs.take(k + 1) =~= segs.take(k).push(segs[k])); assert(steps(segs.take(k + 1)) =~= steps(segs.take(k)).push(step(segs[k]))); lemma_at_more(Some(root), steps(segs.take(k)), step(segs[k])); }
//@at loop 0 end
    let ghost m2 = vx_c1;
    proof {
        if let Some(x) = m {
            if let Some(y) = m2 {
                lemma_replaced(root, steps(segs.take(k)), *x, *final(x), *after_borrow(self.node), step(segs[k]), *y, *final(y));
            } else {
                assert(child(*x, step(segs[k])) is None);
                assert(*final(x) == *x);
                lemma_replaced_at(root, steps(segs.take(k)), *x, *final(x), *after_borrow(self.node));
                lemma_replaced_alike(root, steps(segs.take(k)), *x, *after_borrow(self.node));
            }
        }
        k = k + 1;
    }
//@at loop 0 exit
    proof { assert(segs.take(k) =~= segs); }
//@end
}
// ---------------------------------------------------------------- defaults and handlers
pub broadcast proof fn lemma_no_names(v: Seq<MaybeUtf8Owned>) requires v.len() == 0 ensures #[trigger] names_of(v) == Seq::<Seq<u8>>::empty() { assert(names_of(v) =~= Seq::empty()); }
impl<T: VxDefault> VxDefault for TreeRouter<T> {
    open spec fn dflt(r: Self) -> bool { leaf(r) && T::dflt(r.item) }
//@fn src/handler/tree_router.rs TreeRouter<T> Default default
//@sig fn default() -> (r: TreeRouter<T>)
//@end
}
impl<T: VxDefault> TreeRouter<T> {
//@fn src/handler/tree_router.rs TreeRouter<T> - new
//@sig pub fn new() -> (r: TreeRouter<T>)
//@spec
    ensures leaf(r) && T::dflt(r.item)
//@end
}
impl<T> VxDefault for MethodRouter<T> {
    open spec fn dflt(r: Self) -> bool { r.handlers@ == Map::<MethodV, T>::empty() }
//@fn src/handler/method_router.rs MethodRouter<T> Default default
//@sig fn default() -> (r: MethodRouter<T>)
//@end
}
impl<T> VxDefault for StatusRouter<T> {
    open spec fn dflt(r: Self) -> bool { r.handlers@ == Map::<StatusCode, T>::empty() }
//@fn src/handler/status_router.rs StatusRouter<T> Default default
//@sig fn default() -> (r: StatusRouter<T>)
//@end
}
impl<H: VxDefault> VxDefault for Variables<H> {
    open spec fn dflt(r: Self) -> bool { H::dflt(r.handler) && r.variables@.len() == 0 }
//@fn src/handler/variables.rs Variables<H> Default default
//@sig fn default() -> (r: Variables<H>)
//@end
}
impl<A: VxDefault, B: VxDefault> VxDefault for OrElse<A, B> {
    open spec fn dflt(r: Self) -> bool { A::dflt(r.primary) && B::dflt(r.secondary) }
//@fn src/handler/or_else.rs OrElse<A,B> Default default
//@sig fn default() -> (r: OrElse<A, B>)
//@end
}
impl<T: FromHandler<H>, H> FromHandler<H> for TreeRouter<T> {
    open spec fn made(c: Ctx, h: H, r: Self) -> bool { leaf(r) && T::made(c, h, r.item) }
//@fn src/handler/tree_router.rs TreeRouter<T> FromHandler<H> from_handler
//@sig fn from_handler(context: BuilderContext, handler: H) -> (r: TreeRouter<T>)
//@end
}
impl<T: FromHandler<H>, H> FromHandler<H> for Variables<T> {
    open spec fn made(c: Ctx, h: H, r: Self) -> bool { names_of(r.variables@) == (match c.names { Some(n) => n, None => Seq::empty() }) && T::made(no_names(c), h, r.handler) }
//@fn src/handler/variables.rs Variables<T> FromHandler<H> from_handler
//@sig fn from_handler(vx_context: BuilderContext, handler: H) -> (r: Variables<T>)
//@at entry
    broadcast use lemma_no_names;
    let mut context = vx_context;
//@end
}
impl<T: FromHandler<H>, H> FromHandler<H> for Option<T> {
    open spec fn made(c: Ctx, h: H, r: Self) -> bool { r matches Some(x) && T::made(c, h, x) }
//@fn src/handler/mod.rs Option<T> FromHandler<H> from_handler
//@sig fn from_handler(context: BuilderContext, handler: H) -> (r: Option<T>)
//@end
}
impl<T: CreateContent, H: VInto<ContentFactory<T>>> FromHandler<H> for ContentFactory<T> {
    open spec fn made(c: Ctx, h: H, r: Self) -> bool { h.gives(r) }
//@fn src/handler/mod.rs ContentFactory<T> FromHandler<H> from_handler
//@sig fn from_handler(_context: BuilderContext, handler: H) -> (r: ContentFactory<T>)
//@end
}
impl<T: Handler> FromHandler<T> for T {
    open spec fn made(c: Ctx, h: T, r: Self) -> bool { r == h }
//@fn src/handler/mod.rs T FromHandler<T> from_handler
//@sig fn from_handler(_context: BuilderContext, handler: T) -> (r: T)
//@end
}
// ---------------------------------------------------------------- builders of builders
impl<'a, T: 'a> Build<'a> for TreeRouter<T> {
    type Builder = TreeBuilder<'a, T>;
    #[verifier::prophetic] open spec fn built(cur: Self, fin: Self, c: Ctx, b: TreeBuilder<'a, T>) -> bool {
        *b.node == cur && *final(b.node) == fin && b.variables.names() == (match c.names { Some(n) => n, None => Seq::empty() }) && b.context.ctx() == no_names(c)
    }
//@fn src/handler/tree_router.rs TreeRouter<T> Build<'a> get_builder
//@sig fn get_builder(&'a mut self, vx_context: BuilderContext) -> (r: TreeBuilder<'a, T>)
//@tok Builder => TreeBuilder
//@at entry
    broadcast use lemma_no_names;
    let mut context = vx_context;
//@end
}
impl<T> TreeRouter<T> {
//@fn src/handler/tree_router.rs TreeRouter<T> - build
//@sig pub fn build<'a>(&'a mut self) -> (r: TreeBuilder<'a, T>)
//@spec
    ensures *r.node == *old(self), *final(r.node) == *final(self), r.variables.names() == Seq::<Seq<u8>>::empty(), r.context.ctx() == (Ctx { names: None, rest: no_rest() })
//@end
}
impl<'a: 'b, 'b, T: Build<'b>> TreeBuilder<'a, T> {
//@fn src/handler/tree_router.rs Builder<'a,T> - then
//@sig pub fn then(&'b mut self) -> (r: T::Builder)
//@spec
    ensures exists|fin: T| #[trigger] T::built(old(self).node.item, fin, Ctx { names: Some(old(self).variables.names()), rest: old(self).context.ctx().rest }, r)
            && *final(self).node == (TreeRouter { item: fin, ..*old(self).node }),
        *final(final(self).node) == *final(old(self).node), final(self).variables == old(self).variables, final(self).context == old(self).context,
//@end
}
impl<'a, T: Merge + ApplyContext> TreeBuilder<'a, T> {
//@fn src/handler/tree_router.rs Builder<'a,T> - merge
//@sig pub fn merge(&mut self, vx_other: TreeRouter<T>) -> (r: &mut TreeBuilder<'a, T>)
//@spec
    ensures exists|o: TreeRouter<T>| #[trigger] vx_other.applied(Ctx { names: Some(old(self).variables.names()), rest: old(self).context.ctx().rest }, o) && old(self).node.merged(o, *r.node),
        *final(r.node) == *final(old(self).node), r.variables == old(self).variables, r.context == old(self).context, *final(self) == *final(r),
//@at entry
    let mut other = vx_other;
//@end
}
//@item src/handler/method_router.rs Builder
//@tok struct Builder => struct MethodBuilder
//@end
impl<'a, T: 'a> Build<'a> for MethodRouter<T> {
    type Builder = MethodBuilder<'a, T>;
    #[verifier::prophetic] open spec fn built(cur: Self, fin: Self, c: Ctx, b: MethodBuilder<'a, T>) -> bool { *b.router == cur && *final(b.router) == fin && b.context@ == c }
//@fn src/handler/method_router.rs MethodRouter<T> Build<'a> get_builder
//@sig fn get_builder(&'a mut self, context: BuilderContext) -> (r: MethodBuilder<'a, T>)
//@tok Builder => MethodBuilder
//@end
}
impl<T> MethodRouter<T> {
//@fn src/handler/method_router.rs MethodRouter<T> - new
//@sig pub fn new() -> (r: MethodRouter<T>)
//@spec
    ensures r.handlers@ == Map::<MethodV, T>::empty()
//@end
//@fn src/handler/method_router.rs MethodRouter<T> - build
//@sig pub fn build<'a>(&'a mut self) -> (r: MethodBuilder<'a, T>)
//@spec
    ensures *r.router == *old(self), *final(r.router) == *final(self), r.context@ == (Ctx { names: None, rest: no_rest() })
//@end
//@fn src/handler/method_router.rs MethodRouter<T> - insert
//@sig pub fn insert(&mut self, method: Method, handler: T)
//@spec
    ensures final(self).handlers@ == old(self).handlers@.insert(method.kv(), handler)
//@end
}
/// Something was put there, and nothing else is different.
pub open spec fn put_method<T: FromHandler<H>, H>(a: MethodRouter<T>, m: Method, c: Ctx, h: H, r: MethodRouter<T>) -> bool {
    r.handlers@.contains_key(m.kv()) && T::made(c, h, r.handlers@[m.kv()]) && r.handlers@ == a.handlers@.insert(m.kv(), r.handlers@[m.kv()])
}
impl<'a, T> MethodBuilder<'a, T> {
//@fn src/handler/method_router.rs Builder<'a,T> - on
//@sig pub fn on<H>(&mut self, method: Method, handler: H) where T: FromHandler<H>
//@spec
    ensures put_method(*old(self).router, method, old(self).context@, handler, *final(self).router), *final(final(self).router) == *final(old(self).router), final(self).context == old(self).context,
//@end
//@fn src/handler/method_router.rs Builder<'a,T> - on_get
//@sig pub fn on_get<H>(&mut self, handler: H) where T: FromHandler<H>
//@spec
    ensures put_method(*old(self).router, Method::Get, old(self).context@, handler, *final(self).router), *final(final(self).router) == *final(old(self).router), final(self).context == old(self).context,
//@end
//@fn src/handler/method_router.rs Builder<'a,T> - on_post
//@sig pub fn on_post<H>(&mut self, handler: H) where T: FromHandler<H>
//@spec
    ensures put_method(*old(self).router, Method::Post, old(self).context@, handler, *final(self).router), *final(final(self).router) == *final(old(self).router), final(self).context == old(self).context,
//@end
//@fn src/handler/method_router.rs Builder<'a,T> - on_patch
//@sig pub fn on_patch<H>(&mut self, handler: H) where T: FromHandler<H>
//@spec
    ensures put_method(*old(self).router, Method::Patch, old(self).context@, handler, *final(self).router), *final(final(self).router) == *final(old(self).router), final(self).context == old(self).context,
//@end
//@fn src/handler/method_router.rs Builder<'a,T> - on_put
//@sig pub fn on_put<H>(&mut self, handler: H) where T: FromHandler<H>
//@spec
    ensures put_method(*old(self).router, Method::Put, old(self).context@, handler, *final(self).router), *final(final(self).router) == *final(old(self).router), final(self).context == old(self).context,
//@end
//@fn src/handler/method_router.rs Builder<'a,T> - on_delete
//@sig pub fn on_delete<H>(&mut self, handler: H) where T: FromHandler<H>
//@spec
    ensures put_method(*old(self).router, Method::Delete, old(self).context@, handler, *final(self).router), *final(final(self).router) == *final(old(self).router), final(self).context == old(self).context,
//@end
//@fn src/handler/method_router.rs Builder<'a,T> - on_options
//@sig pub fn on_options<H>(&mut self, handler: H) where T: FromHandler<H>
//@spec
    ensures put_method(*old(self).router, Method::Options, old(self).context@, handler, *final(self).router), *final(final(self).router) == *final(old(self).router), final(self).context == old(self).context,
//@end
//@fn src/handler/method_router.rs Builder<'a,T> - on_head
//@sig pub fn on_head<H>(&mut self, handler: H) where T: FromHandler<H>
//@spec
    ensures put_method(*old(self).router, Method::Head, old(self).context@, handler, *final(self).router), *final(final(self).router) == *final(old(self).router), final(self).context == old(self).context,
//@end
//@fn src/handler/method_router.rs Builder<'a,T> - on_connect
//@sig pub fn on_connect<H>(&mut self, handler: H) where T: FromHandler<H>
//@spec
    ensures put_method(*old(self).router, Method::Connect, old(self).context@, handler, *final(self).router), *final(final(self).router) == *final(old(self).router), final(self).context == old(self).context,
//@end
}
/// What is there, or something new.
pub open spec fn there_method<T: VxDefault + ApplyContext>(a: MethodRouter<T>, m: Method, c: Ctx, x: T) -> bool {
    if a.handlers@.contains_key(m.kv()) { x == a.handlers@[m.kv()] } else { exists|d: T| T::dflt(d) && #[trigger] d.applied(c, x) }
}
impl<'a: 'b, 'b, T: VxDefault + ApplyContext + Build<'b>> MethodBuilder<'a, T> {
//@fn src/handler/method_router.rs Builder<'a,T> - method
//@sig pub fn method<H>(&'b mut self, method: Method) -> (r: T::Builder) where T: FromHandler<H>
//@spec
    ensures exists|x: T, fin: T| #[trigger] T::built(x, fin, old(self).context@, r) && there_method(*old(self).router, method, old(self).context@, x)
            && final(self).router.handlers@ == old(self).router.handlers@.insert(method.kv(), fin),
        *final(final(self).router) == *final(old(self).router), final(self).context == old(self).context,
//@end
//@fn src/handler/method_router.rs Builder<'a,T> - get
//@sig pub fn get<H>(&'b mut self) -> (r: T::Builder) where T: FromHandler<H>
//@tok method ( $m ) => method::<H>($m)
//@spec
    ensures exists|x: T, fin: T| #[trigger] T::built(x, fin, old(self).context@, r) && there_method(*old(self).router, Method::Get, old(self).context@, x)
            && final(self).router.handlers@ == old(self).router.handlers@.insert(Method::Get.kv(), fin),
        *final(final(self).router) == *final(old(self).router), final(self).context == old(self).context,
//@end
//@fn src/handler/method_router.rs Builder<'a,T> - post
//@sig pub fn post<H>(&'b mut self) -> (r: T::Builder) where T: FromHandler<H>
//@tok method ( $m ) => method::<H>($m)
//@spec
    ensures exists|x: T, fin: T| #[trigger] T::built(x, fin, old(self).context@, r) && there_method(*old(self).router, Method::Post, old(self).context@, x)
            && final(self).router.handlers@ == old(self).router.handlers@.insert(Method::Post.kv(), fin),
        *final(final(self).router) == *final(old(self).router), final(self).context == old(self).context,
//@end
//@fn src/handler/method_router.rs Builder<'a,T> - patch
//@sig pub fn patch<H>(&'b mut self) -> (r: T::Builder) where T: FromHandler<H>
//@tok method ( $m ) => method::<H>($m)
//@spec
    ensures exists|x: T, fin: T| #[trigger] T::built(x, fin, old(self).context@, r) && there_method(*old(self).router, Method::Patch, old(self).context@, x)
            && final(self).router.handlers@ == old(self).router.handlers@.insert(Method::Patch.kv(), fin),
        *final(final(self).router) == *final(old(self).router), final(self).context == old(self).context,
//@end
//@fn src/handler/method_router.rs Builder<'a,T> - put
//@sig pub fn put<H>(&'b mut self) -> (r: T::Builder) where T: FromHandler<H>
//@tok method ( $m ) => method::<H>($m)
//@spec
    ensures exists|x: T, fin: T| #[trigger] T::built(x, fin, old(self).context@, r) && there_method(*old(self).router, Method::Put, old(self).context@, x)
            && final(self).router.handlers@ == old(self).router.handlers@.insert(Method::Put.kv(), fin),
        *final(final(self).router) == *final(old(self).router), final(self).context == old(self).context,
//@end
//@fn src/handler/method_router.rs Builder<'a,T> - delete
//@sig pub fn delete<H>(&'b mut self) -> (r: T::Builder) where T: FromHandler<H>
//@tok method ( $m ) => method::<H>($m)
//@spec
    ensures exists|x: T, fin: T| #[trigger] T::built(x, fin, old(self).context@, r) && there_method(*old(self).router, Method::Delete, old(self).context@, x)
            && final(self).router.handlers@ == old(self).router.handlers@.insert(Method::Delete.kv(), fin),
        *final(final(self).router) == *final(old(self).router), final(self).context == old(self).context,
//@end
//@fn src/handler/method_router.rs Builder<'a,T> - options
//@sig pub fn options<H>(&'b mut self) -> (r: T::Builder) where T: FromHandler<H>
//@tok method ( $m ) => method::<H>($m)
//@spec
    ensures exists|x: T, fin: T| #[trigger] T::built(x, fin, old(self).context@, r) && there_method(*old(self).router, Method::Options, old(self).context@, x)
            && final(self).router.handlers@ == old(self).router.handlers@.insert(Method::Options.kv(), fin),
        *final(final(self).router) == *final(old(self).router), final(self).context == old(self).context,
//@end
//@fn src/handler/method_router.rs Builder<'a,T> - head
//@sig pub fn head<H>(&'b mut self) -> (r: T::Builder) where T: FromHandler<H>
//@tok method ( $m ) => method::<H>($m)
//@spec
    ensures exists|x: T, fin: T| #[trigger] T::built(x, fin, old(self).context@, r) && there_method(*old(self).router, Method::Head, old(self).context@, x)
            && final(self).router.handlers@ == old(self).router.handlers@.insert(Method::Head.kv(), fin),
        *final(final(self).router) == *final(old(self).router), final(self).context == old(self).context,
//@end
//@fn src/handler/method_router.rs Builder<'a,T> - connect
//@sig pub fn connect<H>(&'b mut self) -> (r: T::Builder) where T: FromHandler<H>
//@tok method ( $m ) => method::<H>($m)
//@spec
    ensures exists|x: T, fin: T| #[trigger] T::built(x, fin, old(self).context@, r) && there_method(*old(self).router, Method::Connect, old(self).context@, x)
            && final(self).router.handlers@ == old(self).router.handlers@.insert(Method::Connect.kv(), fin),
        *final(final(self).router) == *final(old(self).router), final(self).context == old(self).context,
//@end
}
impl<'a, T: Merge + ApplyContext> MethodBuilder<'a, T> {
//@fn src/handler/method_router.rs Builder<'a,T> - merge
//@sig pub fn merge(&mut self, vx_other: MethodRouter<T>) -> (r: &mut MethodBuilder<'a, T>)
//@spec
    ensures exists|o: MethodRouter<T>| #[trigger] vx_other.applied(old(self).context@, o) && old(self).router.merged(o, *r.router),
        *final(r.router) == *final(old(self).router), r.context == old(self).context, *final(self) == *final(r),
//@at entry
    let mut other = vx_other;
//@end
}
//@item src/handler/status_router.rs Builder
//@tok struct Builder => struct StatusBuilder
//@end
impl<'a, T: 'a> Build<'a> for StatusRouter<T> {
    type Builder = StatusBuilder<'a, T>;
    #[verifier::prophetic] open spec fn built(cur: Self, fin: Self, c: Ctx, b: StatusBuilder<'a, T>) -> bool { *b.router == cur && *final(b.router) == fin && b.context@ == c }
//@fn src/handler/status_router.rs StatusRouter<T> Build<'a> get_builder
//@sig fn get_builder(&'a mut self, context: BuilderContext) -> (r: StatusBuilder<'a, T>)
//@tok Builder => StatusBuilder
//@end
}
impl<T> StatusRouter<T> {
//@fn src/handler/status_router.rs StatusRouter<T> - new
//@sig pub fn new() -> (r: StatusRouter<T>)
//@spec
    ensures r.handlers@ == Map::<StatusCode, T>::empty()
//@end
//@fn src/handler/status_router.rs StatusRouter<T> - build
//@sig pub fn build<'a>(&'a mut self) -> (r: StatusBuilder<'a, T>)
//@spec
    ensures *r.router == *old(self), *final(r.router) == *final(self), r.context@ == (Ctx { names: None, rest: no_rest() })
//@end
//@fn src/handler/status_router.rs StatusRouter<T> - insert
//@sig pub fn insert(&mut self, status: StatusCode, handler: T)
//@spec
    ensures final(self).handlers@ == old(self).handlers@.insert(status.kv(), handler)
//@end
}
/// Something was put there, and nothing else is different.
pub open spec fn put_status<T: FromHandler<H>, H>(a: StatusRouter<T>, m: StatusCode, c: Ctx, h: H, r: StatusRouter<T>) -> bool {
    r.handlers@.contains_key(m.kv()) && T::made(c, h, r.handlers@[m.kv()]) && r.handlers@ == a.handlers@.insert(m.kv(), r.handlers@[m.kv()])
}
impl<'a, T> StatusBuilder<'a, T> {
//@fn src/handler/status_router.rs Builder<'a,T> - on
//@sig pub fn on<H>(&mut self, status: StatusCode, handler: H) where T: FromHandler<H>
//@spec
    ensures put_status(*old(self).router, status, old(self).context@, handler, *final(self).router), *final(final(self).router) == *final(old(self).router), final(self).context == old(self).context,
//@end
}
/// What is there, or something new.
pub open spec fn there_status<T: VxDefault + ApplyContext>(a: StatusRouter<T>, m: StatusCode, c: Ctx, x: T) -> bool {
    if a.handlers@.contains_key(m.kv()) { x == a.handlers@[m.kv()] } else { exists|d: T| T::dflt(d) && #[trigger] d.applied(c, x) }
}
impl<'a: 'b, 'b, T: VxDefault + ApplyContext + Build<'b>> StatusBuilder<'a, T> {
//@fn src/handler/status_router.rs Builder<'a,T> - status
//@sig pub fn status(&'b mut self, status: StatusCode) -> (r: T::Builder)
//@spec
    ensures exists|x: T, fin: T| #[trigger] T::built(x, fin, old(self).context@, r) && there_status(*old(self).router, status, old(self).context@, x)
            && final(self).router.handlers@ == old(self).router.handlers@.insert(status.kv(), fin),
        *final(final(self).router) == *final(old(self).router), final(self).context == old(self).context,
//@end
}
impl<'a, T: Merge + ApplyContext> StatusBuilder<'a, T> {
//@fn src/handler/status_router.rs Builder<'a,T> - merge
//@sig pub fn merge(&mut self, vx_other: StatusRouter<T>) -> (r: &mut StatusBuilder<'a, T>)
//@spec
    ensures exists|o: StatusRouter<T>| #[trigger] vx_other.applied(old(self).context@, o) && old(self).router.merged(o, *r.router),
        *final(r.router) == *final(old(self).router), r.context == old(self).context, *final(self) == *final(r),
//@at entry
    let mut other = vx_other;
//@end
}
//@item src/handler/or_else.rs Builder
//@tok struct Builder => struct OrElseBuilder
//@end
impl<'a, A: 'a, B: 'a> Build<'a> for OrElse<A, B> {
    type Builder = OrElseBuilder<'a, A, B>;
    #[verifier::prophetic] open spec fn built(cur: Self, fin: Self, c: Ctx, b: OrElseBuilder<'a, A, B>) -> bool { *b.router == cur && *final(b.router) == fin && b.context@ == c }
//@fn src/handler/or_else.rs OrElse<A,B> Build<'a> get_builder
//@sig fn get_builder(&'a mut self, context: BuilderContext) -> (r: OrElseBuilder<'a, A, B>)
//@tok Builder => OrElseBuilder
//@end
}
impl<A, B> OrElse<A, B> {
//@fn src/handler/or_else.rs OrElse<A,B> - new
//@sig pub fn new(primary: A, secondary: B) -> (r: OrElse<A, B>)
//@spec
    ensures r == (OrElse { primary, secondary })
//@end
//@fn src/handler/or_else.rs OrElse<A,B> - build
//@sig pub fn build<'a>(&'a mut self) -> (r: OrElseBuilder<'a, A, B>)
//@spec
    ensures *r.router == *old(self), *final(r.router) == *final(self), r.context@ == (Ctx { names: None, rest: no_rest() })
//@end
}
impl<A, B: VxDefault> OrElse<A, B> {
//@fn src/handler/or_else.rs OrElse<A,B> - with_primary
//@sig pub fn with_primary(primary: A) -> (r: OrElse<A, B>)
//@spec
    ensures r.primary == primary, B::dflt(r.secondary)
//@end
}
impl<A: VxDefault, B> OrElse<A, B> {
//@fn src/handler/or_else.rs OrElse<A,B> - with_secondary
//@sig pub fn with_secondary(secondary: B) -> (r: OrElse<A, B>)
//@spec
    ensures A::dflt(r.primary), r.secondary == secondary
//@end
}
impl<'a: 'b, 'b, A: Build<'b>, B> OrElseBuilder<'a, A, B> {
//@fn src/handler/or_else.rs Builder<'a,A,B> - primary
//@sig pub fn primary(&'b mut self) -> (r: A::Builder)
//@spec
    ensures exists|fin: A| #[trigger] A::built(old(self).router.primary, fin, old(self).context@, r) && *final(self).router == (OrElse { primary: fin, ..*old(self).router }),
        *final(final(self).router) == *final(old(self).router), final(self).context == old(self).context,
//@end
}
impl<'a: 'b, 'b, A, B: Build<'b>> OrElseBuilder<'a, A, B> {
//@fn src/handler/or_else.rs Builder<'a,A,B> - secondary
//@sig pub fn secondary(&'b mut self) -> (r: B::Builder)
//@spec
    ensures exists|fin: B| #[trigger] B::built(old(self).router.secondary, fin, old(self).context@, r) && *final(self).router == (OrElse { secondary: fin, ..*old(self).router }),
        *final(final(self).router) == *final(old(self).router), final(self).context == old(self).context,
//@end
}
impl<'a, H: Build<'a>> Build<'a> for Variables<H> {
    type Builder = H::Builder;
    #[verifier::prophetic] open spec fn built(cur: Self, fin: Self, c: Ctx, b: H::Builder) -> bool { fin.variables == cur.variables && H::built(cur.handler, fin.handler, no_names(c), b) }
//@fn src/handler/variables.rs Variables<H> Build<'a> get_builder
//@sig fn get_builder(&'a mut self, vx_context: BuilderContext) -> (r: H::Builder)
//@at entry
    let mut context = vx_context;
//@end
}
impl<'a, T> TreeBuilder<'a, T> {
//@fn src/handler/tree_router.rs Builder<'a,T> - many
//@sig pub fn many<'x, F: FnOnce(&mut TreeBuilder<'a, T>)>(&'x mut self, build: F) -> (r: &'x mut TreeBuilder<'a, T>)
//@spec
    requires forall|m: &mut TreeBuilder<'a, T>| *m == *old(self) ==> #[trigger] call_requires(build, (m,)),
    ensures exists|m: &mut TreeBuilder<'a, T>| *m == *old(self) && #[trigger] call_ensures(build, (m,), ()) && *final(m) == *r && *final(r) == *final(self),
//@end
}
impl<'a, T> MethodBuilder<'a, T> {
//@fn src/handler/method_router.rs Builder<'a,T> - many
//@sig pub fn many<'x, F: FnOnce(&mut MethodBuilder<'a, T>)>(&'x mut self, build: F) -> (r: &'x mut MethodBuilder<'a, T>)
//@spec
    requires forall|m: &mut MethodBuilder<'a, T>| *m == *old(self) ==> #[trigger] call_requires(build, (m,)),
    ensures exists|m: &mut MethodBuilder<'a, T>| *m == *old(self) && #[trigger] call_ensures(build, (m,), ()) && *final(m) == *r && *final(r) == *final(self),
//@end
}
impl<'a, T> StatusBuilder<'a, T> {
//@fn src/handler/status_router.rs Builder<'a,T> - many
//@sig pub fn many<'x, F: FnOnce(&mut StatusBuilder<'a, T>)>(&'x mut self, build: F) -> (r: &'x mut StatusBuilder<'a, T>)
//@spec
    requires forall|m: &mut StatusBuilder<'a, T>| *m == *old(self) ==> #[trigger] call_requires(build, (m,)),
    ensures exists|m: &mut StatusBuilder<'a, T>| *m == *old(self) && #[trigger] call_ensures(build, (m,), ()) && *final(m) == *r && *final(r) == *final(self),
//@end
}
impl<'a, A, B> OrElseBuilder<'a, A, B> {
//@fn src/handler/or_else.rs Builder<'a,A,B> - many
//@sig pub fn many<'x, F: FnOnce(&mut OrElseBuilder<'a, A, B>)>(&'x mut self, build: F) -> (r: &'x mut OrElseBuilder<'a, A, B>)
//@spec
    requires forall|m: &mut OrElseBuilder<'a, A, B>| *m == *old(self) ==> #[trigger] call_requires(build, (m,)),
    ensures exists|m: &mut OrElseBuilder<'a, A, B>| *m == *old(self) && #[trigger] call_ensures(build, (m,), ()) && *final(m) == *r && *final(r) == *final(self),
//@end
}
// ---------------------------------------------------------------- routers from lists
pub broadcast axiom fn axiom_builder_dropped<'a, T>(b: TreeBuilder<'a, T>) ensures #[trigger] has_resolved(b) ==> *final(b.node) == *old(b.node);
pub broadcast axiom fn axiom_method_builder_dropped<'a, T>(b: MethodBuilder<'a, T>) ensures #[trigger] has_resolved(b) ==> *final(b.router) == *old(b.router);
/// `r` is `a` with the handler `h` for the method and path (and nothing else different).
pub open spec fn listed<T: FromHandler<H> + ApplyContext, H>(a: TreeRouter<MethodRouter<Variables<T>>>, m: Method, segs: Seq<Seq<u8>>, h: H, r: TreeRouter<MethodRouter<Variables<T>>>) -> bool {
    let names = all_names(Seq::empty(), segs);
    exists|n: TreeRouter<MethodRouter<Variables<T>>>, f: TreeRouter<MethodRouter<Variables<T>>>| #[trigger] grown(Some(a), segs, Seq::empty(), no_rest(), n, f, r)
        && f == (TreeRouter { item: f.item, ..n }) && put_method(n.item, m, Ctx { names: Some(names), rest: no_rest() }, h, f.item)
}
pub open spec fn all_listed<T: FromHandler<H> + ApplyContext, D: AsBytes, H>(s: Seq<(Method, D, H)>, r: TreeRouter<MethodRouter<Variables<T>>>) -> bool
    decreases s.len()
{
    if s.len() == 0 { leaf(r) && MethodRouter::dflt(r.item) }
    else { exists|a: TreeRouter<MethodRouter<Variables<T>>>| all_listed(s.drop_last(), a) && #[trigger] listed(a, s.last().0, segments_of(s.last().1.bs()), s.last().2, r) }
}
pub trait FromIter<A>: Sized { spec fn gathered(s: Seq<A>, r: Self) -> bool; fn from_iter<I: VxIter<Item = A>>(iterator: I) -> (r: Self) ensures Self::gathered(iterator.vx_items(), r); }
impl<T: FromHandler<H> + ApplyContext, D: AsBytes, H> FromIter<(Method, D, H)> for TreeRouter<MethodRouter<Variables<T>>> {
    open spec fn gathered(s: Seq<(Method, D, H)>, r: Self) -> bool { all_listed(s, r) }
//@fn src/handler/tree_router.rs TreeRouter<MethodRouter<Variables<T>>> FromIterator<(Method,D,H)> from_iter
//@sig fn from_iter<I: VxIter<Item = (Method, D, H)>>(iterator: I) -> (r: TreeRouter<MethodRouter<Variables<T>>>)
//@attr #[verifier::loop_isolation(false)]
//@at entry
    broadcast use {axiom_builder_dropped, axiom_method_builder_dropped};
//@at loop 0 init
    let ghost all = vx_it0@;
    let ghost mut k: int = 0;
    proof { assert(all.take(0) =~= Seq::empty()); }
//@at loop 0 spec
    invariant 0 <= k <= all.len(), vx_it0@ == all.skip(k), all_listed(all.take(k), root),
//@at loop 0 start
    let ghost before = root;
//@at loop 0 end
    proof {
        let s = all.take(k + 1);
        assert(s.drop_last() =~= all.take(k));
        assert(s.len() == k + 1 && s.last() == all[k]);
        assert(all_listed(s.drop_last(), before) && listed(before, s.last().0, segments_of(s.last().1.bs()), s.last().2, root));
        assert(listed(before, all[k].0, segments_of(all[k].1.bs()), all[k].2, root));
        k = k + 1;
    }
//@at loop 0 exit
    proof { assert(all.take(k) =~= all); }
//@end
}
// ---------------------------------------------------------------- what that means for every place in the tree
/// `b` has the same item as `a` (if `a` is something).
pub open spec fn kept<T>(a: Option<TreeRouter<T>>, b: Option<TreeRouter<T>>) -> bool { a matches Some(x) ==> b matches Some(y) && x.item == y.item && x.find_hyperlinks == y.find_hyperlinks }
/// P05: path, on_path: what is found at the path is what the builder is for; what was anywhere else is still there;
/// and nothing appears anywhere else, apart from the new (default) places that the path goes through.
pub proof fn theorem_grown<T: VxDefault + ApplyContext>(a: TreeRouter<T>, segs: Seq<Seq<u8>>, names: Seq<Seq<u8>>, rest: Rest, n: TreeRouter<T>, f: TreeRouter<T>, r: TreeRouter<T>)
    requires grown(Some(a), segs, names, rest, n, f, r),
    ensures at(Some(r), steps(segs)) == Some(f),
        match at(Some(a), steps(segs)) { Some(x) => n == x, None => leaf(n) && new_item(all_names(names, segs), rest, n.item) },
        forall|p: Seq<Step>| !steps(segs).is_prefix_of(p) ==> kept(at(Some(a), p), #[trigger] at(Some(r), p)),
        forall|p: Seq<Step>| !steps(segs).is_prefix_of(p) && at(Some(a), p) is None && (#[trigger] at(Some(r), p)) is Some ==> p.is_prefix_of(steps(segs)),
{
    lemma_grown_anywhere(Some(a), segs, names, rest, n, f, r);
}
proof fn lemma_grown_anywhere<T: VxDefault + ApplyContext>(a: Option<TreeRouter<T>>, segs: Seq<Seq<u8>>, names: Seq<Seq<u8>>, rest: Rest, n: TreeRouter<T>, f: TreeRouter<T>, r: TreeRouter<T>)
    requires grown(a, segs, names, rest, n, f, r),
    ensures at(Some(r), steps(segs)) == Some(f),
        match at(a, steps(segs)) { Some(x) => n == x, None => leaf(n) && new_item(all_names(names, segs), rest, n.item) },
        forall|p: Seq<Step>| !steps(segs).is_prefix_of(p) ==> kept(at(a, p), #[trigger] at(Some(r), p)),
        forall|p: Seq<Step>| !steps(segs).is_prefix_of(p) && at(a, p) is None && (#[trigger] at(Some(r), p)) is Some ==> p.is_prefix_of(steps(segs)),
    decreases segs.len(),
{
    let ss = steps(segs);
    if segs.len() > 0 {
        let (x, c) = choose|x: TreeRouter<T>, c: TreeRouter<T>| found(a, names, rest, x) && grown(child(x, step(segs[0])), segs.skip(1), more(names, segs[0]), rest, n, f, c) && #[trigger] grafted(x, step(segs[0]), c, r);
        lemma_grown_anywhere(child(x, ss[0]), segs.skip(1), more(names, segs[0]), rest, n, f, c);
        assert(ss.skip(1) =~= steps(segs.skip(1)));
        assert(a is None ==> child(x, ss[0]) is None);
        assert(at(a, ss) == match a { Some(_) => at(child(x, ss[0]), ss.skip(1)), None => None });
        if a is None { lemma_at_none(child(x, ss[0]), ss.skip(1)); }
        assert forall|p: Seq<Step>| !ss.is_prefix_of(p) implies kept(at(a, p), #[trigger] at(Some(r), p)) && (at(a, p) is None && at(Some(r), p) is Some ==> p.is_prefix_of(ss)) by {
            if p.len() > 0 {
                if p[0] == ss[0] {
                    if ss.skip(1).is_prefix_of(p.skip(1)) { assert(p =~= seq![p[0]] + p.skip(1)); assert(ss =~= seq![ss[0]] + ss.skip(1)); assert(p.take(ss.len() as int) =~= seq![p[0]] + p.skip(1).take(ss.len() - 1)); assert(false); }
                    let _ = at(Some(c), p.skip(1));
                    if p.skip(1).is_prefix_of(ss.skip(1)) { assert(ss.take(p.len() as int) =~= seq![ss[0]] + ss.skip(1).take(p.len() - 1)); assert(p =~= seq![p[0]] + p.skip(1)); }
                } else if a is None { lemma_at_none(child(x, p[0]), p.skip(1)); }
            }
        }
    } else {
        assert(ss =~= Seq::empty());
        assert forall|p: Seq<Step>| ss.is_prefix_of(p) by { assert(p.take(0) =~= ss); }
    }
}
proof fn lemma_at_none<T>(a: Option<TreeRouter<T>>, p: Seq<Step>) requires a is None ensures at(a, p) is None {}
}
fn main() {}
