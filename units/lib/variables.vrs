// ---- lib/variables.vrs: naming what the routers captured (P03)
//@item src/handler/routing.rs VariableIter
//@tok VariableIter<'a, I> => VariableIter<'a>
//@tok iter : I => iter : VIter<(usize, &'a [u8])>
//@end
pub type Pair = (Seq<u8>, Seq<u8>);
/// The variable that's being put together.
pub type Cur = Option<(usize, Seq<u8>, Seq<u8>)>;
pub open spec fn cur_of(c: Option<(usize, MaybeUtf8Owned, MaybeUtf8Owned)>) -> Cur { match c { Some(x) => Some((x.0, x.1.bytes(), x.2.bytes())), None => None } }
pub open spec fn named(names: Seq<MaybeUtf8Owned>, k: usize) -> bool { k < names.len() && names[k as int].bytes().len() > 0 }
/// What the segments `items` (variable number, value) amount to, given the variable that was begun.
#[verifier::opaque]
pub open spec fn pairs_of(items: Seq<(usize, &[u8])>, names: Seq<MaybeUtf8Owned>, cur: Cur) -> Seq<Pair>
    decreases items.len()
{
    if items.len() == 0 { match cur { Some(c) => seq![(c.1, c.2)], None => Seq::empty() } }
    else {
        let (k, x) = items[0];
        let rest = items.skip(1);
        if !named(names, k) { pairs_of(rest, names, cur) }
        else { match cur {
            Some(c) if c.0 == k => pairs_of(rest, names, Some((k, c.1, c.2 + seq![47u8] + x@))),
            Some(c) => seq![(c.1, c.2)] + pairs_of(rest, names, Some((k, names[k as int].bytes(), x@))),
            None => pairs_of(rest, names, Some((k, names[k as int].bytes(), x@))),
        } }
    }
}
pub proof fn lemma_pairs(items: Seq<(usize, &[u8])>, names: Seq<MaybeUtf8Owned>, cur: Cur)
    ensures pairs_of(items, names, cur) == (
    if items.len() == 0 { match cur { Some(c) => seq![(c.1, c.2)], None => Seq::empty() } }
    else {
        let (k, x) = items[0];
        let rest = items.skip(1);
        if !named(names, k) { pairs_of(rest, names, cur) }
        else { match cur {
            Some(c) if c.0 == k => pairs_of(rest, names, Some((k, c.1, c.2 + seq![47u8] + x@))),
            Some(c) => seq![(c.1, c.2)] + pairs_of(rest, names, Some((k, names[k as int].bytes(), x@))),
            None => pairs_of(rest, names, Some((k, names[k as int].bytes(), x@))),
        } }
    })
{ reveal(pairs_of); }
impl<'a> VariableIter<'a> {
    pub open spec fn left(&self) -> Seq<Pair> { pairs_of(self.iter@, self.names@, cur_of(self.current)) }
//@fn src/handler/routing.rs VariableIter - new
//@sig pub fn new(names: &'a [MaybeUtf8Owned], iter: VIter<(usize, &'a [u8])>) -> (r: VariableIter<'a>)
//@spec
    ensures r.left() == pairs_of(iter@, names@, None)
//@end
//@fn src/handler/routing.rs VariableIter Iterator next
//@sig pub fn vx_next(&mut self) -> (r: Option<(MaybeUtf8Owned, MaybeUtf8Owned)>)
//@opt by-ref-iter 0
//@tok next_segment . to_owned () . into () => vx_owned(next_segment)
//@spec
    ensures match r {
        Some(p) => old(self).left() == seq![(p.0.bytes(), p.1.bytes())] + final(self).left(),
        None => old(self).left().len() == 0 && final(self).left().len() == 0,
    }
//@at loop 0 spec
    invariant self.left() == old(self).left(), self.names == old(self).names
    ensures self.left() == old(self).left(), self.iter@.len() == 0
    decreases self.iter@.len()
//@at loop 0 next
    let ghost items = self.iter@;
    let ghost cur = cur_of(self.current);
    proof { lemma_pairs(items, self.names@, cur); }
//@at loop 0 start
    proof { if let Some(c) = cur { assert(c.2.push(47u8) + next_segment@ =~= c.2 + seq![47u8] + next_segment@); } }
//@at before match self . current . take ()
    proof { lemma_pairs(self.iter@, self.names@, cur_of(self.current)); lemma_pairs(self.iter@, self.names@, None); }
//@at return
    proof { lemma_pairs(self.iter@, self.names@, cur_of(self.current)); if vx_ret is Some { assert(old(self).left() =~= seq![((vx_ret->0).0.bytes(), (vx_ret->0).1.bytes())] + self.left()); } }
//@end
}
pub open spec fn fold_pairs(m: Map<Seq<u8>, Seq<u8>>, ps: Seq<Pair>) -> Map<Seq<u8>, Seq<u8>>
    decreases ps.len()
{ if ps.len() == 0 { m } else { fold_pairs(m.insert(ps[0].0, ps[0].1), ps.skip(1)) } }
/// The segments of `route[..n]` that belong to variables.
pub open spec fn items_of<'a>(route: Seq<&'a [u8]>, caps: Seq<Option<usize>>, n: int) -> Seq<(usize, &'a [u8])>
    decreases n
{
    if n <= 0 { Seq::empty() } else { match caps[n - 1] {
        Some(k) => items_of(route, caps, n - 1).push((k, route[n - 1])),
        None => items_of(route, caps, n - 1),
    }}
}
pub open spec fn vmap(m: Map<Seq<u8>, MaybeUtf8Owned>) -> Map<Seq<u8>, Seq<u8>> { m.map_values(|v: MaybeUtf8Owned| v.bytes()) }
/// What a handler at a route with the variables `names` has to be given.
pub open spec fn vars_of(rs: RouteState, names: Seq<MaybeUtf8Owned>) -> Map<Seq<u8>, Seq<u8>> {
    fold_pairs(Map::empty(), pairs_of(items_of(rs.route@, rs.variables@, rs.index as int), names, None))
}
impl<'a> RouteState<'a> {
//@fn src/handler/routing.rs RouteState - variables
//@sig pub fn variables(&self, names: &[MaybeUtf8Owned]) -> (r: HashMap<MaybeUtf8Owned, MaybeUtf8Owned>)
//@method iter => vx_seq
//@opt own-iter 1
//@spec
    requires self.wf()
    ensures vmap(r@) == vars_of(*self, names@)
//@at loop 0 init
    let ghost all = vx_it0@;
    let ghost mut n: int = 0;
//@at loop 0 spec
    invariant
        self.wf(), 0 <= n <= self.index, all.len() == self.index, vx_it0@ == all.skip(n),
        forall|i: int| 0 <= i < self.index ==> #[trigger] all[i] == (&self.route@[i], &self.variables@[i]),
        vx_c1@ == items_of(self.route@, self.variables@, n),
    ensures vx_c1@ == items_of(self.route@, self.variables@, self.index as int)
//@at loop 0 start
    proof { assert(all[n] == (&self.route@[n], &self.variables@[n])); n = n + 1; assert(all.skip(n - 1).skip(1) =~= all.skip(n)); }
//@at loop 1 init
    let ghost goal = vars_of(*self, names@);
    proof { assert(vmap(var_map@) =~= Map::empty()); }
//@at loop 1 spec
    invariant fold_pairs(vmap(var_map@), vx_it1.left()) == goal
    ensures vmap(var_map@) == goal
    decreases vx_it1.left().len()
//@at loop 1 next
    let ghost left = vx_it1.left();
    let ghost m1 = vmap(var_map@);
//@at loop 1 end
    proof { assert(left[0] == (name.bytes(), value.bytes())); assert(left.skip(1) =~= vx_it1.left()); assert(vmap(var_map@) =~= m1.insert(name.bytes(), value.bytes())); }
//@end
}
// ---- what that comes to for routes, whose segments are captured in the order of the variables
pub open spec fn sorted_items(items: Seq<(usize, &[u8])>) -> bool { forall|i: int, j: int| 0 <= i < j < items.len() ==> (#[trigger] items[i]).0 <= (#[trigger] items[j]).0 }
pub open spec fn sorted_caps(caps: Seq<Option<usize>>) -> bool {
    forall|i: int, j: int| 0 <= i < j < caps.len() && (#[trigger] caps[i]) is Some && (#[trigger] caps[j]) is Some ==> caps[i]->0 <= caps[j]->0
}
/// Variable `k` captured something.
pub open spec fn has_item(items: Seq<(usize, &[u8])>, k: usize) -> bool { exists|i: int| 0 <= i < items.len() && (#[trigger] items[i]).0 == k }
/// The segments that variable `k` captured, joined with '/'.
pub open spec fn value_of(items: Seq<(usize, &[u8])>, k: usize) -> Seq<u8>
    decreases items.len()
{
    if items.len() == 0 { Seq::empty() }
    else if items[0].0 == k { if has_item(items.skip(1), k) { items[0].1@ + seq![47u8] + value_of(items.skip(1), k) } else { items[0].1@ } }
    else { value_of(items.skip(1), k) }
}
pub open spec fn is_name(names: Seq<MaybeUtf8Owned>, k: usize, nm: Seq<u8>) -> bool { named(names, k) && names[k as int].bytes() == nm }
/// The last variable called `nm` that captured something.
pub open spec fn last_of(items: Seq<(usize, &[u8])>, names: Seq<MaybeUtf8Owned>, nm: Seq<u8>) -> Option<usize>
    decreases items.len()
{
    if items.len() == 0 { None } else { match last_of(items.skip(1), names, nm) {
        Some(k) => Some(k),
        None => if is_name(names, items[0].0, nm) { Some(items[0].0) } else { None },
    }}
}
pub open spec fn looks_up(m: Map<Seq<u8>, Seq<u8>>, nm: Seq<u8>) -> Option<Seq<u8>> { if m.contains_key(nm) { Some(m[nm]) } else { None } }
pub proof fn lemma_last(items: Seq<(usize, &[u8])>, names: Seq<MaybeUtf8Owned>, nm: Seq<u8>)
    ensures match last_of(items, names, nm) {
        Some(k) => is_name(names, k, nm) && has_item(items, k),
        None => forall|k: usize| is_name(names, k, nm) ==> !has_item(items, k),
    }
    decreases items.len()
{
    if items.len() > 0 {
        let rest = items.skip(1);
        lemma_last(rest, names, nm);
        assert forall|k: usize| has_item(items, k) implies k == items[0].0 || has_item(rest, k) by {
            let i = choose|i: int| 0 <= i < items.len() && (#[trigger] items[i]).0 == k;
            if i > 0 { assert(rest[i - 1] == items[i]); }
        }
        assert forall|k: usize| has_item(rest, k) implies has_item(items, k) by {
            let i = choose|i: int| 0 <= i < rest.len() && (#[trigger] rest[i]).0 == k;
            assert(items[i + 1].0 == k);
        }
        assert(items[0].0 == items[0].0 && has_item(items, items[0].0));
    }
}
pub proof fn lemma_lookup(items: Seq<(usize, &[u8])>, names: Seq<MaybeUtf8Owned>, cur: Cur, m: Map<Seq<u8>, Seq<u8>>, nm: Seq<u8>)
    requires
        sorted_items(items),
        cur is Some ==> is_name(names, (cur->0).0, (cur->0).1) && forall|i: int| 0 <= i < items.len() ==> (cur->0).0 <= (#[trigger] items[i]).0,
    ensures looks_up(fold_pairs(m, pairs_of(items, names, cur)), nm) == match last_of(items, names, nm) {
        Some(k) => if cur is Some && (cur->0).0 == k { Some((cur->0).2 + seq![47u8] + value_of(items, k)) } else { Some(value_of(items, k)) },
        None => if cur is Some && (cur->0).1 == nm { Some((cur->0).2) } else { looks_up(m, nm) },
    }
    decreases items.len()
{
    lemma_pairs(items, names, cur);
    reveal_with_fuel(fold_pairs, 2);
    lemma_last(items, names, nm);
    if items.len() == 0 {
        if cur is Some { let p = seq![((cur->0).1, (cur->0).2)]; assert(p.skip(1) =~= Seq::empty()); assert(fold_pairs(m, p) == m.insert(p[0].0, p[0].1)); }
    } else {
        let (k, x) = items[0];
        let rest = items.skip(1);
        lemma_last(rest, names, nm);
        assert forall|i: int, j: int| 0 <= i < j < rest.len() implies (#[trigger] rest[i]).0 <= (#[trigger] rest[j]).0 by { assert(rest[i] == items[i + 1] && rest[j] == items[j + 1]); }
        assert forall|i: int| 0 <= i < rest.len() implies k <= (#[trigger] rest[i]).0 && (cur is Some ==> (cur->0).0 <= rest[i].0) by { assert(rest[i] == items[i + 1]); assert(items[0].0 <= items[i + 1].0); }
        if !named(names, k) { lemma_lookup(rest, names, cur, m, nm); }
        else if cur is Some && (cur->0).0 == k {
            let c = cur->0;
            let c2 = (k, c.1, c.2 + seq![47u8] + x@);
            lemma_lookup(rest, names, Some(c2), m, nm);
            assert(c2.2 + seq![47u8] + value_of(rest, k) =~= c.2 + seq![47u8] + (x@ + seq![47u8] + value_of(rest, k)));
        } else if cur is Some {
            let c = cur->0;
            let c2 = (k, names[k as int].bytes(), x@);
            let ps = seq![(c.1, c.2)] + pairs_of(rest, names, Some(c2));
            assert(ps.skip(1) =~= pairs_of(rest, names, Some(c2)));
            assert(fold_pairs(m, ps) == fold_pairs(m.insert(c.1, c.2), pairs_of(rest, names, Some(c2))));
            lemma_lookup(rest, names, Some(c2), m.insert(c.1, c.2), nm);
            assert(items[0].0 == k);
            if has_item(items, c.0) { let i = choose|i: int| 0 <= i < items.len() && (#[trigger] items[i]).0 == c.0; assert(items[0].0 <= items[i].0); }
        } else {
            let c2 = (k, names[k as int].bytes(), x@);
            lemma_lookup(rest, names, Some(c2), m, nm);
        }
    }
}
pub proof fn lemma_items_sorted(route: Seq<&[u8]>, caps: Seq<Option<usize>>, n: int)
    requires 0 <= n <= caps.len(), sorted_caps(caps.take(n)), n <= route.len()
    ensures sorted_items(items_of(route, caps, n)), forall|i: int| 0 <= i < items_of(route, caps, n).len() ==> exists|j: int| 0 <= j < n && caps[j] == Some((#[trigger] items_of(route, caps, n)[i]).0)
    decreases n
{
    if n > 0 {
        let a = items_of(route, caps, n - 1);
        let b = items_of(route, caps, n);
        assert forall|i: int, j: int| 0 <= i < j < n - 1 && (#[trigger] caps.take(n - 1)[i]) is Some && (#[trigger] caps.take(n - 1)[j]) is Some implies caps.take(n - 1)[i]->0 <= caps.take(n - 1)[j]->0 by { assert(caps.take(n)[i] == caps[i]); assert(caps.take(n)[j] == caps[j]); }
        lemma_items_sorted(route, caps, n - 1);
        if caps[n - 1] is Some {
            assert forall|i: int| 0 <= i < b.len() implies exists|j: int| 0 <= j < n && caps[j] == Some((#[trigger] b[i]).0) by {
                if i < a.len() { assert(b[i] == a[i]); let j = choose|j: int| 0 <= j < n - 1 && caps[j] == Some((#[trigger] a[i]).0); assert(caps[j] == Some(b[i].0)); } else { assert(caps[n - 1] == Some(b[i].0)); }
            }
            assert forall|i: int, j: int| 0 <= i < j < b.len() implies (#[trigger] b[i]).0 <= (#[trigger] b[j]).0 by {
                assert(b[i] == a[i]);
                if j < a.len() { assert(b[j] == a[j]); } else {
                    let t = choose|t: int| 0 <= t < n - 1 && caps[t] == Some((#[trigger] a[i]).0);
                    assert(caps.take(n)[t] == caps[t] && caps.take(n)[n - 1] == caps[n - 1]);
                }
            }
        } else {
            assert(b == a);
        }
    }
}
/// [P03] Each named variable holds the '/'-joined segments it captured, the last one of a name wins, and there is nothing else.
pub proof fn theorem_variables(rs: RouteState, names: Seq<MaybeUtf8Owned>, nm: Seq<u8>)
    requires rs.wf(), sorted_caps(rs.variables@.take(rs.index as int))
    ensures ({
        let items = items_of(rs.route@, rs.variables@, rs.index as int);
        match last_of(items, names, nm) {
            Some(k) => vars_of(rs, names).contains_key(nm) && vars_of(rs, names)[nm] == value_of(items, k) && is_name(names, k, nm)
                && forall|j: usize| is_name(names, j, nm) && has_item(items, j) ==> j <= k,
            None => !vars_of(rs, names).contains_key(nm) && forall|j: usize| is_name(names, j, nm) ==> !has_item(items, j),
        }
    })
{
    let items = items_of(rs.route@, rs.variables@, rs.index as int);
    lemma_items_sorted(rs.route@, rs.variables@, rs.index as int);
    lemma_lookup(items, names, None, Map::empty(), nm);
    lemma_last(items, names, nm);
    if let Some(k) = last_of(items, names, nm) { lemma_last_max(items, names, nm); }
}
pub proof fn lemma_last_max(items: Seq<(usize, &[u8])>, names: Seq<MaybeUtf8Owned>, nm: Seq<u8>)
    requires sorted_items(items), last_of(items, names, nm) is Some
    ensures forall|j: usize| is_name(names, j, nm) && has_item(items, j) ==> j <= last_of(items, names, nm)->0
    decreases items.len()
{
    let k = last_of(items, names, nm)->0;
    let rest = items.skip(1);
    lemma_last(items, names, nm);
    lemma_last(rest, names, nm);
    assert forall|i: int, j: int| 0 <= i < j < rest.len() implies (#[trigger] rest[i]).0 <= (#[trigger] rest[j]).0 by { assert(rest[i] == items[i + 1] && rest[j] == items[j + 1]); }
    assert forall|j: usize| is_name(names, j, nm) && has_item(items, j) implies j <= k by {
        let i = choose|i: int| 0 <= i < items.len() && (#[trigger] items[i]).0 == j;
        if i > 0 { assert(rest[i - 1] == items[i]); assert(has_item(rest, j)); if last_of(rest, names, nm) is Some { lemma_last_max(rest, names, nm); } }
        else { let t = choose|t: int| 0 <= t < items.len() && (#[trigger] items[t]).0 == k; if t > 0 { assert(items[0].0 <= items[t].0); } }
    }
}
