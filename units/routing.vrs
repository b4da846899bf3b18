use vstd::prelude::*;
use vstd::std_specs::cmp::*;
verus! {
//@include lib/prelude.vrs
//@include lib/maybe.vrs
//@include lib/route_state.vrs
//@include lib/http.vrs
//@include lib/env.vrs
//@include lib/handle_request.vrs
//@item src/handler/tree_router.rs Branch
//@attr #[derive(Structural, PartialEq, Eq)]
//@end
use Branch::*;
//@item src/handler/tree_router.rs TreeRouter
//@end

// ---------------------------------------------------------------- what a route tree means
/// An end point that matches: the tree node and, per segment, which variable captured it.
pub struct Match<T> { pub node: TreeRouter<T>, pub caps: Seq<Option<usize>> }

/// All matches below node `n` for the segments from `i` on, best first.
#[verifier::opaque]
pub open spec fn m_node<T>(n: TreeRouter<T>, route: Seq<&[u8]>, i: int, v: int, caps: Seq<Option<usize>>) -> Seq<Match<T>>
    decreases route.len() - i, 4nat
{
    m_frame(n, Branch::Static, route, i, v, caps) + m_frame(n, Branch::Variable, route, i, v, caps) + m_frame(n, Branch::Wildcard, route, i, v, caps)
}
/// ... through one kind of child.
#[verifier::opaque]
pub open spec fn m_frame<T>(n: TreeRouter<T>, b: Branch, route: Seq<&[u8]>, i: int, v: int, caps: Seq<Option<usize>>) -> Seq<Match<T>>
    decreases route.len() - i, 3nat
{
    if i >= route.len() {
        if b == Branch::Static { seq![Match { node: n, caps }] } else { Seq::empty() }
    } else { match b {
        Branch::Static => if n.static_routes@.contains_key(route[i]@) { m_node(n.static_routes@[route[i]@], route, i + 1, v, caps.push(None)) } else { Seq::empty() },
        Branch::Variable => match n.variable_route { Some(c) => m_node(*c, route, i + 1, v + 1, caps.push(Some(v as usize))), None => Seq::empty() },
        Branch::Wildcard => match n.wildcard_route {
            // the shortest sequence first
            Some(c) => m_node(*c, route, i + 1, v + 1, caps.push(Some(v as usize))) + m_frame(n, Branch::Wildcard, route, i + 1, v, caps.push(Some(v as usize))),
            None => Seq::empty() },
    }}
}
pub proof fn lemma_frame<T>(n: TreeRouter<T>, b: Branch, route: Seq<&[u8]>, i: int, v: int, caps: Seq<Option<usize>>)
    ensures m_frame(n, b, route, i, v, caps) == ({
    if i >= route.len() {
        if b == Branch::Static { seq![Match { node: n, caps }] } else { Seq::empty() }
    } else { match b {
        Branch::Static => if n.static_routes@.contains_key(route[i]@) { m_node(n.static_routes@[route[i]@], route, i + 1, v, caps.push(None)) } else { Seq::empty() },
        Branch::Variable => match n.variable_route { Some(c) => m_node(*c, route, i + 1, v + 1, caps.push(Some(v as usize))), None => Seq::empty() },
        Branch::Wildcard => match n.wildcard_route {
            // the shortest sequence first
            Some(c) => m_node(*c, route, i + 1, v + 1, caps.push(Some(v as usize))) + m_frame(n, Branch::Wildcard, route, i + 1, v, caps.push(Some(v as usize))),
            None => Seq::empty() },
    }}
    })
{ reveal(m_frame); reveal(m_node); }
pub proof fn lemma_node<T>(n: TreeRouter<T>, route: Seq<&[u8]>, i: int, v: int, caps: Seq<Option<usize>>)
    ensures m_node(n, route, i, v, caps) == m_frame(n, Branch::Static, route, i, v, caps) + m_frame(n, Branch::Variable, route, i, v, caps) + m_frame(n, Branch::Wildcard, route, i, v, caps)
{ reveal(m_frame); reveal(m_node); }
pub open spec fn matches_of<T>(r: TreeRouter<T>, e0: Environment) -> Seq<Match<T>> {
    m_node(r, e0.route_state.route@, e0.route_state.index as int, e0.route_state.var_index as int, e0.route_state.variables@.take(e0.route_state.index as int))
}
pub open spec fn static_link(k: Seq<u8>) -> SegV { SegV { label: k, ty: SegmentType::Static } }
pub open spec fn var_link() -> SegV { SegV { label: Seq::empty(), ty: SegmentType::VariableSegment } }
pub open spec fn seq_link() -> SegV { SegV { label: Seq::empty(), ty: SegmentType::VariableSequence } }
pub open spec fn lone(s: SegV) -> LinkV { LinkV { method: None, path: seq![s] } }
pub open spec fn here() -> LinkV { LinkV { method: None, path: Seq::empty() } }
pub open spec fn under(base: LinkV, s: SegV) -> LinkV { LinkV { method: base.method, path: base.path.push(s) } }
/// The item's own links, except the one for the request that is being handled.
pub open spec fn other_link(l: LinkV, m: MethodV) -> bool { l.method != Some(m) || l.path.len() != 0 }
pub open spec fn keep(s: ISet<LinkV>, m: MethodV) -> ISet<LinkV> { ISet::new(|l: LinkV| s.contains(l) && other_link(l, m)) }
pub open spec fn child_links<T>(n: TreeRouter<T>, base: LinkV) -> ISet<LinkV> {
    ISet::new(|l: LinkV|
        (exists|k: Seq<u8>| #[trigger] n.static_routes@.contains_key(k) && l == under(base, static_link(k)))
        || (n.variable_route is Some && l == under(base, var_link()))
        || (n.wildcard_route is Some && l == under(base, seq_link())))
}
pub open spec fn node_links<T: HandleRequest>(n: TreeRouter<T>, m: MethodV) -> ISet<LinkV> {
    keep(n.item.links(here()), m).union(child_links(n, here()))
}
pub open spec fn links_of<T: HandleRequest>(ms: Seq<Match<T>>, m: MethodV) -> ISet<LinkV> {
    ISet::new(|l: LinkV| exists|k: int| 0 <= k < ms.len() && #[trigger] node_links(ms[k].node, m).contains(l))
}
/// `e` is the request `e0` as it has to be presented to match `m` of `r`.
pub open spec fn given<T: HandleRequest>(r: TreeRouter<T>, m: Match<T>, e: Environment, e0: Environment) -> bool {
    &&& e.route_state.route@ == e0.route_state.route@
    &&& e.route_state.variables@ == m.caps
    &&& e.route_state.index == e0.route_state.route@.len()
    &&& e.route_state.wf()
    &&& ctx_same(e.context, e0.context)
    &&& e.response.st() == e0.response.st()
    &&& e.response.rest() == e0.response.rest()
    &&& lset(e.context.hyperlinks@) == (if r.find_hyperlinks { links_of(matches_of(r, e0), e0.context.method@) } else { ISet::empty() })
}
pub open spec fn served_m<T: HandleRequest>(r: TreeRouter<T>, m: Match<T>, e0: Environment) -> bool {
    exists|e: Environment| #[trigger] m.node.item.served(e) && given(r, m, e, e0)
}
pub open spec fn declined_m<T: HandleRequest>(r: TreeRouter<T>, m: Match<T>, e0: Environment) -> bool {
    exists|e: Environment, e2: Environment| #[trigger] m.node.item.declined(e, e2) && given(r, m, e, e0)
}
pub open spec fn declined_st<T: HandleRequest>(r: TreeRouter<T>, m: Match<T>, e0: Environment, st: StatusCode) -> bool {
    exists|e: Environment, e2: Environment| #[trigger] m.node.item.declined(e, e2) && given(r, m, e, e0) && e2.response.st() == st
}
/// The first match that accepts the request gets it.
pub open spec fn dispatched<T: HandleRequest>(r: TreeRouter<T>, e0: Environment) -> bool {
    let ms = matches_of(r, e0);
    exists|k: int| 0 <= k < ms.len() && #[trigger] served_m(r, ms[k], e0) && forall|j: int| 0 <= j < k ==> #[trigger] declined_m(r, ms[j], e0)
}
pub open spec fn all_declined<T: HandleRequest>(r: TreeRouter<T>, e0: Environment, e2: Environment) -> bool {
    let ms = matches_of(r, e0);
    &&& forall|j: int| 0 <= j < ms.len() ==> #[trigger] declined_m(r, ms[j], e0)
    &&& ms.len() == 0 ==> e2.response.st() == StatusCode::NotFound
    &&& ms.len() > 0 ==> declined_st(r, ms.last(), e0, e2.response.st())
}

//@include lib/patterns.vrs
// ---------------------------------------------------------------- the search, as what its stack stands for
pub type Frame<'r, T> = (&'r TreeRouter<T>, Branch, (usize, usize));
pub open spec fn fr<T>(f: Frame<T>, route: Seq<&[u8]>, vars: Seq<Option<usize>>) -> Seq<Match<T>> {
    m_frame(*f.0, f.1, route, f.2.0 as int, f.2.1 as int, vars.take(f.2.0 as int))
}
#[verifier::opaque]
pub open spec fn pending<T>(stack: Seq<Frame<T>>, route: Seq<&[u8]>, vars: Seq<Option<usize>>) -> Seq<Match<T>>
    decreases stack.len()
{
    if stack.len() == 0 { Seq::empty() } else { fr(stack.last(), route, vars) + pending(stack.drop_last(), route, vars) }
}
/// How many entries the search still has to look at: the search ends.
#[verifier::opaque]
pub open spec fn c_frame<T>(n: TreeRouter<T>, b: Branch, route: Seq<&[u8]>, i: int) -> nat
    decreases route.len() - i, 3nat
{
    if i >= route.len() { 1 } else { match b {
        Branch::Static => if n.static_routes@.contains_key(route[i]@) { 1 + c_node(n.static_routes@[route[i]@], route, i + 1) } else { 1 },
        Branch::Variable => match n.variable_route { Some(c) => 1 + c_node(*c, route, i + 1), None => 1 },
        Branch::Wildcard => match n.wildcard_route { Some(c) => 1 + c_node(*c, route, i + 1) + c_frame(n, Branch::Wildcard, route, i + 1), None => 1 },
    }}
}
#[verifier::opaque]
pub open spec fn c_node<T>(n: TreeRouter<T>, route: Seq<&[u8]>, i: int) -> nat
    decreases route.len() - i, 4nat
{ c_frame(n, Branch::Static, route, i) + c_frame(n, Branch::Variable, route, i) + c_frame(n, Branch::Wildcard, route, i) }
#[verifier::opaque]
pub open spec fn c_stack<T>(stack: Seq<Frame<T>>, route: Seq<&[u8]>) -> nat
    decreases stack.len()
{ if stack.len() == 0 { 0 } else { c_frame(*stack.last().0, stack.last().1, route, stack.last().2.0 as int) + c_stack(stack.drop_last(), route) } }
pub broadcast proof fn lemma_c_push<T>(stack: Seq<Frame<T>>, f: Frame<T>, route: Seq<&[u8]>)
    ensures #[trigger] c_stack(stack.push(f), route) == c_frame(*f.0, f.1, route, f.2.0 as int) + c_stack(stack, route)
{ reveal(c_stack); assert(stack.push(f).drop_last() =~= stack); }
pub broadcast proof fn lemma_c_node<T>(stack: Seq<Frame<T>>, n: &TreeRouter<T>, at: (usize, usize), route: Seq<&[u8]>)
    ensures #[trigger] c_stack(stack.push((n, Branch::Wildcard, at)).push((n, Branch::Variable, at)).push((n, Branch::Static, at)), route)
        == c_node(*n, route, at.0 as int) + c_stack(stack, route)
{
    reveal(c_node); reveal(c_frame);
    let (a, b, c) = ((n, Branch::Wildcard, at), (n, Branch::Variable, at), (n, Branch::Static, at));
    lemma_c_push(stack.push(a).push(b), c, route);
    lemma_c_push(stack.push(a), b, route);
    lemma_c_push(stack, a, route);
}
pub proof fn lemma_c_frame<T>(n: TreeRouter<T>, b: Branch, route: Seq<&[u8]>, i: int)
    ensures c_frame(n, b, route, i) == (if i >= route.len() { 1 } else { match b {
        Branch::Static => if n.static_routes@.contains_key(route[i]@) { 1 + c_node(n.static_routes@[route[i]@], route, i + 1) } else { 1 },
        Branch::Variable => match n.variable_route { Some(c) => 1 + c_node(*c, route, i + 1), None => 1 },
        Branch::Wildcard => match n.wildcard_route { Some(c) => 1 + c_node(*c, route, i + 1) + c_frame(n, Branch::Wildcard, route, i + 1), None => 1 },
    }})
{ reveal(c_frame); reveal(c_node); }
pub open spec fn stack_ok<T>(stack: Seq<Frame<T>>, n: int, lo: int) -> bool {
    &&& forall|k: int| 0 <= k < stack.len() ==> lo <= #[trigger] stack[k].2.0 <= n && stack[k].2.1 <= stack[k].2.0
    &&& forall|j: int, k: int| 0 <= j < k < stack.len() ==> #[trigger] stack[j].2.0 <= #[trigger] stack[k].2.0
}
pub broadcast proof fn lemma_pending_push<T>(stack: Seq<Frame<T>>, f: Frame<T>, route: Seq<&[u8]>, vars: Seq<Option<usize>>)
    ensures #[trigger] pending(stack.push(f), route, vars) == fr(f, route, vars) + pending(stack, route, vars)
{ reveal(pending); assert(stack.push(f).drop_last() =~= stack); }
/// One entry per kind of child: everything below the node.
pub broadcast proof fn lemma_pending_node<T>(stack: Seq<Frame<T>>, n: &TreeRouter<T>, at: (usize, usize), route: Seq<&[u8]>, vars: Seq<Option<usize>>)
    ensures #[trigger] pending(stack.push((n, Branch::Wildcard, at)).push((n, Branch::Variable, at)).push((n, Branch::Static, at)), route, vars)
        == m_node(*n, route, at.0 as int, at.1 as int, vars.take(at.0 as int)) + pending(stack, route, vars)
{
    lemma_node(*n, route, at.0 as int, at.1 as int, vars.take(at.0 as int));
    let (a, b, c) = ((n, Branch::Wildcard, at), (n, Branch::Variable, at), (n, Branch::Static, at));
    lemma_pending_push(stack.push(a).push(b), c, route, vars);
    lemma_pending_push(stack.push(a), b, route, vars);
    lemma_pending_push(stack, a, route, vars);
    assert(fr(c, route, vars) + (fr(b, route, vars) + (fr(a, route, vars) + pending(stack, route, vars)))
        =~= (fr(c, route, vars) + fr(b, route, vars) + fr(a, route, vars)) + pending(stack, route, vars));
}
pub broadcast proof fn lemma_pending_empty<T>(stack: Seq<Frame<T>>, route: Seq<&[u8]>, vars: Seq<Option<usize>>)
    requires stack.len() == 0
    ensures #[trigger] pending(stack, route, vars) == Seq::<Match<T>>::empty()
{ reveal(pending); }
pub broadcast proof fn lemma_popped<A>(s: Seq<A>)
    requires s.len() > 0
    ensures (#[trigger] s.subrange(0, s.len() - 1)).push(s[s.len() - 1]) == s
{ assert(s.subrange(0, s.len() - 1).push(s[s.len() - 1]) =~= s); assert(s.drop_last().push(s.last()) =~= s); }
pub broadcast proof fn lemma_assoc<A>(x: Seq<A>, y: Seq<A>, z: Seq<A>)
    ensures #[trigger] ((x + y) + z) == x + (y + z)
{ assert((x + y) + z =~= x + (y + z)); }
pub broadcast proof fn lemma_nil<A>(x: Seq<A>, y: Seq<A>)
    requires x.len() == 0
    ensures #[trigger] (x + y) == y
{ assert(x + y =~= y); }
pub proof fn lemma_pending_frame<T>(stack: Seq<Frame<T>>, route: Seq<&[u8]>, vars: Seq<Option<usize>>, vars2: Seq<Option<usize>>, t: int)
    requires 0 <= t <= vars.len(), vars2.len() == vars.len(), vars.take(t) == vars2.take(t),
        forall|k: int| 0 <= k < stack.len() ==> #[trigger] stack[k].2.0 <= t,
    ensures pending(stack, route, vars) == pending(stack, route, vars2)
    decreases stack.len()
{
    reveal(pending);
    if stack.len() > 0 {
        let f = stack.last();
        assert(f == stack[stack.len() - 1]);
        assert(vars.take(f.2.0 as int) =~= vars2.take(f.2.0 as int)) by {
            assert forall|k: int| 0 <= k < f.2.0 implies vars[k] == vars2[k] by { assert(vars.take(t)[k] == vars2.take(t)[k]); }
        }
        assert forall|k: int| 0 <= k < stack.drop_last().len() implies #[trigger] stack.drop_last()[k].2.0 <= t by { assert(stack.drop_last()[k] == stack[k]); }
        lemma_pending_frame(stack.drop_last(), route, vars, vars2, t);
    }
}
pub broadcast proof fn lemma_pending_update<T>(stack: Seq<Frame<T>>, route: Seq<&[u8]>, vars: Seq<Option<usize>>, t: int, x: Option<usize>)
    requires 0 <= t < vars.len(), forall|k: int| 0 <= k < stack.len() ==> (#[trigger] stack[k]).2.0 <= t,
    ensures #[trigger] pending(stack, route, vars.update(t, x)) == pending(stack, route, vars)
{ assert(vars.update(t,x).take(t) =~= vars.take(t)); lemma_pending_frame(stack, route, vars.update(t,x), vars, t); }
pub broadcast proof fn lemma_take_update(vars: Seq<Option<usize>>, t: int, x: Option<usize>, u: int)
    requires 0 <= t < vars.len(), u == t + 1
    ensures (#[trigger] vars.update(t, x).take(u)) == vars.take(t).push(x)
{ assert(vars.update(t,x).take(t+1) =~= vars.take(t).push(x)); }
pub broadcast proof fn lemma_take_update_lo(vars: Seq<Option<usize>>, t: int, x: Option<usize>, u: int)
    requires 0 <= u <= t < vars.len()
    ensures (#[trigger] vars.update(t, x).take(u)) == vars.take(u)
{ assert(vars.update(t,x).take(u) =~= vars.take(u)); }
pub broadcast proof fn lemma_take_full(vars: Seq<Option<usize>>, u: int)
    requires u == vars.len()
    ensures (#[trigger] vars.take(u)) == vars
{ assert(vars.take(u) =~= vars); }
pub broadcast proof fn lemma_update_update(vars: Seq<Option<usize>>, t: int, x: Option<usize>, y: Option<usize>)
    requires 0 <= t < vars.len()
    ensures (#[trigger] vars.update(t, x).update(t, y)) == vars.update(t, y)
{ assert(vars.update(t,x).update(t,y) =~= vars.update(t,y)); }
pub broadcast proof fn lemma_lset_push<'a>(s: Seq<Link<'a>>, l: Link<'a>)
    ensures #[trigger] lset(s.push(l)) == lset(s).insert(l@)
{
    assert(forall|i: int| 0 <= i < s.len() ==> s.push(l)[i] == s[i]);
    assert forall|x: LinkV| lset(s).insert(l@).contains(x) implies lset(s.push(l)).contains(x) by {
        if lset(s).contains(x) { let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i])@ == x; assert(s.push(l)[i] == s[i]); } else { assert(s.push(l)[s.len() as int]@ == x); }
    }
    assert(lset(s.push(l)) =~= lset(s).insert(l@));
}
pub broadcast proof fn lemma_lset_skip<'a>(s: Seq<Link<'a>>)
    requires s.len() > 0
    ensures lset(s) == (#[trigger] lset(s.skip(1))).insert(s[0]@)
{
    assert forall|x: LinkV| lset(s).contains(x) implies lset(s.skip(1)).insert(s[0]@).contains(x) by {
        let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i])@ == x;
        if i > 0 { assert(s.skip(1)[i - 1] == s[i]); }
    }
    assert forall|x: LinkV| lset(s.skip(1)).insert(s[0]@).contains(x) implies lset(s).contains(x) by {
        if lset(s.skip(1)).contains(x) { let i = choose|i: int| 0 <= i < s.skip(1).len() && (#[trigger] s.skip(1)[i])@ == x; assert(s[i + 1]@ == x); } else { assert(s[0]@ == x); }
    }
    assert(lset(s) =~= lset(s.skip(1)).insert(s[0]@));
}
pub proof fn lemma_all_keys<V>(ks: Seq<&MaybeUtf8Owned>, m: Map<Seq<u8>, V>, base: LinkV)
    requires
        forall|i: int| 0 <= i < ks.len() ==> m.contains_key((#[trigger] ks[i]).kv()),
        forall|k: Seq<u8>| #[trigger] m.contains_key(k) ==> exists|i: int| 0 <= i < ks.len() && (#[trigger] ks[i]).kv() == k,
    ensures key_links(ks, base) == ISet::new(|l: LinkV| exists|k: Seq<u8>| #[trigger] m.contains_key(k) && l == under(base, static_link(k)))
{
    let r = ISet::new(|l: LinkV| exists|k: Seq<u8>| #[trigger] m.contains_key(k) && l == under(base, static_link(k)));
    assert forall|l: LinkV| r.contains(l) implies key_links(ks, base).contains(l) by {
        let k = choose|k: Seq<u8>| #[trigger] m.contains_key(k) && l == under(base, static_link(k));
        let i = choose|i: int| 0 <= i < ks.len() && (#[trigger] ks[i]).kv() == k;
        assert(ks[i].bytes() == k);
    }
    assert(key_links(ks, base) =~= r);
}
pub open spec fn found_ok<T>(found: Seq<(&T, RouteState)>, done: Seq<Match<T>>, route: Seq<&[u8]>) -> bool {
    &&& found.len() == done.len()
    &&& forall|j: int| 0 <= j < done.len() ==> *(#[trigger] found[j]).0 == done[j].node.item && found[j].1.wf()
        && found[j].1.route@ == route && found[j].1.variables@ == done[j].caps && found[j].1.index == route.len()
}
pub open spec fn caps_ok<T>(done: Seq<Match<T>>, e0: Environment) -> bool {
    forall|j: int| 0 <= j < done.len() ==> (#[trigger] done[j]).caps.take(e0.route_state.index as int) == e0.route_state.variables@.take(e0.route_state.index as int)
}
pub open spec fn links_ok<'a, T: HandleRequest>(l: Seq<Link<'a>>, done: Seq<Match<T>>, m: MethodV) -> bool { lset(l) == links_of(done, m) }
pub proof fn lemma_links_push<T: HandleRequest>(s: Seq<Match<T>>, x: Match<T>, m: MethodV)
    ensures links_of(s.push(x), m) == links_of(s, m).union(node_links(x.node, m))
{
    assert forall|l: LinkV| links_of(s, m).union(node_links(x.node, m)).contains(l) implies links_of(s.push(x), m).contains(l) by {
        if links_of(s, m).contains(l) { let k = choose|k: int| 0 <= k < s.len() && #[trigger] node_links(s[k].node, m).contains(l); assert(s.push(x)[k] == s[k]); }
        else { assert(s.push(x)[s.len() as int] == x); }
    }
    assert(links_of(s.push(x), m) =~= links_of(s, m).union(node_links(x.node, m)));
}
/// The links to the static children whose keys are still to come.
pub open spec fn key_links(ks: Seq<&MaybeUtf8Owned>, base: LinkV) -> ISet<LinkV> {
    ISet::new(|l: LinkV| exists|i: int| 0 <= i < ks.len() && l == under(base, static_link((#[trigger] ks[i]).bytes())))
}
pub broadcast proof fn lemma_keys_skip(ks: Seq<&MaybeUtf8Owned>, base: LinkV)
    requires ks.len() > 0
    ensures key_links(ks, base) == (#[trigger] key_links(ks.skip(1), base)).insert(under(base, static_link(ks[0].bytes())))
{
    let b = under(base, static_link(ks[0].bytes()));
    assert forall|x: LinkV| key_links(ks, base).contains(x) implies key_links(ks.skip(1), base).insert(b).contains(x) by {
        let i = choose|i: int| 0 <= i < ks.len() && x == under(base, static_link((#[trigger] ks[i]).bytes()));
        if i > 0 { assert(ks.skip(1)[i - 1] == ks[i]); }
    }
    assert forall|x: LinkV| key_links(ks.skip(1), base).insert(b).contains(x) implies key_links(ks, base).contains(x) by {
        if key_links(ks.skip(1), base).contains(x) { let i = choose|i: int| 0 <= i < ks.skip(1).len() && x == under(base, static_link((#[trigger] ks.skip(1)[i]).bytes())); assert(ks[i + 1] == ks.skip(1)[i]); } else { assert(ks[0] == ks[0]); }
    }
    assert(key_links(ks, base) =~= key_links(ks.skip(1), base).insert(b));
}
pub broadcast proof fn lemma_link_here<'a>(l: Link<'a>)
    requires l.path@.len() == 0, l.method is None
    ensures #[trigger] l@ == here()
{ assert(l@.path =~= Seq::empty()); }
pub broadcast proof fn lemma_link_one<'a>(l: Link<'a>)
    requires l.path@.len() == 1, l.method is None
    ensures #[trigger] l@ == under(here(), l.path@[0]@)
{ assert(l@.path =~= Seq::empty().push(l.path@[0]@)); }
pub broadcast proof fn lemma_lset_empty<'a>(s: Seq<Link<'a>>)
    requires s.len() == 0
    ensures #[trigger] lset(s) == ISet::<LinkV>::empty()
{ assert(lset(s) =~= ISet::empty()); }
pub broadcast proof fn lemma_under<'a>(l: Link<'a>, m: Link<'a>, x: LinkSegment<'a>)
    requires l.path@ == m.path@.push(x), l.method == m.method
    ensures #![trigger l@, m@, m.path@.push(x)] l@ == under(m@, x@)
{ assert(l@.path =~= m@.path.push(x@)); }
pub broadcast group gr { lemma_popped, lemma_c_push, lemma_c_node, lemma_link_here, lemma_link_one, lemma_lset_empty, lemma_pending_push, lemma_pending_node, lemma_pending_empty, lemma_pending_update, lemma_nil, lemma_take_update, lemma_take_update_lo, lemma_take_full, lemma_update_update, lemma_lset_push, lemma_lset_skip, lemma_keys_skip }

impl<T: HandleRequest> HandleRequest for TreeRouter<T> {
    open spec fn served(&self, e: Environment) -> bool { dispatched(*self, e) }
    open spec fn declined(&self, e: Environment, e2: Environment) -> bool { all_declined(*self, e, e2) }
    open spec fn links(&self, base: LinkV) -> ISet<LinkV> { self.item.links(base).union(child_links(*self, base)) }

//@fn src/handler/tree_router.rs TreeRouter HandleRequest handle_request
//@attr #[verifier::spinoff_prover]
//@sig fn handle_request<'a, 'b, 'l, 'g>(&self, env0: Environment<'a, 'b, 'l, 'g>) -> (r: Result<(), Environment<'a, 'b, 'l, 'g>>)
//@tok hyperlinks . sort () => vx_sort(&mut hyperlinks)
//@tok hyperlinks . dedup () => vx_dedup(&mut hyperlinks)
//@at entry
    let ghost e0 = env0;
    let mut environment = env0;
    let ghost route = e0.route_state.route@;
    let ghost m0 = e0.context.method@;
    let ghost ms = matches_of(*self, e0);
    let ghost mut done: Seq<Match<T>> = Seq::empty();
//@at before while let
    proof { broadcast use gr;
        assert(stack@ =~= Seq::<Frame<T>>::empty().push((self, Wildcard, now)).push((self, Variable, now)).push((self, Static, now)));
        lemma_pending_node(Seq::<Frame<T>>::empty(), self, now, route, environment.route_state.variables@);
        assert(ms + Seq::<Match<T>>::empty() =~= ms);
        assert(lset(hyperlinks@) =~= links_of(done, m0));
        assert(found_ok(matches@, done, route));
    }
//@at loop 0 spec
    invariant
        e0 == env0, e0.route_state.wf(), route == e0.route_state.route@, m0 == e0.context.method@, ms == matches_of(*self, e0),
        now == (e0.route_state.index, e0.route_state.var_index), status == e0.response.st(),
        environment.route_state.route@ == route, ctx_same(environment.context, e0.context), environment.response.rest() == e0.response.rest(),
        environment.context.hyperlinks == e0.context.hyperlinks,
        environment.route_state.variables.len() == environment.route_state.route.len(),
        environment.route_state.variables@.take(now.0 as int) == e0.route_state.variables@.take(now.0 as int),
        stack_ok(stack@, route.len() as int, now.0 as int), caps_ok(done, e0),
        done + pending(stack@, route, environment.route_state.variables@) == ms,
        !self.find_hyperlinks ==> {
            &&& forall|j: int| 0 <= j < done.len() ==> #[trigger] declined_m(*self, done[j], e0)
            &&& (declined <==> done.len() > 0)
            &&& found_ok(matches@, Seq::empty(), route)
            &&& declined ==> declined_st(*self, done.last(), e0, environment.response.st())
        },
        self.find_hyperlinks ==> {
            &&& !declined
            &&& links_ok(hyperlinks@, done, m0)
            &&& environment.response.st() == status
            &&& found_ok(matches@, done, route)
        },
    ensures stack@.len() == 0
    decreases c_stack(stack@, route)
//@at loop 0 start
    broadcast use gr;
    let ghost stack1 = stack@;
    let ghost vars1 = environment.route_state.variables@;
    let ghost frame = (current, branch, snapshot);
    let ghost hit = snapshot.0 == route.len() && branch == Static;
    let ghost mm = Match { node: *current, caps: vars1 };
    let ghost links1 = links_of(done, m0);
    let ghost done1 = done;
    let ghost pend1 = pending(stack1, route, vars1);
    proof {
        assert(stack_ok(stack1.push(frame), route.len() as int, now.0 as int));
        assert(forall|k: int| 0 <= k < stack1.len() ==> stack1[k] == stack1.push(frame)[k] && #[trigger] stack1[k].2.0 <= stack1.push(frame)[stack1.len() as int].2.0);
        assert(stack1.push(frame)[stack1.len() as int] == frame);
        lemma_pending_push(stack1, frame, route, vars1);
        lemma_c_frame(*current, branch, route, snapshot.0 as int);
        lemma_c_push(stack1, frame, route);
        assert(ms == done + (fr(frame, route, vars1) + pend1));
        assert(fr(frame, route, vars1).len() > 0 ==> ms[done.len() as int] == fr(frame, route, vars1)[0]);
        lemma_frame(*current, branch, route, snapshot.0 as int, snapshot.1 as int, vars1.take(snapshot.0 as int));
        if snapshot.0 >= route.len() { assert(ms =~= (done + fr(frame, route, vars1)) + pend1); }
        if hit { done = done.push(mm); assert(done =~= done1 + fr(frame, route, vars1)); assert(done + pend1 == ms); }
        else if snapshot.0 >= route.len() { assert(done =~= done1 + fr(frame, route, vars1)); assert(done + pend1 == ms); }
    }
//@at before continue #1
    proof {
        assert(given(*self, mm, new_environment, e0));
        assert(mm.node.item.declined(new_environment, returned_environment));
        assert(declined_st(*self, mm, e0, environment.response.st()));
        assert(forall|j: int| 0 <= j < done1.len() ==> done[j] == done1[j]);
    }
//@at before return Ok(()) #0
    proof {
        assert(given(*self, mm, new_environment, e0));
        assert(mm.node.item.served(new_environment));
        assert(served_m(*self, ms[done1.len() as int], e0));
        assert forall|j: int| 0 <= j < done1.len() implies #[trigger] declined_m(*self, ms[j], e0) by { assert(ms[j] == done1[j]); assert(declined_m(*self, done1[j], e0)); }
        assert(dispatched(*self, e0)); assert(self.served(e0));
    }
//@at loop 1 spec
    invariant
        lset(hyperlinks@).union(keep(lset(vx_it1@), m0)) == links1.union(keep(current.item.links(here()), m0)),
        environment.context.method@ == m0,
    ensures lset(hyperlinks@) == links1.union(keep(current.item.links(here()), m0)),
//@at loop 1 next
    broadcast use gr;
    let ghost it1 = vx_it1@;
    let ghost h1 = lset(hyperlinks@);
//@at loop 1 start
    broadcast use gr;
    proof { assert(keep(lset(it1), m0) =~= (if other_link(link@, m0) { keep(lset(vx_it1@), m0).insert(link@) } else { keep(lset(vx_it1@), m0) })); }
//@at loop 1 end
    proof { assert(lset(hyperlinks@).union(keep(lset(vx_it1@), m0)) =~= h1.union(keep(lset(it1), m0))); }
//@at loop 1 exit
    proof { assert(keep(lset(vx_it1@), m0) =~= ISet::empty()); assert(lset(hyperlinks@).union(keep(lset(vx_it1@), m0)) =~= lset(hyperlinks@)); }
//@at loop 2 init
    let ghost all_keys = key_links(vx_it2@, here());
    let ghost links2 = lset(hyperlinks@);
    proof { lemma_all_keys(vx_it2@, current.static_routes@, here()); }
//@at loop 2 spec
    invariant
        lset(hyperlinks@).union(key_links(vx_it2@, here())) == links2.union(all_keys),
    ensures
        lset(hyperlinks@) == links2.union(all_keys),
//@at loop 2 next
    broadcast use gr;
    let ghost it2 = vx_it2@;
    let ghost h2 = lset(hyperlinks@);
//@at loop 2 end
    broadcast use gr;
    proof {
        assert(lset(hyperlinks@).union(key_links(vx_it2@, here())) =~= h2.union(key_links(it2, here()))); }
//@at loop 2 exit
    proof { assert(key_links(vx_it2@, here()) =~= ISet::empty()); assert(lset(hyperlinks@).union(key_links(vx_it2@, here())) =~= lset(hyperlinks@)); }
//@at loop 0 end
    proof {
        if snapshot.0 < route.len() {
            if branch == Wildcard { broadcast use lemma_assoc; assert(pending(stack@, route, environment.route_state.variables@) == fr(frame, route, vars1) + pend1); }
            assert(pending(stack@, route, environment.route_state.variables@) == fr(frame, route, vars1) + pend1);
        }
        assert(done + pending(stack@, route, environment.route_state.variables@) == ms);
        if hit && self.find_hyperlinks {
            lemma_links_push(done1, mm, m0);
            assert(lset(hyperlinks@) =~= links1.union(node_links(*current, m0)));
            assert(forall|j: int| 0 <= j < done1.len() ==> done[j] == done1[j]);
        }
    }
//@at before if matches . is_empty ()
    proof { broadcast use gr; assert(stack@.len() == 0); assert(done + pending(stack@, route, environment.route_state.variables@) == ms); assert(done + Seq::<Match<T>>::empty() =~= done); assert(caps_ok(ms, e0)); }
//@at loop 3 init
    let ghost links3 = new_environment.context.hyperlinks@;
    let ghost found = vx_it3@;
    let ghost mut n: int = 0;
//@at loop 3 spec
    invariant
        e0 == env0, e0.route_state.wf(), route == e0.route_state.route@, m0 == e0.context.method@, ms == matches_of(*self, e0),
        status == e0.response.st(), self.find_hyperlinks,
        0 <= n <= ms.len(), vx_it3@ == found.skip(n), found_ok(found, ms, route), caps_ok(ms, e0), now.0 == e0.route_state.index, ms.len() > 0,
        new_environment.context.hyperlinks@ == links3, lset(links3) == links_of(ms, m0),
        new_environment.route_state.route@ == route, ctx_same(new_environment.context, e0.context), new_environment.response.rest() == e0.response.rest(),
        forall|j: int| 0 <= j < n ==> #[trigger] declined_m(*self, ms[j], e0),
        n > 0 ==> declined_st(*self, ms[n - 1], e0, new_environment.response.st()),
        new_environment.route_state.variables.len() == new_environment.route_state.route.len(),
        new_environment.route_state.variables@.take(now.0 as int) == e0.route_state.variables@.take(now.0 as int),
    ensures n == ms.len()
//@at loop 3 start
    let ghost mm = ms[n];
//@at before new_environment = returned_environment
    proof {
        assert(given(*self, mm, new_environment, e0));
        assert(mm.node.item.declined(new_environment, returned_environment));
        assert(declined_st(*self, mm, e0, returned_environment.response.st()));
        assert(found.skip(n).skip(1) =~= found.skip(n + 1));
        n = n + 1;
    }
//@at before return Ok(()) #1
    proof {
        assert(given(*self, mm, new_environment, e0));
        assert(mm.node.item.served(new_environment));
        assert(served_m(*self, ms[n], e0));
        assert(dispatched(*self, e0)); assert(self.served(e0));
    }
//@end

//@fn src/handler/tree_router.rs TreeRouter HandleRequest hyperlinks
//@sig fn hyperlinks<'a>(&'a self, base: Link<'a>) -> (r: Vec<Link<'a>>)
//@at entry
    broadcast use gr, lemma_under;
    let ghost b = base@;
//@at loop 0 init
    let ghost links0 = lset(links@);
    let ghost all_keys = key_links(vx_it0@, b);
    proof { lemma_all_keys(vx_it0@, self.static_routes@, b); }
//@at loop 0 spec
    invariant
        base@ == b,
        lset(links@).union(key_links(vx_it0@, b)) == links0.union(all_keys),
    ensures
        base@ == b,
        lset(links@) == links0.union(all_keys),
//@at loop 0 next
    broadcast use gr, lemma_under;
    let ghost it0 = vx_it0@;
    let ghost h0 = lset(links@);
//@at loop 0 end
    proof {
        assert(links@.last()@ == under(b, static_link(it0[0].bytes())));
        assert(lset(links@).union(key_links(vx_it0@, b)) =~= h0.union(key_links(it0, b)));
    }
//@at loop 0 exit
    proof { assert(key_links(vx_it0@, b) =~= ISet::empty()); assert(lset(links@).union(key_links(vx_it0@, b)) =~= lset(links@)); }
//@at return
    proof { assert(lset(vx_ret@) =~= self.links(b)); }
//@end
}
} // verus!
fn main() {}
