// ---- lib/patterns.vrs: the matches of a route tree are those of its patterns (P02, P03)
pub enum PSeg { Lit(Seq<u8>), Var, Wild }
/// The node that is registered at a pattern.
pub open spec fn node_at<T>(n: TreeRouter<T>, pat: Seq<PSeg>) -> Option<TreeRouter<T>>
    decreases pat.len()
{
    if pat.len() == 0 { Some(n) } else { match pat[0] {
        PSeg::Lit(b) => if n.static_routes@.contains_key(b) { node_at(n.static_routes@[b], pat.skip(1)) } else { None },
        PSeg::Var => match n.variable_route { Some(c) => node_at(*c, pat.skip(1)), None => None },
        PSeg::Wild => match n.wildcard_route { Some(c) => node_at(*c, pat.skip(1)), None => None },
    }}
}
/// `pat` matches the segments from `i` on; `out` says for each segment which variable holds it.
pub open spec fn fits(pat: Seq<PSeg>, route: Seq<&[u8]>, i: int, v: int, caps: Seq<Option<usize>>, out: Seq<Option<usize>>) -> bool
    decreases pat.len(), route.len() - i
{
    if pat.len() == 0 { i == route.len() && out == caps } else {
        i < route.len() && match pat[0] {
            PSeg::Lit(b) => route[i]@ == b && fits(pat.skip(1), route, i + 1, v, caps.push(None), out),
            PSeg::Var => fits(pat.skip(1), route, i + 1, v + 1, caps.push(Some(v as usize)), out),
            // one segment, or one and then at least one more
            PSeg::Wild => fits(pat.skip(1), route, i + 1, v + 1, caps.push(Some(v as usize)), out) || fits(pat, route, i + 1, v, caps.push(Some(v as usize)), out),
        }
    }
}
pub open spec fn hit_by<T>(n: TreeRouter<T>, route: Seq<&[u8]>, i: int, v: int, caps: Seq<Option<usize>>, m: Match<T>) -> bool {
    exists|pat: Seq<PSeg>| node_at(n, pat) == Some(m.node) && #[trigger] fits(pat, route, i, v, caps, m.caps)
}
pub open spec fn kind_of(pat: Seq<PSeg>) -> Branch { if pat.len() == 0 { Branch::Static } else { match pat[0] { PSeg::Lit(_) => Branch::Static, PSeg::Var => Branch::Variable, PSeg::Wild => Branch::Wildcard } } }
pub open spec fn hit_by_kind<T>(n: TreeRouter<T>, b: Branch, route: Seq<&[u8]>, i: int, v: int, caps: Seq<Option<usize>>, m: Match<T>) -> bool {
    exists|pat: Seq<PSeg>| kind_of(pat) == b && node_at(n, pat) == Some(m.node) && #[trigger] fits(pat, route, i, v, caps, m.caps)
}
pub open spec fn cons(s: PSeg, p: Seq<PSeg>) -> Seq<PSeg> { seq![s] + p }
pub proof fn lemma_cons(s: PSeg, p: Seq<PSeg>)
    ensures cons(s, p)[0] == s, cons(s, p).skip(1) == p, cons(s, p).len() == p.len() + 1
{ assert(cons(s, p).skip(1) =~= p); }
pub proof fn lemma_hits_frame<T>(n: TreeRouter<T>, b: Branch, route: Seq<&[u8]>, i: int, v: int, caps: Seq<Option<usize>>, m: Match<T>)
    requires 0 <= i <= route.len()
    ensures m_frame(n, b, route, i, v, caps).contains(m) <==> hit_by_kind(n, b, route, i, v, caps, m)
    decreases route.len() - i, 3nat
{
    lemma_frame(n, b, route, i, v, caps);
    let ms = m_frame(n, b, route, i, v, caps);
    if i >= route.len() {
        let e = Seq::<PSeg>::empty();
        if b == Branch::Static {
            assert(ms[0] == Match { node: n, caps });
            if ms.contains(m) { assert(node_at(n, e) == Some(m.node) && fits(e, route, i, v, caps, m.caps) && kind_of(e) == b); }
            if hit_by_kind(n, b, route, i, v, caps, m) {
                let pat = choose|pat: Seq<PSeg>| kind_of(pat) == b && node_at(n, pat) == Some(m.node) && #[trigger] fits(pat, route, i, v, caps, m.caps);
                assert(pat.len() == 0);
                assert(ms[0] == m);
            }
        } else if hit_by_kind(n, b, route, i, v, caps, m) {
            let pat = choose|pat: Seq<PSeg>| kind_of(pat) == b && node_at(n, pat) == Some(m.node) && #[trigger] fits(pat, route, i, v, caps, m.caps);
            assert(pat.len() == 0);
        }
    } else { match b {
        Branch::Static => {
            let s = route[i]@;
            if n.static_routes@.contains_key(s) {
                let c = n.static_routes@[s];
                lemma_hits(c, route, i + 1, v, caps.push(None), m);
                if ms.contains(m) {
                    let p = choose|p: Seq<PSeg>| node_at(c, p) == Some(m.node) && #[trigger] fits(p, route, i + 1, v, caps.push(None), m.caps);
                    let pat = cons(PSeg::Lit(s), p);
                    lemma_cons(PSeg::Lit(s), p);
                    assert(kind_of(pat) == b && node_at(n, pat) == Some(m.node) && fits(pat, route, i, v, caps, m.caps));
                }
            }
            if hit_by_kind(n, b, route, i, v, caps, m) {
                let pat = choose|pat: Seq<PSeg>| kind_of(pat) == b && node_at(n, pat) == Some(m.node) && #[trigger] fits(pat, route, i, v, caps, m.caps);
                assert(pat.len() > 0);
                assert(fits(pat.skip(1), route, i + 1, v, caps.push(None), m.caps));
            }
        }
        Branch::Variable => {
            if let Some(c) = n.variable_route {
                let k = caps.push(Some(v as usize));
                lemma_hits(*c, route, i + 1, v + 1, k, m);
                if ms.contains(m) {
                    let p = choose|p: Seq<PSeg>| node_at(*c, p) == Some(m.node) && #[trigger] fits(p, route, i + 1, v + 1, k, m.caps);
                    let pat = cons(PSeg::Var, p);
                    lemma_cons(PSeg::Var, p);
                    assert(kind_of(pat) == b && node_at(n, pat) == Some(m.node) && fits(pat, route, i, v, caps, m.caps));
                }
            }
            if hit_by_kind(n, b, route, i, v, caps, m) {
                let pat = choose|pat: Seq<PSeg>| kind_of(pat) == b && node_at(n, pat) == Some(m.node) && #[trigger] fits(pat, route, i, v, caps, m.caps);
                assert(pat.len() > 0);
                assert(fits(pat.skip(1), route, i + 1, v + 1, caps.push(Some(v as usize)), m.caps));
            }
        }
        Branch::Wildcard => {
            let k = caps.push(Some(v as usize));
            if let Some(c) = n.wildcard_route {
                let (a, z) = (m_node(*c, route, i + 1, v + 1, k), m_frame(n, Branch::Wildcard, route, i + 1, v, k));
                lemma_hits(*c, route, i + 1, v + 1, k, m);
                lemma_hits_frame(n, b, route, i + 1, v, k, m);
                if ms.contains(m) {
                    let t = ms.index_of(m);
                    assert(ms[t] == m);
                    if t < a.len() {
                        assert(a[t] == m);
                        let p = choose|p: Seq<PSeg>| node_at(*c, p) == Some(m.node) && #[trigger] fits(p, route, i + 1, v + 1, k, m.caps);
                        let pat = cons(PSeg::Wild, p);
                        lemma_cons(PSeg::Wild, p);
                        assert(kind_of(pat) == b && node_at(n, pat) == Some(m.node) && fits(pat, route, i, v, caps, m.caps));
                    } else {
                        assert(z[t - a.len()] == m);
                        let pat = choose|pat: Seq<PSeg>| kind_of(pat) == b && node_at(n, pat) == Some(m.node) && #[trigger] fits(pat, route, i + 1, v, k, m.caps);
                        assert(pat.len() > 0);
                        assert(kind_of(pat) == b && node_at(n, pat) == Some(m.node) && fits(pat, route, i, v, caps, m.caps));
                    }
                }
                if hit_by_kind(n, b, route, i, v, caps, m) {
                    let pat = choose|pat: Seq<PSeg>| kind_of(pat) == b && node_at(n, pat) == Some(m.node) && #[trigger] fits(pat, route, i, v, caps, m.caps);
                    assert(pat.len() > 0);
                    if fits(pat.skip(1), route, i + 1, v + 1, k, m.caps) {
                        assert(hit_by(*c, route, i + 1, v + 1, k, m));
                        let t = a.index_of(m);
                        assert(ms[t] == m);
                    } else {
                        assert(fits(pat, route, i + 1, v, k, m.caps));
                        assert(hit_by_kind(n, b, route, i + 1, v, k, m));
                        let t = z.index_of(m);
                        assert(ms[a.len() + t] == m);
                    }
                }
            } else if hit_by_kind(n, b, route, i, v, caps, m) {
                let pat = choose|pat: Seq<PSeg>| kind_of(pat) == b && node_at(n, pat) == Some(m.node) && #[trigger] fits(pat, route, i, v, caps, m.caps);
                assert(pat.len() > 0);
            }
        }
    }}
}
pub proof fn lemma_hits<T>(n: TreeRouter<T>, route: Seq<&[u8]>, i: int, v: int, caps: Seq<Option<usize>>, m: Match<T>)
    requires 0 <= i <= route.len()
    ensures m_node(n, route, i, v, caps).contains(m) <==> hit_by(n, route, i, v, caps, m)
    decreases route.len() - i, 4nat
{
    lemma_node(n, route, i, v, caps);
    let (a, b, c) = (m_frame(n, Branch::Static, route, i, v, caps), m_frame(n, Branch::Variable, route, i, v, caps), m_frame(n, Branch::Wildcard, route, i, v, caps));
    let ms = a + b + c;
    lemma_hits_frame(n, Branch::Static, route, i, v, caps, m);
    lemma_hits_frame(n, Branch::Variable, route, i, v, caps, m);
    lemma_hits_frame(n, Branch::Wildcard, route, i, v, caps, m);
    if ms.contains(m) {
        let t = ms.index_of(m);
        if t < a.len() { assert(a[t] == m); } else if t < a.len() + b.len() { assert(b[t - a.len()] == m); } else { assert(c[t - a.len() - b.len()] == m); }
    }
    if hit_by(n, route, i, v, caps, m) {
        let pat = choose|pat: Seq<PSeg>| node_at(n, pat) == Some(m.node) && #[trigger] fits(pat, route, i, v, caps, m.caps);
        assert(hit_by_kind(n, kind_of(pat), route, i, v, caps, m));
        if a.contains(m) { assert(ms[a.index_of(m)] == m); }
        else if b.contains(m) { assert(ms[a.len() + b.index_of(m)] == m); }
        else { assert(ms[a.len() + b.len() + c.index_of(m)] == m); }
    }
}
/// [P02] The handlers that are tried are exactly those at the patterns that match all segments.
pub proof fn theorem_matches<T>(r: TreeRouter<T>, e0: Environment, m: Match<T>)
    requires e0.route_state.wf()
    ensures matches_of(r, e0).contains(m) <==> hit_by(r, e0.route_state.route@, e0.route_state.index as int, e0.route_state.var_index as int, e0.route_state.variables@.take(e0.route_state.index as int), m)
{ lemma_hits(r, e0.route_state.route@, e0.route_state.index as int, e0.route_state.var_index as int, e0.route_state.variables@.take(e0.route_state.index as int), m); }
pub open spec fn rising(caps: Seq<Option<usize>>, v: int) -> bool {
    &&& forall|i: int, j: int| 0 <= i < j < caps.len() && (#[trigger] caps[i]) is Some && (#[trigger] caps[j]) is Some ==> caps[i]->0 <= caps[j]->0
    &&& forall|i: int| 0 <= i < caps.len() && (#[trigger] caps[i]) is Some ==> caps[i]->0 < v
}
/// Segments are captured in the order of the variables, and one `None` or number per segment.
pub proof fn lemma_rising(pat: Seq<PSeg>, route: Seq<&[u8]>, i: int, v: int, caps: Seq<Option<usize>>, out: Seq<Option<usize>>)
    requires 0 <= v <= i <= route.len() <= usize::MAX, caps.len() == i, rising(caps, v) || (pat.len() > 0 && pat[0] is Wild && rising(caps, v + 1)), fits(pat, route, i, v, caps, out)
    ensures rising(out, usize::MAX + 1), out.len() == route.len()
    decreases pat.len(), route.len() - i
{
    if pat.len() > 0 { match pat[0] {
        PSeg::Lit(b) => { assert(rising(caps.push(None), v)); lemma_rising(pat.skip(1), route, i + 1, v, caps.push(None), out); }
        PSeg::Var => { assert(rising(caps.push(Some(v as usize)), v + 1)); lemma_rising(pat.skip(1), route, i + 1, v + 1, caps.push(Some(v as usize)), out); }
        PSeg::Wild => {
            let c = caps.push(Some(v as usize));
            assert(rising(c, v + 1));
            if fits(pat.skip(1), route, i + 1, v + 1, c, out) { lemma_rising(pat.skip(1), route, i + 1, v + 1, c, out); }
            else { lemma_rising(pat, route, i + 1, v, c, out); }
        }
    }}
}
/// [P03] What lib/variables.vrs asks of the captures of a route holds for all that a router hands out.
pub proof fn theorem_rising<T: HandleRequest>(r: TreeRouter<T>, e0: Environment, k: int, e: Environment)
    requires e0.route_state.wf(), 0 <= k < matches_of(r, e0).len(), given(r, matches_of(r, e0)[k], e, e0),
        rising(e0.route_state.variables@.take(e0.route_state.index as int), e0.route_state.var_index as int)
    ensures rising(e.route_state.variables@.take(e.route_state.index as int), usize::MAX + 1)
{
    let m = matches_of(r, e0)[k];
    theorem_matches(r, e0, m);
    let rs = e0.route_state;
    let caps = rs.variables@.take(rs.index as int);
    let pat = choose|pat: Seq<PSeg>| node_at(r, pat) == Some(m.node) && #[trigger] fits(pat, rs.route@, rs.index as int, rs.var_index as int, caps, m.caps);
    lemma_rising(pat, rs.route@, rs.index as int, rs.var_index as int, caps, m.caps);
    assert(e.route_state.variables@.take(e.route_state.index as int) =~= m.caps);
}
