// ---- lib/handle_request.vrs: the contract every request handler (router or end point) is held to.
/// The position in the route and what was captured on the way to it.
pub open spec fn rs_same(x: RouteState, y: RouteState) -> bool {
    &&& x.wf() &&& x.route@ == y.route@ &&& x.index == y.index &&& x.var_index == y.var_index
    &&& x.variables@.take(x.index as int) == y.variables@.take(y.index as int)
}
/// `e` as seen by a caller that got it back: nothing but the status was touched.
pub open spec fn env_back(e: Environment, e0: Environment) -> bool {
    &&& rs_same(e.route_state, e0.route_state)
    &&& ctx_same(e.context, e0.context)
    &&& e.context.hyperlinks == e0.context.hyperlinks
    &&& e.response.rest() == e0.response.rest()
}
pub trait HandleRequest: Sized {
    /// `self` took the request `e` and answered it.
    spec fn served(&self, e: Environment) -> bool;
    /// `self` was offered `e`, did not answer and gave it back as `e2`.
    spec fn declined(&self, e: Environment, e2: Environment) -> bool;
    /// The links reported for `self` when it's reached through `base`.
    spec fn links(&self, base: LinkV) -> ISet<LinkV>;
    fn handle_request<'a, 'b, 'l, 'g>(&self, environment: Environment<'a, 'b, 'l, 'g>) -> (r: Result<(), Environment<'a, 'b, 'l, 'g>>)
        requires environment.route_state.wf(),
        ensures match r {
            Ok(()) => self.served(environment),
            Err(e) => self.declined(environment, e) && env_back(e, environment),
        };
    fn hyperlinks<'a>(&'a self, base: Link<'a>) -> (r: Vec<Link<'a>>)
        ensures lset(r@) =~= self.links(base@);
}
