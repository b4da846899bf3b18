// ---- lib/route_state.vrs: RouteState, extracted and verified
//@item src/handler/routing.rs RouteState
//@end
impl<'a> RouteState<'a> {
    pub open spec fn wf(&self) -> bool {
        &&& self.route.len() == self.variables.len()
        &&& self.index <= self.route.len()
        &&& self.var_index <= self.index
    }
    /// derive(Clone)
    #[verifier::external_body]
    pub fn clone(&self) -> (r: Self) ensures r.route@ == self.route@, r.variables@ == self.variables@, r.index == self.index, r.var_index == self.var_index
    { unimplemented!() }
//@fn src/handler/routing.rs RouteState - get
//@sig pub fn get(&self) -> (r: Option<&'a [u8]>)
//@spec
    ensures self.index < self.route.len() ==> r == Some(self.route@[self.index as int]), self.index >= self.route.len() ==> r is None
//@end
//@fn src/handler/routing.rs RouteState - skip
//@sig pub fn skip(&mut self)
//@spec
    requires old(self).wf(), old(self).index < old(self).route.len()
    ensures
        final(self).wf(), final(self).route == old(self).route,
        final(self).index == old(self).index + 1, final(self).var_index == old(self).var_index,
        final(self).variables@ == old(self).variables@.update(old(self).index as int, None),
//@end
//@fn src/handler/routing.rs RouteState - keep
//@sig pub fn keep(&mut self)
//@spec
    requires old(self).wf(), old(self).index < old(self).route.len()
    ensures
        final(self).wf(), final(self).route == old(self).route,
        final(self).index == old(self).index + 1, final(self).var_index == old(self).var_index + 1,
        final(self).variables@ == old(self).variables@.update(old(self).index as int, Some(old(self).var_index)),
//@end
//@fn src/handler/routing.rs RouteState - fuse
//@sig pub fn fuse(&mut self)
//@spec
    requires old(self).wf(), old(self).index < old(self).route.len()
    ensures
        final(self).wf(), final(self).route == old(self).route,
        final(self).index == old(self).index + 1, final(self).var_index == old(self).var_index,
        final(self).variables@ == old(self).variables@.update(old(self).index as int, Some(old(self).var_index)),
//@end
//@fn src/handler/routing.rs RouteState - snapshot
//@sig pub fn snapshot(&self) -> (r: (usize, usize))
//@spec
    ensures r == (self.index, self.var_index)
//@end
//@fn src/handler/routing.rs RouteState - go_to
//@sig pub fn go_to(&mut self, snapshot: (usize, usize))
//@spec
    ensures *final(self) == (RouteState { index: snapshot.0, var_index: snapshot.1, ..*old(self) })
//@end
//@fn src/handler/routing.rs RouteState - is_empty
//@sig pub fn is_empty(&self) -> (r: bool)
//@spec
    ensures r == (self.index == self.route.len())
//@end
}
