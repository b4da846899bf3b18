use vstd::prelude::*;
use vstd::std_specs::cmp::*;
verus! {
//@include lib/prelude.vrs
//@include lib/maybe.vrs
//@include lib/route_state.vrs
//@include lib/http.vrs
//@include lib/env.vrs
//@include lib/handle_request.vrs
//@include lib/variables.vrs
//@item src/handler/variables.rs Variables
//@end
//@item src/handler/method_router.rs MethodRouter
//@end
//@item src/handler/status_router.rs StatusRouter
//@end
//@item src/handler/or_else.rs OrElse
//@end
/// `.into()` between the types of a variable map.
pub trait VxInto<T>: Sized { spec fn into_ok(self, r: T) -> bool; fn vx_into(self) -> (r: T) ensures self.into_ok(r); }
/// Parameters::from(HashMap) (P22 verifies it)
impl VxInto<Parameters> for HashMap<MaybeUtf8Owned, MaybeUtf8Owned> {
    open spec fn into_ok(self, r: Parameters) -> bool { r@ == vmap(self@) }
    #[verifier::external_body]
    fn vx_into(self) -> (r: Parameters) { unimplemented!() }
}
/// std::mem::replace
#[verifier::external_body]
pub fn vx_replace<T>(a: &mut T, b: T) -> (r: T) ensures r == *old(a), *final(a) == b { unimplemented!() }

// ---------------------------------------------------------------- what each composing router promises
pub open spec fn with_vars<'a, 'b, 'l, 'g>(e: Environment<'a, 'b, 'l, 'g>, names: Seq<MaybeUtf8Owned>, w: Environment<'a, 'b, 'l, 'g>) -> bool {
    &&& w.context.variables@ == vars_of(e.route_state, names)
    &&& w.response == e.response && w.route_state == e.route_state
    &&& w.context == (Context { variables: w.context.variables, ..e.context })
}
impl<H: HandleRequest> HandleRequest for Variables<H> {
    /// The handler sees the request with the named variables of its route.
    open spec fn served(&self, e: Environment) -> bool { exists|w: Environment| #[trigger] self.handler.served(w) && with_vars(e, self.variables@, w) }
    open spec fn declined(&self, e: Environment, e2: Environment) -> bool {
        exists|w: Environment, w2: Environment| #[trigger] self.handler.declined(w, w2) && with_vars(e, self.variables@, w) && e2.response == w2.response
    }
    open spec fn links(&self, base: LinkV) -> ISet<LinkV> { self.handler.links(base) }
//@fn src/handler/variables.rs Variables HandleRequest handle_request
//@sig fn handle_request<'a, 'b, 'l, 'g>(&self, env0: Environment<'a, 'b, 'l, 'g>) -> (r: Result<(), Environment<'a, 'b, 'l, 'g>>)
//@method into => vx_into
//@tok :: std :: mem :: replace => vx_replace
//@at entry
    let mut environment = env0;
//@at before match self . handler . handle_request
    let ghost w = environment;
    proof { assert(with_vars(env0, self.variables@, w)); }
//@at return
    proof { if vx_ret is Err {
        let e2 = vx_ret->Err_0;
        assert(env_back(e2, env0));
        assert(self.declined(env0, e2));
    } }
//@end
//@fn src/handler/variables.rs Variables HandleRequest hyperlinks
//@sig fn hyperlinks<'a>(&'a self, base: Link<'a>) -> (r: Vec<Link<'a>>)
//@end
}

impl<T: HandleRequest> HandleRequest for MethodRouter<T> {
    open spec fn served(&self, e: Environment) -> bool { self.handlers@.contains_key(e.context.method@) && self.handlers@[e.context.method@].served(e) }
    open spec fn declined(&self, e: Environment, e2: Environment) -> bool {
        if self.handlers@.contains_key(e.context.method@) { self.handlers@[e.context.method@].declined(e, e2) } else { e2.response.st() == StatusCode::MethodNotAllowed }
    }
    open spec fn links(&self, base: LinkV) -> ISet<LinkV> {
        ISet::new(|l: LinkV| exists|m: MethodV| #[trigger] self.handlers@.contains_key(m) && self.handlers@[m].links(LinkV { method: Some(m), path: base.path }).contains(l))
    }
//@fn src/handler/method_router.rs MethodRouter HandleRequest handle_request
//@sig fn handle_request<'a, 'b, 'l, 'g>(&self, env0: Environment<'a, 'b, 'l, 'g>) -> (r: Result<(), Environment<'a, 'b, 'l, 'g>>)
//@at entry
    let mut environment = env0;
//@end
//@fn src/handler/method_router.rs MethodRouter HandleRequest hyperlinks
//@sig fn hyperlinks<'a>(&'a self, base: Link<'a>) -> (r: Vec<Link<'a>>)
//@method iter => vx_seq
//@at entry
    broadcast use gl;
    let ghost b = base@;
//@at loop 0 init
    let ghost total = mlinks(vx_it0@, b);
    proof { lemma_mlinks(vx_it0@, self.handlers@, b); assert(total =~= self.links(b)); }
//@at loop 0 spec
    invariant
        base@ == b, total == self.links(b),
        lset(vx_c1@).union(mlinks(vx_it0@, b)) == total,
    ensures lset(vx_c1@) == self.links(b)
//@at loop 0 next
    broadcast use gl;
    let ghost rest0 = vx_it0@;
    let ghost c0 = lset(vx_c1@);
//@at loop 0 start
    broadcast use gl;
    let ghost mut ls: ISet<LinkV> = ISet::empty();
//@at loop 1 init
    proof { ls = lset(vx_it1@); }
//@at loop 1 spec
    invariant lset(vx_c1@).union(lset(vx_it1@)) == c0.union(ls)
    ensures lset(vx_c1@) == c0.union(ls)
//@at loop 1 next
    broadcast use gl;
    let ghost rest1 = vx_it1@;
    let ghost c1 = lset(vx_c1@);
//@at loop 1 end
    proof { assert(lset(vx_c1@).union(lset(vx_it1@)) =~= c1.union(lset(rest1))); }
//@at loop 1 exit
    proof { assert(lset(vx_it1@) =~= ISet::empty()); assert(lset(vx_c1@).union(lset(vx_it1@)) =~= lset(vx_c1@)); }
//@at loop 0 end
    proof {
        assert(ls =~= rest0[0].1.links(LinkV { method: Some(rest0[0].0@), path: b.path }));
        assert(lset(vx_c1@).union(mlinks(vx_it0@, b)) =~= c0.union(mlinks(rest0, b)));
    }
//@at loop 0 exit
    proof { assert(lset(vx_c1@).union(mlinks(vx_it0@, b)) =~= lset(vx_c1@)); }
//@end
}

impl<T: HandleRequest> HandleRequest for StatusRouter<T> {
    open spec fn served(&self, e: Environment) -> bool { self.handlers@.contains_key(e.response.st()) && self.handlers@[e.response.st()].served(e) }
    open spec fn declined(&self, e: Environment, e2: Environment) -> bool {
        if self.handlers@.contains_key(e.response.st()) { self.handlers@[e.response.st()].declined(e, e2) } else { e2 == e }
    }
    open spec fn links(&self, base: LinkV) -> ISet<LinkV> {
        ISet::new(|l: LinkV| exists|s: StatusCode| #[trigger] self.handlers@.contains_key(s) && self.handlers@[s].links(base).contains(l))
    }
//@fn src/handler/status_router.rs StatusRouter HandleRequest handle_request
//@sig fn handle_request<'a, 'b, 'l, 'g>(&self, environment: Environment<'a, 'b, 'l, 'g>) -> (r: Result<(), Environment<'a, 'b, 'l, 'g>>)
//@end
//@fn src/handler/status_router.rs StatusRouter HandleRequest hyperlinks
//@sig fn hyperlinks<'a>(&'a self, base: Link<'a>) -> (r: Vec<Link<'a>>)
//@method iter => vx_seq
//@at entry
    broadcast use gl;
    let ghost b = base@;
//@at loop 0 init
    let ghost total = slinks(vx_it0@, b);
    proof { lemma_slinks(vx_it0@, self.handlers@, b); assert(total =~= self.links(b)); }
//@at loop 0 spec
    invariant
        base@ == b, total == self.links(b),
        lset(vx_c1@).union(slinks(vx_it0@, b)) == total,
    ensures lset(vx_c1@) == self.links(b)
//@at loop 0 next
    broadcast use gl;
    let ghost rest0 = vx_it0@;
    let ghost c0 = lset(vx_c1@);
//@at loop 0 start
    broadcast use gl;
    let ghost mut ls: ISet<LinkV> = ISet::empty();
//@at loop 1 init
    proof { ls = lset(vx_it1@); }
//@at loop 1 spec
    invariant lset(vx_c1@).union(lset(vx_it1@)) == c0.union(ls)
    ensures lset(vx_c1@) == c0.union(ls)
//@at loop 1 next
    broadcast use gl;
    let ghost rest1 = vx_it1@;
    let ghost c1 = lset(vx_c1@);
//@at loop 1 end
    proof { assert(lset(vx_c1@).union(lset(vx_it1@)) =~= c1.union(lset(rest1))); }
//@at loop 1 exit
    proof { assert(lset(vx_it1@) =~= ISet::empty()); assert(lset(vx_c1@).union(lset(vx_it1@)) =~= lset(vx_c1@)); }
//@at loop 0 end
    proof {
        assert(ls =~= rest0[0].1.links(b));
        assert(lset(vx_c1@).union(slinks(vx_it0@, b)) =~= c0.union(slinks(rest0, b)));
    }
//@at loop 0 exit
    proof { assert(lset(vx_c1@).union(slinks(vx_it0@, b)) =~= lset(vx_c1@)); }
//@end
}

impl<A: HandleRequest, B: HandleRequest> HandleRequest for OrElse<A, B> {
    open spec fn served(&self, e: Environment) -> bool {
        self.primary.served(e) || exists|e1: Environment| #[trigger] self.primary.declined(e, e1) && env_back(e1, e) && self.secondary.served(e1)
    }
    open spec fn declined(&self, e: Environment, e2: Environment) -> bool {
        exists|e1: Environment| #[trigger] self.primary.declined(e, e1) && env_back(e1, e) && self.secondary.declined(e1, e2)
    }
    open spec fn links(&self, base: LinkV) -> ISet<LinkV> { self.primary.links(base).union(self.secondary.links(base)) }
//@fn src/handler/or_else.rs OrElse HandleRequest handle_request
//@sig fn handle_request<'a, 'b, 'l, 'g>(&self, environment: Environment<'a, 'b, 'l, 'g>) -> (r: Result<(), Environment<'a, 'b, 'l, 'g>>)
//@result or_else
//@end
//@fn src/handler/or_else.rs OrElse HandleRequest hyperlinks
//@sig fn hyperlinks<'a>(&'a self, base: Link<'a>) -> (r: Vec<Link<'a>>)
//@method extend => vx_extend
//@at return
    proof { assert(lset(vx_ret@) =~= self.links(base@)); }
//@end
}

impl<H: HandleRequest> HandleRequest for Option<H> {
    open spec fn served(&self, e: Environment) -> bool { match self { Some(h) => h.served(e), None => false } }
    open spec fn declined(&self, e: Environment, e2: Environment) -> bool { match self { Some(h) => h.declined(e, e2), None => e2.response.st() == StatusCode::NotFound } }
    open spec fn links(&self, base: LinkV) -> ISet<LinkV> { match self { Some(h) => h.links(base), None => ISet::empty() } }
//@fn src/handler/mod.rs Option HandleRequest handle_request
//@sig fn handle_request<'a, 'b, 'l, 'g>(&self, env0: Environment<'a, 'b, 'l, 'g>) -> (r: Result<(), Environment<'a, 'b, 'l, 'g>>)
//@at entry
    let mut environment = env0;
//@end
//@fn src/handler/mod.rs Option HandleRequest hyperlinks
//@sig fn hyperlinks<'a>(&'a self, base_link: Link<'a>) -> (r: Vec<Link<'a>>)
//@at return
    proof { assert(lset(vx_ret@) =~= self.links(base_link@)); }
//@end
}

/// A request handler: whatever it does with the request, it has been given it.
pub trait Handler: Sized {
    spec fn ran(&self, c: Context, r: Response) -> bool;
    fn handle(&self, context: Context, response: Response) ensures self.ran(context, response);
    /// what the handler says about itself
    spec fn desc(&self) -> Option<Text>;
    fn description(&self) -> (r: Option<Text>) ensures r == self.desc();
}
/// std::borrow::Cow<'static, str>
#[verifier::external_body] pub struct Text { x: u8 }
/// A function or closure as a handler.
pub struct VxFn<F>(pub F);
impl<F> VxFn<F> {
//@fn src/handler/mod.rs F Handler handle
//@sig pub fn handle<'x, 'a, 'b, 'l, 'g>(&'x self, context: Context<'x, 'a, 'b, 'l>, response: Response<'a, 'b>) where F: Fn(Context<'x, 'a, 'b, 'l>, Response<'a, 'b>)
//@tok self ( $a , $b ) => ( self . 0 ) ( $a , $b )
//@spec
    requires call_requires(self.0, (context, response)),
    ensures call_ensures(self.0, (context, response), ()),
//@end
}
/// std::sync::Arc
pub struct Arc<T>(pub T);
/// std::boxed::Box of a trait object: dispatched to the handler in it
pub struct VxBox<H>(pub H);
impl<T: Handler> Handler for Arc<T> {
    open spec fn ran(&self, c: Context, r: Response) -> bool { self.0.ran(c, r) }
    open spec fn desc(&self) -> Option<Text> { self.0.desc() }
//@fn src/handler/mod.rs Arc Handler handle
//@sig fn handle(&self, context: Context, response: Response)
//@tok (**self) => ( self . 0 )
//@end
//@fn src/handler/mod.rs Arc Handler description
//@sig fn description(&self) -> (r: Option<Text>)
//@tok (**self) => ( self . 0 )
//@end
}
impl<H: Handler> Handler for VxBox<H> {
    open spec fn ran(&self, c: Context, r: Response) -> bool { self.0.ran(c, r) }
    open spec fn desc(&self) -> Option<Text> { self.0.desc() }
//@fn src/handler/mod.rs Box Handler handle
//@sig fn handle(&self, context: Context, response: Response)
//@tok (**self) => ( self . 0 )
//@end
//@fn src/handler/mod.rs Box Handler description
//@sig fn description(&self) -> (r: Option<Text>)
//@tok (**self) => ( self . 0 )
//@end
}
/// Something which creates the content of a response.
pub trait SendResponse: Sized { }
pub trait CreateContent: Sized {
    type Output: SendResponse;
    spec fn creates(&self, c: Context, o: Self::Output) -> bool;
    fn create_content(&self, context: Context) -> (r: Self::Output) ensures self.creates(context, r);
}
/// A function or closure which creates content.
pub struct VxMake<F>(pub F);
impl<F> VxMake<F> {
//@fn src/handler/mod.rs T CreateContent create_content
//@sig pub fn create_content<'x, 'a, 'b, 'l, R>(&self, context: Context<'x, 'a, 'b, 'l>) -> (r: R) where F: Fn(Context<'x, 'a, 'b, 'l>) -> R
//@tok self ( $a ) => ( self . 0 ) ( $a )
//@spec
    requires call_requires(self.0, (context,)),
    ensures call_ensures(self.0, (context,), r),
//@end
}
//@item src/handler/mod.rs ContentFactory
//@end
impl<T: CreateContent> ContentFactory<T> {
//@fn src/handler/mod.rs ContentFactory<T> From<T> from
//@sig pub fn from(factory: T) -> (r: ContentFactory<T>)
//@spec
    ensures r.0 == factory,
//@end
}
impl<T: CreateContent> HandleRequest for ContentFactory<T> {
    /// what was created is sent with the response
    open spec fn served(&self, e: Environment) -> bool { exists|o: T::Output| #[trigger] self.0.creates(e.context, o) && e.response.is_sent(o) }
    open spec fn declined(&self, e: Environment, e2: Environment) -> bool { false }
    open spec fn links(&self, base: LinkV) -> ISet<LinkV> { ISet::empty().insert(base) }
//@fn src/handler/mod.rs ContentFactory<T> HandleRequest handle_request
//@sig fn handle_request<'a, 'b, 'l, 'g>(&self, environment: Environment<'a, 'b, 'l, 'g>) -> (r: Result<(), Environment<'a, 'b, 'l, 'g>>)
//@end
//@fn src/handler/mod.rs ContentFactory<T> HandleRequest hyperlinks
//@sig fn hyperlinks<'a>(&'a self, base_link: Link<'a>) -> (r: Vec<Link<'a>>)
//@at return
    proof { assert(vx_ret@ =~= Seq::empty().push(base_link)); assert(lset(vx_ret@) =~= self.links(base_link@)); }
//@end
}
impl<'a, 'b> Response<'a, 'b> {
    /// this content is what it's answered with
    pub uninterp spec fn is_sent<R>(&self, content: R) -> bool;
    /// verified in unit responses
    #[verifier::external_body] pub fn send<R: SendResponse>(self, content: R) ensures self.is_sent(content) { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_handler_ref<'a, H: Handler>(h: &'a H) -> (r: HandlerRef<'a>) ensures r.desc() == h.desc() { unimplemented!() }
impl<'a> HandlerRef<'a> { pub uninterp spec fn desc(&self) -> Option<Text>; }
/// Stands for any type with `Handler` (the blanket impl).
pub struct VxHandler<H> { pub h: H }
impl<H: Handler> Handler for VxHandler<H> {
    open spec fn ran(&self, c: Context, r: Response) -> bool { self.h.ran(c, r) }
    fn handle(&self, context: Context, response: Response) { self.h.handle(context, response) }
    open spec fn desc(&self) -> Option<Text> { self.h.desc() }
    fn description(&self) -> (r: Option<Text>) { self.h.description() }
}
impl<H: Handler> HandleRequest for VxHandler<H> {
    open spec fn served(&self, e: Environment) -> bool { self.ran(e.context, e.response) }
    open spec fn declined(&self, e: Environment, e2: Environment) -> bool { false }
    open spec fn links(&self, base: LinkV) -> ISet<LinkV> { ISet::empty().insert(base) }
//@fn src/handler/mod.rs H HandleRequest handle_request
//@sig fn handle_request<'a, 'b, 'l, 'g>(&self, environment: Environment<'a, 'b, 'l, 'g>) -> (r: Result<(), Environment<'a, 'b, 'l, 'g>>)
//@end
//@fn src/handler/mod.rs H HandleRequest hyperlinks
//@sig fn hyperlinks<'a>(&'a self, base0: Link<'a>) -> (r: Vec<Link<'a>>)
//@tok Some(self) => Some(vx_handler_ref(self))
//@at entry
    broadcast use gl;
    let mut base_link = base0;
//@at return
    proof { assert(base_link@.path =~= base0@.path); assert(vx_ret@ =~= Seq::empty().push(base_link)); assert(lset(vx_ret@) =~= self.links(base0@));
        // the link leads to this very handler
        assert(vx_ret@[0].handler is Some && vx_ret@[0].handler->0.desc() == self.desc()); }
//@end
}
/// The links to the entries that are still to come.
pub open spec fn slinks<T: HandleRequest>(s: Seq<(&StatusCode, &T)>, b: LinkV) -> ISet<LinkV>
    decreases s.len()
{ if s.len() == 0 { ISet::empty() } else { s[0].1.links(b).union(slinks(s.skip(1), b)) } }
pub proof fn lemma_slinks0<T: HandleRequest>(s: Seq<(&StatusCode, &T)>, b: LinkV, l: LinkV)
    ensures slinks(s, b).contains(l) <==> exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).1.links(b).contains(l)
    decreases s.len()
{
    if s.len() > 0 {
        let rest = s.skip(1);
        lemma_slinks0(rest, b, l);
        if exists|i: int| 0 <= i < rest.len() && (#[trigger] rest[i]).1.links(b).contains(l) {
            let i = choose|i: int| 0 <= i < rest.len() && (#[trigger] rest[i]).1.links(b).contains(l);
            assert(s[i + 1] == rest[i]);
        }
        if exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).1.links(b).contains(l) {
            let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).1.links(b).contains(l);
            if i > 0 { assert(rest[i - 1] == s[i]); }
        }
    }
}
pub proof fn lemma_slinks<T: HandleRequest>(s: Seq<(&StatusCode, &T)>, m: Map<StatusCode, T>, b: LinkV)
    requires
        forall|i: int| 0 <= i < s.len() ==> m.contains_key((#[trigger] s[i]).0.kv()) && m[s[i].0.kv()] == *s[i].1,
        forall|k: StatusCode| #[trigger] m.contains_key(k) ==> exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0.kv() == k,
    ensures forall|l: LinkV| slinks(s, b).contains(l) <==> exists|k: StatusCode| #[trigger] m.contains_key(k) && m[k].links(b).contains(l)
{
    assert forall|l: LinkV| slinks(s, b).contains(l) <==> exists|k: StatusCode| #[trigger] m.contains_key(k) && m[k].links(b).contains(l) by {
        lemma_slinks0(s, b, l);
        if exists|k: StatusCode| #[trigger] m.contains_key(k) && m[k].links(b).contains(l) {
            let k = choose|k: StatusCode| #[trigger] m.contains_key(k) && m[k].links(b).contains(l);
            let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0.kv() == k;
            assert(s[i].1.links(b).contains(l));
        }
        if slinks(s, b).contains(l) {
            let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).1.links(b).contains(l);
            assert(m.contains_key(s[i].0.kv()));
        }
    }
}
/// The links to the entries that are still to come.
pub open spec fn mlinks<T: HandleRequest>(s: Seq<(&Method, &T)>, b: LinkV) -> ISet<LinkV>
    decreases s.len()
{ if s.len() == 0 { ISet::empty() } else { s[0].1.links(LinkV { method: Some(s[0].0@), path: b.path }).union(mlinks(s.skip(1), b)) } }
pub proof fn lemma_mlinks0<T: HandleRequest>(s: Seq<(&Method, &T)>, b: LinkV, l: LinkV)
    ensures mlinks(s, b).contains(l) <==> exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).1.links(LinkV { method: Some(s[i].0@), path: b.path }).contains(l)
    decreases s.len()
{
    if s.len() > 0 {
        let rest = s.skip(1);
        lemma_mlinks0(rest, b, l);
        if exists|i: int| 0 <= i < rest.len() && (#[trigger] rest[i]).1.links(LinkV { method: Some(rest[i].0@), path: b.path }).contains(l) {
            let i = choose|i: int| 0 <= i < rest.len() && (#[trigger] rest[i]).1.links(LinkV { method: Some(rest[i].0@), path: b.path }).contains(l);
            assert(s[i + 1] == rest[i]);
        }
        if exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).1.links(LinkV { method: Some(s[i].0@), path: b.path }).contains(l) {
            let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).1.links(LinkV { method: Some(s[i].0@), path: b.path }).contains(l);
            if i > 0 { assert(rest[i - 1] == s[i]); }
        }
    }
}
pub proof fn lemma_mlinks<T: HandleRequest>(s: Seq<(&Method, &T)>, m: Map<MethodV, T>, b: LinkV)
    requires
        forall|i: int| 0 <= i < s.len() ==> m.contains_key((#[trigger] s[i]).0.kv()) && m[s[i].0.kv()] == *s[i].1,
        forall|k: MethodV| #[trigger] m.contains_key(k) ==> exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0.kv() == k,
    ensures forall|l: LinkV| mlinks(s, b).contains(l) <==> exists|k: MethodV| #[trigger] m.contains_key(k) && m[k].links(LinkV { method: Some(k), path: b.path }).contains(l)
{
    assert forall|l: LinkV| mlinks(s, b).contains(l) <==> exists|k: MethodV| #[trigger] m.contains_key(k) && m[k].links(LinkV { method: Some(k), path: b.path }).contains(l) by {
        lemma_mlinks0(s, b, l);
        if exists|k: MethodV| #[trigger] m.contains_key(k) && m[k].links(LinkV { method: Some(k), path: b.path }).contains(l) {
            let k = choose|k: MethodV| #[trigger] m.contains_key(k) && m[k].links(LinkV { method: Some(k), path: b.path }).contains(l);
            let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0.kv() == k;
            assert(s[i].1.links(LinkV { method: Some(s[i].0@), path: b.path }).contains(l));
        }
        if mlinks(s, b).contains(l) {
            let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).1.links(LinkV { method: Some(s[i].0@), path: b.path }).contains(l);
            assert(m.contains_key(s[i].0.kv()));
        }
    }
}
pub broadcast proof fn lemma_lset_push<'a>(s: Seq<Link<'a>>, l: Link<'a>)
    ensures #[trigger] lset(s.push(l)) == lset(s).insert(l@)
{
    assert(forall|i: int| 0 <= i < s.len() ==> s.push(l)[i] == s[i]);
    assert forall|x: LinkV| lset(s).insert(l@).contains(x) implies lset(s.push(l)).contains(x) by {
        if lset(s).contains(x) { let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i])@ == x; assert(s.push(l)[i] == s[i]); } else { assert(s.push(l)[s.len() as int]@ == x); }
    }
    assert(lset(s.push(l)) =~= lset(s).insert(l@));
}
pub broadcast proof fn lemma_lset_empty<'a>(s: Seq<Link<'a>>)
    requires s.len() == 0
    ensures #[trigger] lset(s) == ISet::<LinkV>::empty()
{ assert(lset(s) =~= ISet::empty()); }
pub broadcast proof fn lemma_lset_skip<'a>(s: Seq<Link<'a>>)
    requires s.len() > 0
    ensures lset(s) == (#[trigger] lset(s.skip(1))).insert(s[0]@)
{
    assert forall|x: LinkV| lset(s).contains(x) implies lset(s.skip(1)).insert(s[0]@).contains(x) by {
        let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i])@ == x;
        if i > 0 { assert(s.skip(1)[i - 1] == s[i]); }
    }
    assert forall|x: LinkV| lset(s.skip(1)).insert(s[0]@).contains(x) implies lset(s).contains(x) by {
        if lset(s.skip(1)).contains(x) { let i = choose|i: int| 0 <= i < s.skip(1).len() && (#[trigger] s.skip(1)[i])@ == x; assert(s[i + 1]@ == x); } else { assert(s[0]@ == x); }
    }
    assert(lset(s) =~= lset(s.skip(1)).insert(s[0]@));
}
pub broadcast group gl { lemma_lset_push, lemma_lset_empty, lemma_lset_skip }
/// Vec::extend
pub trait VxExtend<T> { fn vx_extend(&mut self, o: Vec<T>); }
impl<'a> VxExtend<Link<'a>> for Vec<Link<'a>> {
    #[verifier::external_body]
    fn vx_extend(&mut self, o: Vec<Link<'a>>) ensures final(self)@ == old(self)@ + o@, lset(final(self)@) == lset(old(self)@).union(lset(o@)) { unimplemented!() }
}
} // verus!
fn main() {}
