//! Routers: P02 dispatch, P03 path variables, P04 hyperlinks, P05 registration, P06 merging, P07 composition.
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};

use rustful::context::hypermedia::{Link, LinkSegment, SegmentType};
use rustful::context::MaybeUtf8;
use rustful::handler::{Build, ApplyContext, BuilderContext, Environment, FromHandler, VariableNames, HandleRequest, Merge, MethodRouter, OrElse, StatusRouter, TreeRouter, Variables};
use rustful::handler::tree_router::Builder as TB;
use rustful::server::ServerInstance;
use std::sync::Arc;
use rustful::{ContentFactory, Context, CreateContent, Handler, Method, Response, Server, StatusCode};
use serde_json::{json, Value};

use crate::gen::{b2s, hash, s2b, words, Gen, Stats};
use crate::http;
use crate::Prop;

type B = Vec<u8>;

// ------------------------------------------------------------------ the handler that is registered
#[derive(Clone, Debug, Default, PartialEq)]
pub struct Probe { pub id: i64, pub dec: Option<u16> }

#[derive(Clone, Debug, PartialEq)]
pub struct Call { pub id: i64, pub vars: BTreeMap<B, B>, pub links: Vec<String>, pub status: u16, pub pos: (usize, usize), pub left: usize }

thread_local! { pub static LOG: RefCell<Vec<Call>> = RefCell::new(vec![]); }

pub fn link_str(l: &Link) -> String {
    let mut s = l.method.as_ref().map(|m| m.to_string()).unwrap_or_else(|| "-".into());
    for p in &l.path { s.push_str(match p.ty { SegmentType::Static => "|S:", SegmentType::VariableSegment => "|V:", SegmentType::VariableSequence => "|Q:" }); s.push_str(&b2s(p.label.as_ref())); }
    s
}

impl HandleRequest for Probe {
    fn handle_request<'a, 'b, 'l, 'g>(&self, mut e: Environment<'a, 'b, 'l, 'g>) -> Result<(), Environment<'a, 'b, 'l, 'g>> {
        let mut left = 0;
        let pos = e.route_state.snapshot();
        let mut rs = e.route_state.clone();
        while !rs.is_empty() { rs.skip(); left += 1 }
        LOG.with(|l| l.borrow_mut().push(Call {
            id: self.id,
            vars: e.context.variables.iter().map(|(k, v)| (k.to_vec(), v.to_vec())).collect(),
            links: e.context.hyperlinks.iter().map(link_str).collect(),
            status: e.response.status().to_u16(),
            pos, left,
        }));
        match self.dec {
            None => { e.response.set_status(StatusCode::Accepted); Ok(()) }
            Some(0) => Err(e),
            Some(c) => { e.response.set_status(StatusCode::from_u16(c)); Err(e) }
        }
    }
    fn hyperlinks<'a>(&'a self, base: Link<'a>) -> Vec<Link<'a>> {
        let mut v = vec![base];
        // some handlers offer more below their own path
        if self.id % 5 == 3 { for m in &[Method::Get, Method::Put] { let mut l = v[0].clone(); l.method = Some(m.clone()); l.path.push(LinkSegment { label: MaybeUtf8::from("sub"), ty: SegmentType::Static }); v.push(l) } }
        v
    }
}
impl FromHandler<Probe> for Probe { fn from_handler(_: BuilderContext, h: Probe) -> Probe { h } }
impl ApplyContext for Probe { fn apply_context(&mut self, _: BuilderContext) {} fn prepend_context(&mut self, _: BuilderContext) {} }
impl Merge for Probe { fn merge(&mut self, o: Probe) { *self = o } }

pub type Ta = TreeRouter<Option<Variables<Probe>>>;
pub type Tb = TreeRouter<MethodRouter<Variables<Probe>>>;

// ------------------------------------------------------------------ the model
#[derive(Clone, Default, Debug)]
pub struct Leaf { id: i64, dec: Option<u16>, names: Vec<B> }
#[derive(Clone, Default, Debug)]
pub struct Node { item: BTreeMap<String, Leaf>, st: BTreeMap<B, Node>, var: Option<Box<Node>>, wild: Option<Box<Node>> }

pub fn segs(p: &[u8]) -> Vec<B> {
    let p = if p.first() == Some(&b'/') { &p[1..] } else { p };
    let p = if p.last() == Some(&b'/') { &p[..p.len() - 1] } else { p };
    if p.is_empty() { return vec![] }
    let mut out = vec![vec![]];
    for &c in p { if c == b'/' { out.push(vec![]) } else { out.last_mut().unwrap().push(c) } }
    out
}
impl Node {
    fn child(&mut self, s: &[u8], create: bool) -> Option<&mut Node> {
        match s.first() {
            Some(b':') => { if self.var.is_none() && create { self.var = Some(Box::new(Node::default())) } self.var.as_mut().map(|b| &mut **b) }
            Some(b'*') => { if self.wild.is_none() && create { self.wild = Some(Box::new(Node::default())) } self.wild.as_mut().map(|b| &mut **b) }
            _ => { if create { Some(self.st.entry(s.to_vec()).or_insert_with(Node::default)) } else { self.st.get_mut(s) } }
        }
    }
    fn walk(&mut self, path: &[u8], names: &mut Vec<B>, create: bool) -> Option<&mut Node> {
        let mut n = self;
        for s in segs(path) {
            if let Some(b':') | Some(b'*') = s.first() { names.push(s[1..].to_vec()) }
            n = n.child(&s, create)?;
        }
        Some(n)
    }
    fn prepend(&mut self, names: &[B]) {
        for l in self.item.values_mut() { let mut v = names.to_vec(); v.extend(l.names.clone()); l.names = v }
        for c in self.st.values_mut() { c.prepend(names) }
        if let Some(c) = &mut self.var { c.prepend(names) }
        if let Some(c) = &mut self.wild { c.prepend(names) }
    }
    fn merge(&mut self, o: Node) {
        for (m, l) in o.item { self.item.insert(m, l); }
        for (k, n) in o.st { self.st.entry(k).or_insert_with(Node::default).merge(n) }
        if let Some(n) = o.var { self.var.get_or_insert_with(Default::default).merge(*n) }
        if let Some(n) = o.wild { self.wild.get_or_insert_with(Default::default).merge(*n) }
    }
    fn matches<'n>(&'n self, route: &[B], i: usize, v: usize, caps: &mut Vec<Option<usize>>, out: &mut Vec<(&'n Node, Vec<Option<usize>>)>) {
        if i == route.len() { out.push((self, caps.clone())); return }
        if let Some(c) = self.st.get(&route[i]) { caps.push(None); c.matches(route, i + 1, v, caps, out); caps.pop(); }
        if let Some(c) = &self.var { caps.push(Some(v)); c.matches(route, i + 1, v + 1, caps, out); caps.pop(); }
        if let Some(c) = &self.wild {
            for k in 1..=route.len() - i {
                for _ in 0..k { caps.push(Some(v)) }
                c.matches(route, i + k, v + 1, caps, out);
                for _ in 0..k { caps.pop(); }
            }
        }
    }
    fn links(&self, m: &str) -> BTreeSet<String> {
        let mut s = BTreeSet::new();
        for l in self.item.values() { if l.id % 5 == 3 { s.insert("GET|S:sub".into()); s.insert("PUT|S:sub".into()); } }
        for k in self.item.keys() { if k != m { s.insert(if k.is_empty() { "-".to_string() } else { k.clone() }); } }
        for k in self.st.keys() { s.insert(format!("-|S:{}", b2s(k))); }
        if self.var.is_some() { s.insert("-|V:".into()); }
        if self.wild.is_some() { s.insert("-|Q:".into()); }
        s
    }
}
fn bind(names: &[B], route: &[B], caps: &[Option<usize>]) -> BTreeMap<B, B> {
    let mut m = BTreeMap::new();
    let mut k = 0;
    while k < caps.len() {
        if let Some(v) = caps[k] {
            let mut e = k;
            while e < caps.len() && caps[e] == Some(v) { e += 1 }
            if let Some(n) = names.get(v) { if !n.is_empty() { m.insert(n.clone(), route[k..e].join(&b'/')); } }
            k = e;
        } else { k += 1 }
    }
    m
}
#[derive(Debug, PartialEq)]
pub struct Outcome { calls: Vec<(i64, BTreeMap<B, B>, u16)>, status: u16, links: BTreeSet<String> }

/// What has to happen for one request. `any`: items don't look at the method.
fn predict(root: &Node, any: bool, method: &str, path: &[u8]) -> Outcome {
    let route = segs(path);
    let mut ms = vec![];
    root.matches(&route, 0, 0, &mut vec![], &mut ms);
    let mut links = BTreeSet::new();
    for (n, _) in &ms { links.extend(n.links(method)) }
    let mut calls = vec![];
    let mut status = 404;
    for (n, caps) in &ms {
        match n.item.get(if any { "" } else { method }) {
            None => status = if any { 404 } else { 405 },
            Some(l) => {
                calls.push((l.id, bind(&l.names, &route, caps), 200));
                match l.dec { None => { status = 202; break } Some(0) | Some(200) => status = 404, Some(c) => status = c }
            }
        }
    }
    Outcome { calls, status, links }
}

// ------------------------------------------------------------------ scripts
fn probe(o: &Value) -> Probe { Probe { id: o["id"].as_i64().unwrap_or(0), dec: o["dec"].as_u64().map(|x| x as u16) } }
fn leaf(o: &Value, names: &[B]) -> Leaf { let p = probe(o); Leaf { id: p.id, dec: p.dec, names: names.to_vec() } }

/// What the model says about each `get_path` of the script, in the same order as the real code answers.
struct Answers(Vec<bool>);

fn model(n: &mut Node, names: &[B], ops: &Value, kind: &str, an: &mut Answers) {
    for o in ops.as_array().map(|a| &a[..]).unwrap_or(&[]) {
        let p = s2b(&o["p"]);
        let mut nm = names.to_vec();
        match o["op"].as_str().unwrap_or("") {
            "path" => { let c = n.walk(&p, &mut nm, true).unwrap(); model(c, &nm, &o["sub"], kind, an) }
            "on_path" | "on_route" => { let c = n.walk(&p, &mut nm, true).unwrap(); c.item.insert(String::new(), leaf(o, &nm)); model(c, &nm, &o["sub"], kind, an) }
            "handler" => { n.item.insert(String::new(), leaf(o, &nm)); model(n, &nm, &o["sub"], kind, an) }
            "get_path" => { let c = n.walk(&p, &mut nm, false); an.0.push(c.is_some()); if let Some(c) = c { model(c, &nm, &o["sub"], kind, an) } }
            "merge" => { let mut r = Node::default(); model(&mut r, &[], &o["sub"], kind, an); r.prepend(names); n.merge(r) }
            "then_on" => { n.item.insert(o["m"].as_str().unwrap().into(), leaf(o, &nm)); }
            "then_merge" => { for x in o["sub"].as_array().unwrap() { n.item.insert(x["m"].as_str().unwrap().into(), leaf(x, &nm)); } }
            _ => {}
        }
    }
}
fn sub_ops(o: &Value) -> &[Value] { o.as_array().map(|a| &a[..]).unwrap_or(&[]) }
fn build_a(b: &mut TB<Option<Variables<Probe>>>, ops: &Value, an: &mut Answers) {
    for o in sub_ops(ops) {
        let p = s2b(&o["p"]);
        match o["op"].as_str().unwrap_or("") {
            "path" => build_a(&mut b.path(&p), &o["sub"], an),
            "on_path" => build_a(&mut b.on_path(&p, probe(o)), &o["sub"], an),
            "on_route" => build_a(&mut b.on_route(&p, probe(o)), &o["sub"], an),
            "handler" => build_a(&mut b.handler(probe(o)), &o["sub"], an),
            "get_path" => { let c = b.get_path(&p); an.0.push(c.is_some()); if let Some(mut c) = c { build_a(&mut c, &o["sub"], an) } }
            "merge" => { let mut r = Ta::new(); build_a(&mut r.build(), &o["sub"], an); b.merge(r); }
            _ => {}
        }
    }
}
fn meth(v: &Value) -> Method { v.as_str().unwrap_or("GET").parse().unwrap() }
fn build_b(b: &mut TB<MethodRouter<Variables<Probe>>>, ops: &Value, an: &mut Answers) {
    for o in sub_ops(ops) {
        let p = s2b(&o["p"]);
        match o["op"].as_str().unwrap_or("") {
            "path" => build_b(&mut b.path(&p), &o["sub"], an),
            "get_path" => { let c = b.get_path(&p); an.0.push(c.is_some()); if let Some(mut c) = c { build_b(&mut c, &o["sub"], an) } }
            "merge" => { let mut r = Tb::new(); build_b(&mut r.build(), &o["sub"], an); b.merge(r); }
            "then_on" => {
                let mut mb = b.then();
                let h = probe(o);
                match (o["m"].as_str().unwrap_or(""), o["short"].as_bool().unwrap_or(false)) {
                    ("GET", true) => mb.on_get(h), ("POST", true) => mb.on_post(h), ("PATCH", true) => mb.on_patch(h), ("PUT", true) => mb.on_put(h),
                    ("DELETE", true) => mb.on_delete(h), ("OPTIONS", true) => mb.on_options(h), ("HEAD", true) => mb.on_head(h), ("CONNECT", true) => mb.on_connect(h),
                    _ => mb.on(meth(&o["m"]), h),
                }
            }
            "then_merge" => {
                let mut r = MethodRouter::<Variables<Probe>>::new();
                for x in sub_ops(&o["sub"]) { r.build().on(meth(&x["m"]), probe(x)); }
                b.then().merge(r);
            }
            _ => {}
        }
    }
}
pub enum App { A(ServerInstance<Ta>), B(ServerInstance<Tb>) }
impl App { pub fn get(&self, m: &str, t: &str) -> Result<http::Reply, String> { match self { App::A(i) => http::get(i, m, t), App::B(i) => http::get(i, m, t) } } }

fn build_app(case: &Value, hyper: bool) -> (App, Answers) {
    let mut an = Answers(vec![]);
    if case["kind"] == "A" {
        let mut r = Ta::new();
        build_a(&mut r.build(), &case["ops"], &mut an);
        r.find_hyperlinks = hyper;
        (App::A(Server::new(r).build()), an)
    } else if case["kind"] == "I" {
        let mut r: Tb = sub_ops(&case["ops"]).iter().map(|o| (meth(&o["sub"][0]["m"]), s2b(&o["p"]), probe(&o["sub"][0]))).collect();
        r.find_hyperlinks = hyper;
        (App::B(Server::new(r).build()), an)
    } else {
        let mut r = Tb::new();
        build_b(&mut r.build(), &case["ops"], &mut an);
        r.find_hyperlinks = hyper;
        (App::B(Server::new(r).build()), an)
    }
}
fn enc(path: &[u8]) -> String {
    let mut s = String::new();
    if path.first() != Some(&b'/') { s.push('/') }
    for &b in path { if b.is_ascii_alphanumeric() || b == b'/' { s.push(b as char) } else { s.push_str(&format!("%{:02X}", b)) } }
    s
}
fn calls_str(c: &[(i64, BTreeMap<B, B>, u16)]) -> String {
    c.iter().map(|(i, v, s)| format!("#{} {{{}}} st={}", i, v.iter().map(|(a, b)| format!("{:?}:{:?}", b2s(a), b2s(b))).collect::<Vec<_>>().join(", "), s)).collect::<Vec<_>>().join("; ")
}

#[derive(Clone, Copy, PartialEq)]
pub enum Aspect { Dispatch, Vars, Links, All }

fn check_routes(case: &Value, st: &mut Stats, aspect: Aspect) -> Result<(), String> {
    let any = case["kind"] == "A";
    let mut root = Node::default();
    let mut man = Answers(vec![]);
    model(&mut root, &[], &case["ops"], case["kind"].as_str().unwrap(), &mut man);
    let hyper = case["hyper"].as_bool().unwrap_or(false);
    let modes: &[bool] = if aspect == Aspect::Links { &[true, false] } else if hyper { &[true] } else { &[false] };
    for &hy in modes {
        let (app, an) = build_app(case, hy);
        if aspect == Aspect::All && an.0 != man.0 { return Err(format!("get_path found {:?}, expected {:?}", an.0, man.0)) }
        for rq in sub_ops(&case["reqs"]) {
            let m = rq[0].as_str().unwrap();
            let path = s2b(&rq[1]);
            let full = { let mut p = path.clone(); if p.first() != Some(&b'/') { p.insert(0, b'/') } p };
            let want = predict(&root, any, m, &full);
            LOG.with(|l| l.borrow_mut().clear());
            let rep = app.get(m, &enc(&path))?;
            let log = LOG.with(|l| l.borrow().clone());
            let got: Vec<_> = log.iter().map(|c| (c.id, c.vars.clone(), c.status)).collect();
            st.eval(hash(&format!("{}{}", want.calls.len(), calls_str(&want.calls))) ^ want.links.len() as u64);
            let what = format!("{} {} (find_hyperlinks={})", m, b2s(&full), hy);
            let ids = |v: &[(i64, BTreeMap<B, B>, u16)]| v.iter().map(|c| c.0).collect::<Vec<_>>();
            if aspect != Aspect::Vars && (ids(&got) != ids(&want.calls) || rep.status != want.status) {
                return Err(format!("{}: handlers offered the request {:?} with final status {}, expected {:?} with {}", what, ids(&got), rep.status, ids(&want.calls), want.status));
            }
            if (aspect == Aspect::Dispatch || aspect == Aspect::All) && got.iter().map(|c| c.2).ne(want.calls.iter().map(|c| c.2)) {
                return Err(format!("{}: status seen by the handlers: {}, expected {}", what, calls_str(&got), calls_str(&want.calls)));
            }
            if aspect == Aspect::Vars || aspect == Aspect::All {
                // the values are judged even if dispatch differs
                if aspect == Aspect::Vars && ids(&got) != ids(&want.calls) { continue }
                if got.iter().map(|c| &c.1).ne(want.calls.iter().map(|c| &c.1)) { return Err(format!("{}: variables {}, expected {}", what, calls_str(&got), calls_str(&want.calls))) }
            }
            if aspect == Aspect::Links {
                for c in &log {
                    let set: BTreeSet<String> = c.links.iter().cloned().collect();
                    if set.len() != c.links.len() { return Err(format!("{}: duplicated hyperlinks {:?}", what, c.links)) }
                    if set != (if hy { want.links.clone() } else { BTreeSet::new() }) { return Err(format!("{}: hyperlinks {:?}, expected {:?}", what, set, want.links)) }
                }
            }
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ generators
fn patterns() -> Vec<B> { words(&[b'a', b':', b'*'], 3).into_iter().map(|w| w.iter().map(|&c| vec![c]).collect::<Vec<_>>().join(&b'/')).collect() }
fn name_vars(p: &[u8], names: &[&str]) -> B {
    let mut i = 0;
    segs(p).iter().map(|s| { if s == b":" || s == b"*" { let n = names.get(i).cloned().unwrap_or(""); i += 1; let mut v = s.clone(); v.extend(n.bytes()); v } else { s.clone() } }).collect::<Vec<_>>().join(&b'/')
}
fn small_paths() -> Vec<B> { words(&[b'a', b'b'], 4).into_iter().map(|w| w.iter().map(|&c| vec![c]).collect::<Vec<_>>().join(&b'/')).collect() }
fn reqs(method: &str, ps: &[B]) -> Value { Value::Array(ps.iter().map(|p| json!([method, b2s(p)])).collect()) }

/// Wide, long and crowded routers.
fn gen_large(g: &mut Gen) -> bool {
    for n in g.sizes(600) {
        let long = |k: usize, f: &dyn Fn(usize) -> String| (0..k).map(|i| f(i)).collect::<Vec<_>>().join("/");
        let rq = |ps: &[String]| reqs("GET", &ps.iter().map(|p| p.clone().into_bytes()).collect::<Vec<_>>());
        for hyper in &[false, true] {
            // many routes next to each other, all of which decline
            let mut ops: Vec<Value> = (0..n).map(|i| json!({"op": "on_path", "p": format!("s{}", i), "id": i, "dec": if i % 2 == 0 { json!(401) } else { json!(null) }})).collect();
            ops.push(json!({"op": "on_path", "p": ":v", "id": n, "dec": 402}));
            ops.push(json!({"op": "on_path", "p": "*w", "id": n + 1}));
            let ps = ["s0".to_string(), format!("s{}", n - 1), format!("s{}", n), String::new(), format!("s{}/a", n - 2)];
            if !g.each(|| json!({"kind": "A", "hyper": hyper, "ops": ops, "reqs": rq(&ps)})) { return false }
            // a matching node with many children, and others that match after it declined
            let mut ops: Vec<Value> = (0..n).map(|i| json!({"op": "on_path", "p": format!("{}/c{}", ["s", ":v", "*w"][i % 3], i), "id": i})).collect();
            for (p, d) in &[("s", json!(401)), (":v", json!(0)), ("*w", json!(403))] { ops.push(json!({"op": "on_path", "p": p, "id": ops.len(), "dec": d})) }
            if !g.each(|| json!({"kind": "A", "hyper": hyper, "ops": ops, "reqs": [["GET", "s"], ["GET", "t"], ["GET", "s/c0"], ["GET", "s/t"], ["GET", "s/s/c2"]]})) { return false }
            // many methods at one place
            let mut ms: Vec<Value> = (0..n).map(|i| json!({"op": "then_on", "m": format!("M{}", i), "id": i, "dec": 404})).collect();
            ms.push(json!({"op": "then_on", "m": "GET", "id": n}));
            if !g.each(|| json!({"kind": "B", "hyper": hyper, "ops": [{"op": "path", "p": "a", "sub": ms}], "reqs": [["M0", "a"], [format!("M{}", n - 1), "a"], [format!("M{}", n), "a"], ["GET", "a"], ["GET", ""]]})) { return false }
            if n > 300 { continue }
            // long routes, of segments of every kind, with something behind that takes everything
            for k in 0..4 {
                let (route, path) = match k {
                    0 => (long(n, &|i| format!("a{}", i)), long(n, &|i| format!("a{}", i))),
                    1 => (long(n, &|i| format!(":v{}", i)), long(n, &|i| format!("a{}", i))),
                    2 => (long(n, &|i| if i % 3 == 0 { format!(":v{}", i) } else { format!("a{}", i) }), long(n, &|i| format!("a{}", i))),
                    _ => (format!("*w/{}", long(3, &|i| format!(":v{}", i))), long(n, &|i| format!("a{}", i))),
                };
                for dec in &[json!(null), json!(403)] {
                    let ops = json!([{"op": "on_path", "p": route, "id": 1, "dec": dec}, {"op": "on_path", "p": format!("{}/*rest", route), "id": 2}, {"op": "on_path", "p": "*", "id": 3}]);
                    let ps = [path.clone(), format!("{}/x", path), format!("{}/x/y/z", path), path[..path.len() - 1].to_string()];
                    if !g.each(|| json!({"kind": "A", "hyper": hyper, "ops": ops, "reqs": rq(&ps)})) { return false }
                }
            }
        }
    }
    true
}
fn gen_small(g: &mut Gen) {
    if !gen_large(g) { return }
    // every method, with another one or without
    let all: Vec<Value> = METHODS.iter().flat_map(|m| vec![json!([m, "a"]), json!([m, "b"])]).collect();
    for kind in &["B", "I"] { for m in METHODS { for n in METHODS { for d in &[Value::Null, json!(402)] {
        let mut ops = vec![json!({"op": "path", "p": "a", "sub": [{"op": "then_on", "m": m, "id": 1, "dec": d}]})];
        if m != n { ops.push(json!({"op": "path", "p": "a", "sub": [{"op": "then_on", "m": n, "id": 2}]})) }
        if !g.each(|| json!({"kind": kind, "hyper": n > m, "ops": ops, "reqs": all})) { return }
    } } } }
    let ps = patterns();
    let paths = small_paths();
    let rq = reqs("GET", &paths);
    for p in &ps { for d in [None, Some(0u16), Some(401)].iter() { if !g.each(|| json!({"kind": "A", "hyper": false, "ops": [{"op": "on_path", "p": b2s(&name_vars(p, &["x", "y", "z"])), "id": 1, "dec": d}], "reqs": rq})) { return } } }
    for i in 0..ps.len() { for j in i..ps.len() {
        for &(d1, d2) in [(None, None), (Some(0u16), None), (None, Some(402)), (Some(401), Some(403u16))].iter() {
            if !g.each(|| json!({"kind": "A", "hyper": (i + j) % 3 == 0, "ops": [{"op": "on_path", "p": b2s(&name_vars(&ps[i], &["x", "y", "z"])), "id": 1, "dec": d1}, {"op": "on_path", "p": b2s(&name_vars(&ps[j], &["p", "q", "x"])), "id": 2, "dec": d2}], "reqs": rq})) { return }
        }
    } }
    g.small_scope_done();
}
pub fn seg(g: &mut Gen, for_route: bool) -> B {
    let names: &[&[u8]] = &[b"x", b"y", b"", b"x", b"id", b"1", b"12", b"A-_", b"\xff", b"\xc3\xa5"];
    match g.below(12) {
        0..=4 => vec![*g.pick(b"ab")],
        5 | 6 if for_route => { let mut v = vec![b':']; v.extend_from_slice(*g.pick(names)); v }
        7 | 8 if for_route => { let mut v = vec![b'*']; v.extend_from_slice(*g.pick(names)); v }
        9 => vec![],
        10 => { if g.lits.is_empty() { b"a".to_vec() } else { let i = g.below(g.lits.len()); g.lits[i].iter().cloned().filter(|&c| c != b'/').take(12).collect() } }
        11 => if g.chance(1, 3) { g.pick(&[&b"."[..], b"..", b".x", b"-", b"_a", b"1", b"a.b", b"~", b"index.html", b"aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa"]).to_vec() } else { g.bytes(b"a:*\xff%?#A. \xc3\xa5", 3) },
        _ => vec![*g.pick(b"abc")],
    }
}
pub fn rpath(g: &mut Gen, for_route: bool, max: usize) -> B {
    let n = g.below(max + 1);
    let mut p: B = (0..n).map(|_| seg(g, for_route)).collect::<Vec<_>>().join(&b'/');
    if g.chance(1, 4) { p.insert(0, b'/') }
    if g.chance(1, 8) { p.push(b'/') }
    p
}
const METHODS: &[&str] = &["GET", "POST", "PUT", "DELETE", "HEAD", "OPTIONS", "PATCH", "CONNECT", "TRACE", "FOO", "get", "Post", "foo", "LINK"];
/// A method: mostly one of the usual four.
fn rmeth(g: &mut Gen) -> &'static str { if g.chance(2, 3) { g.pick(&METHODS[..4]) } else { g.pick(METHODS) } }
fn rdec(g: &mut Gen) -> Value { match g.below(5) { 0 => json!(0), 1 => json!(401), 2 => json!(rstatus(g)), _ => Value::Null } }
fn rstatus(g: &mut Gen) -> u16 {
    if g.chance(1, 8) { let c: Vec<u16> = g.nums.iter().filter(|n| **n >= 100 && **n < 600).map(|n| *n as u16).collect(); if !c.is_empty() { return *g.pick(&c) } }
    *g.pick(&[404u16, 405, 401, 500, 200, 404, 405, 200, 400, 403, 408, 410, 503, 501, 201, 202, 204, 301, 304, 100, 300, 418])
}
/// Requests that are likely to hit what was registered.
fn rreqs(g: &mut Gen, pats: &[B]) -> Value {
    let mut v = vec![];
    for _ in 0..12 {
        let p = if !pats.is_empty() && g.chance(4, 5) {
            let p = g.pick(pats).clone();
            let mut out = vec![];
            for s in segs(&p) {
                match s.first() {
                    Some(b':') => out.push(seg(g, false)),
                    Some(b'*') => { for _ in 0..1 + g.below(3) { out.push(seg(g, false)) } }
                    _ => out.push(if g.chance(1, 12) { seg(g, false) } else { s }),
                }
            }
            if g.chance(1, 8) { out.push(seg(g, false)) }
            let mut p = out.join(&b'/');
            if g.chance(1, 10) { p.push(b'/') }
            if g.chance(1, 10) { p.insert(0, b'/') }
            p
        } else { rpath(g, false, 4) };
        v.push(json!([*g.pick(if g.n % 2 == 0 { &METHODS[..3] } else { METHODS }), b2s(&p)]));
    }
    Value::Array(v)
}
/// Deep routes: many open branches, long sequences, long paths.
fn deep(g: &mut Gen) {
    let n = if g.chance(1, 2) { 2 + g.below(40) } else { g.pick(&[7usize, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257]).clone() };
    let style = g.below(5);
    let mut route: Vec<B> = vec![];
    let mut path: Vec<B> = vec![];
    for i in 0..n {
        match style {
            0 => { let a = format!("a{}", i).into_bytes(); route.push(b"*".to_vec()); route.push(a.clone()); path.push(b"x".to_vec()); path.push(a); }
            1 => { route.push(format!(":v{}", i).into_bytes()); path.push(format!("s{}", i).into_bytes()); }
            2 => { route.push(b"a".to_vec()); path.push(b"a".to_vec()); }
            3 => { if i == 0 { route.push(b"*w".to_vec()) } path.push(b"b".to_vec()); }
            _ => { if i % 2 == 0 { route.push(format!(":v{}", i).into_bytes()) } else { route.push(b"a".to_vec()) } path.push(if i % 2 == 0 { b"b".to_vec() } else { b"a".to_vec() }); }
        }
    }
    if style != 3 { route.push(b"*last".to_vec()); for _ in 0..1 + g.below(3) { path.push(b"q".to_vec()) } }
    if g.chance(1, 2) { route.push(b"end".to_vec()); path.push(b"end".to_vec()) }
    let p = route.join(&b'/');
    let mut ops = vec![json!({"op": "on_path", "p": b2s(&p), "id": 1})];
    if g.chance(1, 2) { ops.push(json!({"op": "on_path", "p": "*all", "id": 2, "dec": rdec(g)})) }
    let hyper = g.chance(1, 4);
    let rq = reqs("GET", &[path.join(&b'/')]);
    g.emit(json!({"kind": "A", "hyper": hyper, "ops": ops, "reqs": rq}));
}
fn gen_random(g: &mut Gen) { while !g.stop { gen_some(g) } }
fn gen_some(g: &mut Gen) {
    {
        if g.chance(1, 200) { deep(g) }
        let kind = *g.pick(&["A", "B", "I"]);
        let mut ops = vec![];
        let mut pats = vec![];
        for i in 0..1 + g.below(8) {
            let p = rpath(g, true, 4);
            pats.push(p.clone());
            let d = rdec(g);
            if kind == "A" { ops.push(json!({"op": "on_path", "p": b2s(&p), "id": i, "dec": d})) }
            else { ops.push(json!({"op": "path", "p": b2s(&p), "sub": [{"op": "then_on", "m": *g.pick(METHODS), "id": i, "dec": d}]})) }
        }
        let hyper = g.chance(1, 2);
        let rq = rreqs(g, &pats);
        g.emit(json!({"kind": kind, "hyper": hyper, "ops": ops, "reqs": rq}));
    }
}
fn gen_dispatch(g: &mut Gen) { gen_small(g); gen_random(g) }

fn gen_vars(g: &mut Gen) {
    if !gen_large(g) { return }
    // every naming of every pattern of at most three variables
    let rq = reqs("GET", &small_paths());
    let ns = ["x", "y", ""];
    for p in patterns() {
        for a in ns.iter() { for b in ns.iter() { for c in ns.iter() {
            let q = name_vars(&p, &[*a, *b, *c]);
            if !g.each(|| json!({"kind": "A", "hyper": false, "ops": [{"op": "on_path", "p": b2s(&q), "id": 1}], "reqs": rq})) { return }
        } } }
    }
    // names in names, with handlers that decline between them
    let ns = |v: &[&str]| Value::Array((0..8).map(|i| json!(v.get(i).cloned().unwrap_or(""))).collect());
    let rq = json!([["GET", "a"], ["GET", "a/b"], ["GET", "a/b/a"]]);
    for p in &["*", ":x/:y", ":x", "*x/:y", ":/*"] { for a in &[&["x"][..], &["x", "y"], &["", "y"], &[]] { for b in &[&["y"][..], &["x"], &[], &["", "z"]] { for d in &[json!(null), json!(404)] {
        let inner = json!(["vars", ns(b), ["leaf", 1, d]]);
        for w in &[inner.clone(), json!(["or", inner, ["leaf", 2, null]]), json!(["or", ["vars", ns(b), ["leaf", 1, 404]], ["vars", ns(&["q"]), ["leaf", 2, d]]])] {
            if !g.each(|| json!({"router": ["or", ["tree", [[p, ["vars", ns(a), w]]]], ["leaf", 3, null]], "reqs": rq})) { return }
        }
    } } } }
    g.small_scope_done();
    while !g.stop {
        for _ in 0..20 { if g.chance(1, 10) { gen_composed(g) } }
        gen_some(g);
    }
}
fn gen_composed(g: &mut Gen) {
    let mut id = 0;
    let d = 1 + g.below(3);
    let r = rrouter(g, d, &mut id);
    let mut v = vec![];
    for _ in 0..6 { let p = rpath(g, false, 3); v.push(json!([rmeth(g), b2s(&p)])) }
    g.emit(json!({"router": r, "reqs": v}));
}
fn gen_links(g: &mut Gen) { gen_small(g); gen_random(g) }

fn rscript(g: &mut Gen, kind: &str, depth: usize, id: &mut i64, pats: &mut Vec<B>, prefix: &B, merges: bool) -> Value {
    let mut ops = vec![];
    for _ in 0..1 + g.below(if depth == 0 { 5 } else { 3 }) {
        *id += 1;
        let me = *id;
        let p = rpath(g, true, 2);
        let full = { let mut f = prefix.clone(); for s in segs(&p) { if !f.is_empty() { f.push(b'/') } f.extend(s) } f };
        pats.push(full.clone());
        let d = rdec(g);
        let more = depth < 2 && g.chance(1, 2);
        let op = g.below(10);
        let v = if kind == "A" {
            match op {
                0 | 1 => json!({"op": "path", "p": b2s(&p), "sub": rscript(g, kind, depth + 1, id, pats, &full, merges)}),
                2 | 3 | 4 => { let sub = if more { rscript(g, kind, depth + 1, id, pats, &full, merges) } else { json!([]) }; json!({"op": "on_path", "p": b2s(&p), "id": me, "dec": d, "sub": sub}) }
                5 => { let s = segs(&p).into_iter().next().unwrap_or_default(); let full = { let mut f = prefix.clone(); if !s.is_empty() { if !f.is_empty() { f.push(b'/') } f.extend(&s) } f };
                       let sub = if more { rscript(g, kind, depth + 1, id, pats, &full, merges) } else { json!([]) };
                       json!({"op": "on_route", "p": b2s(&s), "id": me, "dec": d, "sub": sub}) }
                6 => { let sub = if more { rscript(g, kind, depth + 1, id, pats, prefix, merges) } else { json!([]) }; json!({"op": "handler", "id": me, "dec": d, "sub": sub}) }
                7 => { let q = if g.chance(3, 4) { let f = g.pick(pats).clone(); if f.starts_with(&prefix[..]) && (f.len() == prefix.len() || prefix.is_empty() || f[prefix.len()] == b'/') { f[prefix.len()..].to_vec() } else { p } } else { p };
                       let q = segs(&q).join(&b'/');
                       let full = { let mut f = prefix.clone(); if !q.is_empty() { if !f.is_empty() { f.push(b'/') } f.extend(&q) } f };
                       json!({"op": "get_path", "p": b2s(&q), "sub": rscript(g, kind, depth + 1, id, pats, &full, merges)}) }
                _ if merges => json!({"op": "merge", "sub": rscript(g, kind, depth + 1, id, pats, prefix, merges)}),
                _ => json!({"op": "on_path", "p": b2s(&p), "id": me, "dec": d}),
            }
        } else {
            match op {
                0..=4 => json!({"op": "path", "p": b2s(&p), "sub": rscript(g, kind, depth + 1, id, pats, &full, merges)}),
                5 | 6 => json!({"op": "then_on", "m": *g.pick(METHODS), "short": g.chance(1, 2), "id": me, "dec": d}),
                7 => json!({"op": "get_path", "p": b2s(&p), "sub": rscript(g, kind, depth + 1, id, pats, &full, merges)}),
                _ if merges => if g.chance(1, 2) { json!({"op": "merge", "sub": rscript(g, kind, depth + 1, id, pats, prefix, merges)}) }
                    else { json!({"op": "then_merge", "sub": [{"m": *g.pick(METHODS), "id": me, "dec": d}, {"m": *g.pick(METHODS), "id": me + 1000, "dec": rdec(g)}]}) },
                _ => json!({"op": "then_on", "m": *g.pick(METHODS), "id": me, "dec": d}),
            }
        };
        ops.push(v);
        if depth > 2 { break }
    }
    Value::Array(ops)
}
fn gen_scripts(g: &mut Gen, merges: bool) { while !g.stop { gen_script(g, merges) } }
fn gen_script(g: &mut Gen, merges: bool) {
    {
        let kind = *g.pick(&["A", "A", "B"]);
        let mut id = 0;
        let mut pats = vec![];
        let ops = rscript(g, kind, 0, &mut id, &mut pats, &vec![], merges);
        let rq = rreqs(g, &pats);
        let hyper = g.chance(1, 8);
        g.emit(json!({"kind": kind, "hyper": hyper, "ops": ops, "reqs": rq}));
    }
}
/// A handler that keeps what it is told about where it is: the names of the variables there, and whether it was made there.
#[derive(Clone, Debug, Default, PartialEq)]
struct Rec { made: bool, names: Vec<String>, tags: Vec<&'static str> }
/// Something else a builder's context may tell
#[derive(Clone)]
struct Tag(&'static str);
fn tagged() -> BuilderContext { let mut c = BuilderContext::new(); c.insert(Tag("t")); c }
fn tags(c: &BuilderContext) -> Option<Vec<&'static str>> { c.get::<Tag>().map(|t| vec![t.0]) }
fn place(c: &BuilderContext) -> Option<Vec<String>> { c.get::<VariableNames>().map(|n| n.0.iter().map(|x| b2s(x.as_ref())).collect()) }
impl ApplyContext for Rec {
    fn apply_context(&mut self, c: BuilderContext) { if let Some(n) = place(&c) { self.names = n } if let Some(t) = tags(&c) { self.tags = t } }
    fn prepend_context(&mut self, c: BuilderContext) { if let Some(mut n) = place(&c) { n.append(&mut self.names); self.names = n } if let Some(mut t) = tags(&c) { t.append(&mut self.tags); self.tags = t } }
}
impl Merge for Rec { fn merge(&mut self, other: Rec) { *self = other } }
impl FromHandler<()> for Rec { fn from_handler(c: BuilderContext, _: ()) -> Rec { Rec { made: true, names: place(&c).unwrap_or_default(), tags: tags(&c).unwrap_or_default() } } }
impl<'a> Build<'a> for Rec { type Builder = (Vec<String>, &'a mut Rec); fn get_builder(&'a mut self, c: BuilderContext) -> (Vec<String>, &'a mut Rec) { (place(&c).unwrap_or_default(), self) } }
impl HandleRequest for Rec {
    fn handle_request<'a, 'b, 'l, 'g>(&self, e: Environment<'a, 'b, 'l, 'g>) -> Result<(), Environment<'a, 'b, 'l, 'g>> { OFFERED.with(|o| o.borrow_mut().push(self.clone())); Err(e) }
    fn hyperlinks<'a>(&'a self, _: Link<'a>) -> Vec<Link<'a>> { vec![] }
}
type RecIn = (TreeRouter<Rec>, TreeRouter<OrElse<Rec, Rec>>, TreeRouter<MethodRouter<Rec>>, TreeRouter<StatusRouter<Rec>>);
struct Named(&'static str);
impl Handler for Named { fn handle(&self, _: Context, r: Response) { r.send(self.0) } }
fn new_a(_: Context, r: Response) { r.send("a") }
fn new_b(_: Context, r: Response) { r.send("b") }
fn made_a(_: Context) -> String { "a".into() }
fn made_b(_: Context) -> String { "b".into() }
/// Routers of one kind of handler, with a handler b where there's none or a handler a, are merged.
fn ends_merged<T, H, F: Fn() -> H, G: Fn() -> H>(kind: &str, a: F, b: G) -> Result<(), String> where T: HandleRequest + Merge + ApplyContext + FromHandler<H> {
    let (mut x, mut y) = (TreeRouter::<Option<T>>::new(), TreeRouter::<Option<T>>::new());
    let (mut dx, mut dy) = (rustful::DefaultRouter::<T>::new(), rustful::DefaultRouter::<T>::new());
    for p in &["both", "old"] { x.build().on_path(p, a()); dx.build().path(p).then().on_get(a()); }
    for p in &["both", "new"] { y.build().on_path(p, b()); dy.build().path(p).then().on_get(b()); }
    x.build().merge(y); dx.merge(dy);
    let (x, dx) = (Server::new(x).build(), Server::new(dx).build());
    for (p, want) in &[("both", "b"), ("old", "a"), ("new", "b")] {
        let got = http::get(&x, "GET", &format!("/{}", p))?;
        let got2 = http::get(&dx, "GET", &format!("/{}", p))?;
        for (g, how) in &[(got, "an optional"), (got2, "a")] { if g.body != want.as_bytes() { return Err(format!("after a merge, {} handler ({}) at {} answers {} {:?}, expected {:?}", how, kind, p, g.status, b2s(&g.body), want)) } }
    }
    Ok(())
}
fn check_ends_merged(kind: &str, st: &mut Stats) -> Result<(), String> {
    st.eval(hash(kind));
    match kind {
        "fun" => ends_merged::<fn(Context, Response), _, _, _>(kind, || new_a as fn(Context, Response), || new_b as fn(Context, Response)),
        "arc" => ends_merged::<Arc<Named>, _, _, _>(kind, || Arc::new(Named("a")), || Arc::new(Named("b"))),
        "box" => ends_merged::<Box<dyn Handler>, _, _, _>(kind, || Box::new(Named("a")) as Box<dyn Handler>, || Box::new(Named("b")) as Box<dyn Handler>),
        "plain" => ends_merged::<Named, _, _, _>(kind, || Named("a"), || Named("b")),
        _ => ends_merged::<ContentFactory<fn(Context) -> String>, _, _, _>(kind, || made_a as fn(Context) -> String, || made_b as fn(Context) -> String),
    }
}
/// Handlers in routers of every kind, in the middle and at the end of paths, merged in at a path.
fn check_rec_merge(case: &Value, st: &mut Stats) -> Result<(), String> {
    let (p, q) = (s2b(&case["p"]), s2b(&case["q"]));
    let vars = |p: &[u8]| -> Vec<String> { segs(p).iter().filter(|s| matches!(s.first(), Some(b':') | Some(b'*'))).map(|s| b2s(&s[1..])).collect() };
    let mut want = vars(&p); want.extend(vars(&q));
    st.eval(hash(&format!("{:?}", want)));
    let ok = |what: &str, got: &Rec| if got.names == want && got.tags == ["t"] { Ok(()) } else { Err(format!("a handler in {} at {} of a router merged in at {} is told it's below {:?}, with the context {:?}, expected {:?}, with the context [\"t\"]", what, b2s(&q), b2s(&p), got.names, got.tags, want)) };
    let own = Rec { made: true, names: vars(&q), tags: vec!["own"] };
    let (mut t, mut o, mut m, mut s): RecIn = (TreeRouter::new(), TreeRouter::new(), TreeRouter::new(), TreeRouter::new());
    let mut op = TreeRouter::<Option<Rec>>::new();
    let mut tt = TreeRouter::<TreeRouter<Rec>>::new();
    let within = ["", "i", ":i", "*i", "i/:i", "*/i"];
    {
        let mut tt2 = TreeRouter::<TreeRouter<Rec>>::new();
        { let mut b = tt2.build(); let mut b = b.path(&q); let mut b = b.then(); for i in &within { let mut b = b.path(*i); *b.then().1 = own.clone(); } }
        tt.get_builder(tagged()).path(&p).merge(tt2);
        let (mut t2, mut o2, mut m2, mut s2): RecIn = (TreeRouter::new(), TreeRouter::new(), TreeRouter::new(), TreeRouter::new());
        { let mut b = t2.build(); let mut b = b.path(&q); *b.then().1 = own.clone(); }
        { let mut b = o2.build(); let mut b = b.path(&q); let mut b = b.then(); *b.primary().1 = own.clone(); *b.secondary().1 = own.clone(); }
        { let mut b = m2.build(); let mut b = b.path(&q); let mut b = b.then(); for m in METHODS { *b.method(meth(&json!(m))).1 = own.clone(); } }
        { let mut b = s2.build(); let mut b = b.path(&q); let mut b = b.then(); for c in &[404u16, 405, 200] { *b.status(StatusCode::from_u16(*c)).1 = own.clone(); } }
        let mut op2 = TreeRouter::<Option<Rec>>::new();
        op2.build().on_path(&q, ());
        t.get_builder(tagged()).path(&p).merge(t2); o.get_builder(tagged()).path(&p).merge(o2); m.get_builder(tagged()).path(&p).merge(m2); s.get_builder(tagged()).path(&p).merge(s2); op.get_builder(tagged()).path(&p).merge(op2);
    }
    let mut pq = p.clone(); pq.push(b'/'); pq.extend(&q);
    if segs(&q).is_empty() { pq = p.clone() } else if segs(&p).is_empty() { pq = q.clone() }
    { let mut b = t.build(); let mut b = b.path(&pq); ok("a tree", b.then().1)?; }
    { let mut b = o.build(); let mut b = b.path(&pq); let mut b = b.then(); ok("the primary", b.primary().1)?; ok("the secondary", b.secondary().1)?; }
    { let mut b = m.build(); let mut b = b.path(&pq); let mut b = b.then(); for m in METHODS { ok("a method router", b.method(meth(&json!(m))).1)?; } }
    { let mut b = s.build(); let mut b = b.path(&pq); let mut b = b.then(); for c in &[404u16, 405, 200] { ok("a status router", b.status(StatusCode::from_u16(*c)).1)?; } }
    { let mut b = tt.build(); let mut b = b.path(&pq); let mut b = b.then(); for i in &within { let mut b = b.path(*i); ok("a tree in a tree", b.then().1)?; } }
    // an option has no builder, so it's asked
    let path: B = segs(&pq).iter().map(|s| match s.first() { Some(b':') | Some(b'*') => b"v".to_vec(), _ => s.to_vec() }).collect::<Vec<_>>().join(&b'/');
    OFFERED.with(|o| o.borrow_mut().clear());
    let inst = Server::new(op).build();
    http::get(&inst, "GET", &format!("/{}", b2s(&path)))?;
    match OFFERED.with(|o| o.borrow().first().cloned()) { Some(r) => ok("an option", &r), None => Err(format!("the handler at {} of a router merged in at {} is gone", b2s(&q), b2s(&p))) }
}
thread_local! { static OFFERED: RefCell<Vec<Rec>> = RefCell::new(vec![]); }
fn check_rec(case: &Value, st: &mut Stats) -> Result<(), String> {
    let (p, how) = (s2b(&case["p"]), case["how"].as_str().unwrap_or(""));
    let names: Vec<String> = segs(&p).iter().filter(|s| matches!(s.first(), Some(b':') | Some(b'*'))).map(|s| b2s(&s[1..])).collect();
    for twice in &[false, true] {
        let mut t = TreeRouter::<Rec>::new();
        let mut m = TreeRouter::<MethodRouter<Rec>>::new();
        let mut s = TreeRouter::<StatusRouter<Rec>>::new();
        let mut o = TreeRouter::<OrElse<Rec, Rec>>::new();
        let (mut tb, mut mb, mut sb, mut ob) = (t.get_builder(tagged()), m.get_builder(tagged()), s.get_builder(tagged()), o.get_builder(tagged()));
        if *twice { tb.path(&p); if case["on"] == "meth" { mb.path(&p).then().on(meth(&case["m"]), ()) } if case["on"] == "stat" { sb.path(&p).then().on(StatusCode::NotFound, ()) } }
        let got = match case["on"].as_str().unwrap_or("") {
            "tree" => {
                match how {
                    "many" => { tb.path(&p).many(|x| { x.handler(()); }); }
                    "on_path" => { tb.on_path(&p, ()); }
                    "handler" => { tb.path(&p).handler(()); }
                    _ => {}
                }
                let mut x = tb.path(&p); let (c, r) = x.then(); (c, r.clone())
            }
            "or" => {
                let mut x = ob.path(&p); let mut x = x.then();
                let second = how.starts_with("secondary");
                let set = |x: &mut rustful::handler::or_else::Builder<Rec, Rec>| { let r = if second { x.secondary().1 } else { x.primary().1 }; r.made = true };
                if how.ends_with("many") { x.many(|x| set(x)); } else { set(&mut x) }
                let (c, r) = if second { x.secondary() } else { x.primary() }; (c, r.clone())
            }
            "stat" => {
                let mut x = sb.path(&p); let mut x = x.then();
                match how {
                    "on" => x.on(StatusCode::NotFound, ()),
                    "many" => { x.many(|x| x.on(StatusCode::NotFound, ())); }
                    "merge" => { let mut o = StatusRouter::new(); o.insert(StatusCode::NotFound, Rec { tags: vec!["own"], ..Rec::default() }); x.merge(o); }
                    _ => {}
                }
                let (c, r) = x.status(StatusCode::NotFound); (c, r.clone())
            }
            _ => {
                let mut x = mb.path(&p); let mut x = x.then();
                let h = meth(&case["m"]);
                match how {
                    "on" => x.on(h.clone(), ()),
                    "many" => { x.many(|x| x.on(h.clone(), ())); }
                    "merge" => { let mut o = MethodRouter::new(); o.insert(h.clone(), Rec { tags: vec!["own"], ..Rec::default() }); x.merge(o); }
                    "short on" => match case["m"].as_str().unwrap_or("") {
                        "GET" => x.on_get(()), "POST" => x.on_post(()), "PATCH" => x.on_patch(()), "PUT" => x.on_put(()), "DELETE" => x.on_delete(()),
                        "OPTIONS" => x.on_options(()), "HEAD" => x.on_head(()), "CONNECT" => x.on_connect(()), _ => x.on(h.clone(), ()),
                    },
                    _ => {}
                }
                let (c, r) = match (how, case["m"].as_str().unwrap_or("")) {
                    ("short", "GET") => x.get(), ("short", "POST") => x.post(), ("short", "PATCH") => x.patch(), ("short", "PUT") => x.put(), ("short", "DELETE") => x.delete(),
                    ("short", "OPTIONS") => x.options(), ("short", "HEAD") => x.head(), ("short", "CONNECT") => x.connect(), _ => x.method(h),
                };
                (c, r.clone())
            }
        };
        let made = case["on"] == "or" || ["on", "short on", "many", "on_path", "handler"].contains(&how) || (*twice && case["on"] != "tree" && how != "merge");
        st.eval(hash(&format!("{}{:?}", made, names)));
        let want = (names.clone(), Rec { made, names: names.clone(), tags: vec!["t"] });
        let mut want = want;
        // the root router's handler was there before the builder
        if segs(&p).is_empty() && (case["on"] == "or" || (case["on"] == "tree" && ["path"].contains(&how))) { want.1.tags = vec![] }
        if got != want { return Err(format!("the handler at {} was told (by the builder, by itself) {:?}, expected {:?}", b2s(&p), got, want)) }
    }
    Ok(())
}
fn gen_build(g: &mut Gen) {
    for p in ["", "a", ":x", "*x", ":x/a/*y", "a/:/:y", "/:x/*y/"].iter() {
        for how in ["path", "on_path", "handler", "many"].iter() { if !g.each(|| json!({"rec": true, "on": "tree", "how": how, "p": p})) { return } }
        for how in ["primary", "primary many", "secondary", "secondary many"].iter() { if !g.each(|| json!({"rec": true, "on": "or", "how": how, "p": p})) { return } }
        for how in ["status", "on", "many", "merge"].iter() { if !g.each(|| json!({"rec": true, "on": "stat", "how": how, "p": p})) { return } }
        for how in ["method", "short", "on", "short on", "many", "merge"].iter() { for m in METHODS.iter() { if !g.each(|| json!({"rec": true, "on": "meth", "how": how, "m": m, "p": p})) { return } } }
    }
    for n in g.sizes(130) {
        let sub: Vec<Value> = (0..n).map(|i| json!({"op": "on_path", "p": format!(":x/s{}", i), "id": i})).collect();
        let rq = json!([["GET", "a/s0"], ["GET", format!("a/s{}", n - 1)], ["GET", format!("a/s{}", n)], ["GET", format!("s0/a/s{}", n - 1)]]);
        if !g.each(|| json!({"kind": "A", "hyper": false, "ops": [{"op": "path", "p": "", "sub": sub}, {"op": "path", "p": ":y", "sub": sub}], "reqs": rq})) { return }
        // a node with n children, reached again by every operation
        for at in &["", "b", ":y"] { for again in &["get_path", "path", "on_path", "on_route"] {
            let wide: Vec<Value> = (0..n).map(|i| json!({"op": "on_path", "p": format!("s{}", i), "id": i})).collect();
            let (h, p) = (json!([{"op": "handler", "id": 900}]), format!("s{}", n / 2));
            let more = match *again { "on_path" => json!({"op": "on_path", "p": at, "id": 900}), "on_route" => json!({"op": "on_route", "p": at, "id": 900}), a => json!({"op": a, "p": at, "sub": h}) };
            let below = match *again { "on_path" => json!({"op": "on_path", "p": p, "id": 901}), "on_route" => json!({"op": "on_route", "p": p, "id": 901}), a => json!({"op": a, "p": p, "sub": [{"op": "handler", "id": 901}]}) };
            let pre = match *at { "" => "", "b" => "b/", _ => "q/" };
            let rq = json!([["GET", pre.trim_matches('/')], ["GET", format!("{}s0", pre)], ["GET", format!("{}s{}", pre, n / 2)], ["GET", format!("{}s{}", pre, n - 1)], ["GET", format!("{}s{}", pre, n)]]);
            if !g.each(|| json!({"kind": "A", "hyper": false, "ops": [{"op": "path", "p": at, "sub": wide}, more, {"op": "path", "p": at, "sub": [below]}], "reqs": rq})) { return }
        } }
        let mut nest = json!([{"op": "on_path", "p": "end", "id": 1}]);
        for i in (0..n).rev() { nest = json!([{"op": "path", "p": format!("{}{}", [":v", "a", "*w"][i % 3], i), "sub": nest}]) }
        if n <= 40 { if !g.each(|| json!({"kind": "A", "hyper": false, "ops": nest, "reqs": [["GET", (0..n).map(|i| format!("a{}", i)).collect::<Vec<_>>().join("/") + "/end"]]})) { return } }
    }
    // every pair of one-step registrations, by every operation
    let ps: Vec<B> = words(&[b'a', b':', b'*'], 2).into_iter().map(|w| w.iter().map(|&c| vec![c]).collect::<Vec<_>>().join(&b'/')).collect();
    let rq = reqs("GET", &words(&[b'a', b'b'], 3).into_iter().map(|w| w.iter().map(|&c| vec![c]).collect::<Vec<_>>().join(&b'/')).collect::<Vec<_>>());
    let step = |k: usize, p: &B, id: i64, sub: Value| match k {
        0 => json!({"op": "on_path", "p": b2s(&name_vars(p, &["x", "y"])), "id": id, "sub": sub}),
        1 => json!({"op": "path", "p": b2s(&name_vars(p, &["y", "z"])), "sub": [{"op": "handler", "id": id, "sub": sub}]}),
        2 => json!({"op": "get_path", "p": b2s(&name_vars(p, &["x", "w"])), "sub": [{"op": "handler", "id": id, "sub": sub}]}),
        _ => { let s: B = segs(p).into_iter().next().unwrap_or_default(); json!({"op": "on_route", "p": b2s(&name_vars(&s, &["v"])), "id": id, "sub": sub}) }
    };
    for i in 0..ps.len() { for j in 0..ps.len() { for a in 0..4 { for b in 0..4 {
        if !g.each(|| json!({"kind": "A", "hyper": false, "ops": [step(a, &ps[i], 1, json!([])), step(b, &ps[j], 2, json!([]))], "reqs": rq})) { return }
        if !g.each(|| json!({"kind": "A", "hyper": false, "ops": [step(a, &ps[i], 1, json!([step(b, &ps[j], 2, json!([]))]))], "reqs": rq})) { return }
    } } } }
    g.small_scope_done();
    gen_scripts(g, false)
}
fn gen_merge(g: &mut Gen) {
    for n in g.sizes(130) {
        let sub: Vec<Value> = (0..n).map(|i| json!({"op": "on_path", "p": format!(":x/s{}", i), "id": i})).collect();
        let other: Vec<Value> = (n / 2..n + n / 2).map(|i| json!({"op": "on_path", "p": format!(":y/s{}", i), "id": 1000 + i})).collect();
        let rq = json!([["GET", "a/s0"], ["GET", format!("a/s{}", n / 2)], ["GET", format!("a/s{}", n - 1)], ["GET", format!("a/s{}", n + n / 2 - 1)], ["GET", format!("b/a/s{}", n - 1)], ["GET", format!("b/a/s{}", n)]]);
        for at in &["", ":r", "b"] { if !g.each(|| json!({"kind": "A", "hyper": false, "ops": [{"op": "path", "p": at, "sub": sub}, {"op": "path", "p": at, "sub": [{"op": "merge", "sub": other}]}], "reqs": rq})) { return } }
        let many: Vec<Value> = (0..n).map(|i| json!({"op": "merge", "sub": [{"op": "on_path", "p": format!(":x/s{}", i), "id": i}]})).collect();
        if !g.each(|| json!({"kind": "A", "hyper": false, "ops": [{"op": "path", "p": "", "sub": many}], "reqs": rq})) { return }
    }
    for k in ["fun", "arc", "box", "plain", "made"].iter() { if !g.each(|| json!({"ends": k})) { return } }
    for p in ["", "a", ":x", "*x", "a/:x", ":x/*y"].iter() { for q in ["", "b", ":p", "*p", "b/:p", ":p/c", "*p/:q/c"].iter() { if !g.each(|| json!({"rec": true, "p": p, "q": q})) { return } } }
    let ps: Vec<B> = words(&[b'a', b':', b'*'], 2).into_iter().map(|w| w.iter().map(|&c| vec![c]).collect::<Vec<_>>().join(&b'/')).collect();
    let rq = reqs("GET", &words(&[b'a', b'b'], 3).into_iter().map(|w| w.iter().map(|&c| vec![c]).collect::<Vec<_>>().join(&b'/')).collect::<Vec<_>>());
    for at in ["", ":r", "*s", "a"].iter() { for i in 0..ps.len() { for j in 0..ps.len() {
        let (p, q) = (b2s(&name_vars(&ps[i], &["x", "y"])), b2s(&name_vars(&ps[j], &["p", "q"])));
        if !g.each(|| json!({"kind": "A", "hyper": false, "ops": [{"op": "path", "p": at, "sub": [{"op": "on_path", "p": p, "id": 1}, {"op": "merge", "sub": [{"op": "on_path", "p": q, "id": 2}]}]}], "reqs": rq})) { return }
        if !g.each(|| json!({"kind": "B", "hyper": false, "ops": [{"op": "path", "p": at, "sub": [{"op": "path", "p": p, "sub": [{"op": "then_on", "m": "GET", "id": 1}]}, {"op": "merge", "sub": [{"op": "path", "p": q, "sub": [{"op": "then_on", "m": "GET", "id": 2}, {"op": "then_on", "m": "POST", "id": 3}]}]}]}], "reqs": rq})) { return }
    } } }
    let rq = json!([["GET", ""], ["POST", ""], ["GET", "a"], ["POST", "a"], ["GET", "b"], ["GET", "a/b"], ["FOO", "b"], ["GET", "b/a/c"]]);
    let ns = |v: &[&str]| Value::Array((0..8).map(|i| json!(v.get(i).cloned().unwrap_or(""))).collect());
    // handlers that know variable names, in everything that passes names on, below paths
    let v = |n: &[&str], id: i64, d: Value| json!(["vars", ns(n), ["leaf", id, d]]);
    let wraps: Vec<(Value, Value)> = vec![&[][..], &["x"], &["x", "y"]].into_iter().map(|n| {
        let (a, b) = (v(n, 1, json!(404)), v(n, 2, Value::Null));
        (a.clone(), json!([["opt", b], ["or", a, b], ["or", ["opt", a], ["opt", b]], ["meth", [["GET", b], ["FOO", a]]], ["stat", [[200, a], [404, b]]], ["or", a, ["stat", [[404, b]]]], ["tree", [["b", b], [":", a], ["*", ["or", ["opt", null], b]]]]]))
    }).collect();
    for (i, at) in ["", "a", ":p", "*q", ":p/*q"].iter().enumerate() { for (n, (_, ws)) in wraps.iter().enumerate() { for w in sub_ops(ws) {
        let (p, q, p2) = (["", ":x", ":x/:y"][n], ["*", "*x", "*x/:y"][n], ["a", ":x", ":x/:y"][n]);
        let t = json!(["tree", [[p, w], ["a", ["opt", null]], [q, w]]]);
        for how in [json!(at), Value::Null].iter().take(if i == 0 { 2 } else { 1 }) { if !g.each(|| json!({"router": ["tree", []], "merged": [[t, how]], "reqs": rq})) { return } }
        if !g.each(|| json!({"router": ["tree", []], "merged": [[["tree", [["a", ["opt", null]]]], null], [["tree", [[at, ["tree", [["", w], [p2, w]]]]]], ":r"]], "reqs": rq})) { return }
    } } }
    for at in ["", ":p", "*q", "a/:p/*q"].iter() { for (_, ws) in &wraps { for w in sub_ops(ws) { for kind in ["", "or"].iter() {
        for w in &[json!(["meth", [["GET", w], ["POST", ["opt", null]]]]), json!(["stat", [[200, w], [405, w], [404, w]]])] { if !g.each(|| json!({"router": w, "at": at, "in": kind, "reqs": rq})) { return } }
    } } } }
    let kinds = |a: Value| vec![a.clone(), json!(["opt", a]), json!(["opt", null]), json!(["meth", [["GET", a]]]), json!(["meth", [["POST", ["meth", [["POST", a]]]], ["GET", ["tree", [["b", a]]]]]]), json!(["stat", [[404, a], [200, ["vars", ns(&["q"]), a]]]]), json!(["tree", [["a", a], [":x", ["vars", ns(&["x"]), a]], ["", ["opt", a]]]]),
        json!(["tree", [["b", ["meth", [["GET", a]]]], ["*", ["vars", ns(&["w"]), a]], [":x/:y", ["vars", ns(&["x", "y"]), a]], [":x/b", ["or", ["opt", null], ["vars", ns(&["x"]), a]]]]]), json!(["or", ["meth", [["GET", a]]], ["stat", [[405, a], [404, a]]]]), json!(["vars", ns(&["x", "y"]), a]), json!(["vars", ns(&[""]), ["tree", [["a", a]]]]), json!(["end", "fun"]), json!(["end", "made"])];
    let flat = |v: &Value| ["tree", "meth", "or"].iter().map(|k| match *k { "tree" => json!(["tree", [[":t", v], ["a/b", v], ["", v]]]), "meth" => json!(["meth", [["GET", v], ["FOO", v]]]), _ => json!(["or", v, v]) }).collect::<Vec<_>>();
    for d in [Value::Null, json!(404), json!(405)].iter() {
        let (xs, ys) = (kinds(json!(["leaf", 1, d])), kinds(json!(["leaf", 2, null])));
        for how in [Value::Null, json!(""), json!("b"), json!("*s/:r")].iter() { for x in &xs { for y in &ys {
            if !g.each(|| json!({"router": x, "merged": [[y, how]], "reqs": rq})) { return }
            for (x, y) in flat(x).iter().zip(flat(y)) { if !g.each(|| json!({"router": x, "merged": [[y, how]], "reqs": rq})) { return } }
        } } }
    }
    g.small_scope_done();
    let mut k = 0;
    while !g.stop {
        k += 1;
        if k % 2 == 0 { gen_script(g, true); continue }
        let mut id = 0;
        let n = 1 + g.below(2);
        let d = 1 + g.below(3);
        let mut r = rrouter(g, d, &mut id);
        let mut more = vec![];
        for _ in 0..n { let mut w = rrouter(g, d, &mut id); for _ in 0..5 { if w[0] == r[0] { break } w = rrouter(g, d, &mut id) } if w[0] != r[0] && g.chance(1, 2) { r = json!(["or", r, ["opt", null]]); w = json!(["or", w, ["opt", null]]) } let how = if g.chance(1, 2) { Value::Null } else { let p = rpath(g, true, 2); json!(b2s(&p)) }; more.push(json!([w, how])) }
        let mut v = vec![];
        for _ in 0..8 { let p = rpath(g, false, 3); v.push(json!([rmeth(g), b2s(&p)])) }
        g.emit(json!({"router": r, "merged": more, "reqs": v}));
    }
}

// ------------------------------------------------------------------ P07: any nesting of the composing routers
pub enum R { Leaf(Probe), Opt(Option<Box<R>>), Or(Box<OrElse<R, R>>), Meth(MethodRouter<R>), Stat(StatusRouter<R>), Tree(Box<TreeRouter<R>>), Vars(Box<Variables<R>>), End(End), Any(Box<dyn HandleRequest>) }
/// Handlers in the forms the crate takes them
pub enum End { Fun(fn(Context, Response)), Arc(Arc<Told>), Box(Box<dyn Handler>), Plain(Told), Made(ContentFactory<fn(Context) -> String>), Own(ContentFactory<Maker>) }
pub struct Told;
pub struct Maker;
fn told(c: &Context, status: u16) { LOG.with(|l| l.borrow_mut().push(Call { id: ENDS, vars: c.variables.iter().map(|(k, v)| (k.to_vec(), v.to_vec())).collect(), links: vec![], status, pos: (0, 0), left: 0 })) }
fn answer(c: Context, mut r: Response) { told(&c, r.status().to_u16()); r.set_status(StatusCode::Accepted); r.send("told") }
fn create(c: Context) -> String { told(&c, 0); "made".into() }
impl Handler for Told {
    fn handle(&self, c: Context, r: Response) { answer(c, r) }
    fn description(&self) -> Option<std::borrow::Cow<'static, str>> { Some("told".into()) }
}
impl CreateContent for Maker { type Output = String; fn create_content(&self, c: Context) -> String { create(c) } }
const ENDS: i64 = -7;
impl End {
    fn new(k: &str) -> End { match k { "fun" => End::Fun(answer), "arc" => End::Arc(Arc::new(Told)), "box" => End::Box(Box::new(Told)), "made" => End::Made((create as fn(Context) -> String).into()), "own" => End::Own(ContentFactory::from(Maker)), _ => End::Plain(Told) } }
}
impl Default for R { fn default() -> R { R::Opt(None) } }
impl HandleRequest for Box<R> {
    fn handle_request<'a, 'b, 'l, 'g>(&self, e: Environment<'a, 'b, 'l, 'g>) -> Result<(), Environment<'a, 'b, 'l, 'g>> { (**self).handle_request(e) }
    fn hyperlinks<'a>(&'a self, base: Link<'a>) -> Vec<Link<'a>> { (**self).hyperlinks(base) }
}
impl HandleRequest for R {
    fn handle_request<'a, 'b, 'l, 'g>(&self, e: Environment<'a, 'b, 'l, 'g>) -> Result<(), Environment<'a, 'b, 'l, 'g>> {
        match self { R::Leaf(p) => p.handle_request(e), R::Opt(o) => o.handle_request(e), R::Or(o) => o.handle_request(e), R::Meth(m) => m.handle_request(e), R::Stat(s) => s.handle_request(e), R::Tree(t) => t.handle_request(e), R::Vars(t) => t.handle_request(e), R::Any(t) => (**t).handle_request(e), R::End(h) => match h { End::Fun(h) => h.handle_request(e), End::Arc(h) => h.handle_request(e), End::Box(h) => h.handle_request(e), End::Plain(h) => h.handle_request(e), End::Made(h) => h.handle_request(e), End::Own(h) => h.handle_request(e) } }
    }
    fn hyperlinks<'a>(&'a self, b: Link<'a>) -> Vec<Link<'a>> {
        match self { R::Leaf(p) => p.hyperlinks(b), R::Opt(o) => o.hyperlinks(b), R::Or(o) => o.hyperlinks(b), R::Meth(m) => m.hyperlinks(b), R::Stat(s) => s.hyperlinks(b), R::Tree(t) => t.hyperlinks(b), R::Vars(t) => t.hyperlinks(b), R::Any(t) => (**t).hyperlinks(b), R::End(h) => match h { End::Fun(h) => h.hyperlinks(b), End::Arc(h) => h.hyperlinks(b), End::Box(h) => h.hyperlinks(b), End::Plain(h) => h.hyperlinks(b), End::Made(h) => h.hyperlinks(b), End::Own(h) => h.hyperlinks(b) } }
    }
}
impl FromHandler<R> for R { fn from_handler(_: BuilderContext, h: R) -> R { h } }
impl ApplyContext for R {
    fn apply_context(&mut self, c: BuilderContext) { match self { R::Opt(o) => o.apply_context(c), R::Or(o) => o.apply_context(c), R::Meth(m) => m.apply_context(c), R::Stat(m) => m.apply_context(c), R::Tree(m) => m.apply_context(c), R::Vars(m) => m.apply_context(c), R::Leaf(_) | R::End(_) | R::Any(_) => {} } }
    fn prepend_context(&mut self, c: BuilderContext) { match self { R::Opt(o) => o.prepend_context(c), R::Or(o) => o.prepend_context(c), R::Meth(m) => m.prepend_context(c), R::Stat(m) => m.prepend_context(c), R::Tree(m) => m.prepend_context(c), R::Vars(m) => m.prepend_context(c), R::Leaf(_) | R::End(_) | R::Any(_) => {} } }
}
impl ApplyContext for Box<R> { fn apply_context(&mut self, c: BuilderContext) { (**self).apply_context(c) } fn prepend_context(&mut self, c: BuilderContext) { (**self).prepend_context(c) } }
impl Merge for Box<R> { fn merge(&mut self, o: Box<R>) { (**self).merge(*o) } }
/// Routers of the same kind are merged by the crate; otherwise the new one takes over.
impl Merge for R {
    fn merge(&mut self, o: R) {
        match (&mut *self, o) {
            (_, R::Opt(None)) => {}
            (R::Leaf(a), R::Leaf(b)) => a.merge(b), (R::Opt(a), R::Opt(b)) => a.merge(b), (R::Or(a), R::Or(b)) => a.merge(*b), (R::Meth(a), R::Meth(b)) => a.merge(b), (R::Stat(a), R::Stat(b)) => a.merge(b),
            (R::Tree(a), R::Tree(b)) => a.merge(*b), (R::Vars(a), R::Vars(b)) => a.merge(*b),
            (R::End(End::Fun(a)), R::End(End::Fun(b))) => a.merge(b), (R::End(End::Arc(a)), R::End(End::Arc(b))) => a.merge(b), (R::End(End::Box(a)), R::End(End::Box(b))) => a.merge(b), (R::End(End::Made(a)), R::End(End::Made(b))) => a.merge(b), (R::End(End::Own(a)), R::End(End::Own(b))) => a.merge(b),
            (s, o) => *s = o,
        }
    }
}
fn merge_in(v: &mut R, w: R, how: &Value) {
    match (v, w, how.as_str()) {
        (R::Meth(a), R::Meth(b), Some(_)) => { a.build().merge(b); }
        (R::Stat(a), R::Stat(b), Some(_)) => { a.build().merge(b); }
        (R::Tree(a), R::Tree(b), Some(_)) => { a.build().path(s2b(how)).merge(*b); }
        (v, w, _) => v.merge(w),
    }
}
/// Entries of which the last with a key counts.
fn entries(v: &Value, key: &dyn Fn(&Value) -> Value) -> Vec<Value> {
    let mut out: Vec<Value> = vec![];
    for x in sub_ops(v) { match out.iter().position(|y| key(&y[0]) == key(&x[0])) { Some(i) => out[i] = x.clone(), None => out.push(x.clone()) } }
    out
}
fn same(x: &Value) -> Value { x.clone() }
fn shape(x: &Value) -> Value { Value::Array(segs(&s2b(x)).iter().map(|s| json!(b2s(if s.first() == Some(&b':') { b":" } else if s.first() == Some(&b'*') { b"*" } else { s }))).collect()) }
fn merged(v: &Value, w: &Value) -> Value {
    let (k, l) = (v[0].as_str().unwrap_or(""), w[0].as_str().unwrap_or(""));
    if l == "opt" && w[1].is_null() { return v.clone() }
    if k != l { return w.clone() }
    let union = |key: &dyn Fn(&Value) -> Value| {
        let mut out = entries(&v[1], key);
        for x in entries(&w[1], key) { match out.iter().position(|y| key(&y[0]) == key(&x[0])) { Some(i) => out[i] = json!([out[i][0], merged(&out[i][1], &x[1])]), None => out.push(x) } }
        json!([k, out])
    };
    match k {
        "opt" => if v[1].is_null() { w.clone() } else { json!([k, merged(&v[1], &w[1])]) },
        "or" => json!([k, merged(&v[1], &w[1]), merged(&v[2], &w[2])]),
        "vars" => json!([k, w[1], merged(&v[2], &w[2])]),
        "meth" | "stat" => union(&same),
        "tree" => union(&shape),
        _ => w.clone(),
    }
}
/// `v` below a path with these variables: `names` replace what the variables were called, if they didn't come from a path.
fn named(v: &Value, names: &[Value], before: bool) -> Value {
    match v[0].as_str().unwrap_or("") {
        "opt" if !v[1].is_null() => json!(["opt", named(&v[1], names, before)]),
        "or" => json!(["or", named(&v[1], names, before), named(&v[2], names, before)]),
        "vars" => { let mut n = names.to_vec(); if before { n.extend(sub_ops(&v[1]).iter().cloned()) } json!(["vars", n, v[2]]) }
        k @ "meth" | k @ "stat" | k @ "tree" => Value::Array(vec![json!(k), Value::Array(sub_ops(&v[1]).iter().map(|x| json!([x[0], named(&x[1], names, before || k == "tree")])).collect())]),
        _ => v.clone(),
    }
}
fn merged_in(v: &Value, w: &Value, how: &Value) -> Value {
    let k = v[0].as_str().unwrap_or("");
    match how.as_str() {
        Some(_) if k == "tree" && w[0] == "tree" => {
            let names: Vec<Value> = segs(&s2b(how)).iter().filter(|s| matches!(s.first(), Some(b':') | Some(b'*'))).map(|s| json!(b2s(&s[1..]))).collect();
            let join = |q: &[u8]| { let mut all = segs(&s2b(how)); all.extend(segs(q)); json!(b2s(&[&b"/"[..], &all.join(&b'/'), &b"/"[..]].concat())) };
            let below: Vec<Value> = std::iter::once(json!([join(b""), ["opt", null]])).chain(sub_ops(&w[1]).iter().map(|x| json!([join(&s2b(&x[0])), x[1]]))).collect();
            merged(v, &named(&json!(["tree", below]), &names, true))
        }
        _ => merged(v, w),
    }
}
fn make(v: &Value) -> R {
    let a = |i: usize| make(&v[i]);
    match v[0].as_str().unwrap_or("") {
        "leaf" => R::Leaf(Probe { id: v[1].as_i64().unwrap(), dec: v[2].as_u64().map(|x| x as u16) }),
        "end" => R::End(End::new(v[1].as_str().unwrap_or(""))),
        "opt" => R::Opt(if v[1].is_null() { None } else { Some(Box::new(a(1))) }),
        "or" => R::Or(Box::new(OrElse::new(a(1), a(2)))),
        "meth" => { let mut m = MethodRouter::new(); for x in sub_ops(&v[1]) { m.insert(meth(&x[0]), make(&x[1])) } R::Meth(m) }
        "stat" => { let mut m = StatusRouter::new(); for x in sub_ops(&v[1]) { m.insert(StatusCode::from_u16(x[0].as_u64().unwrap() as u16), make(&x[1])) } R::Stat(m) }
        "tree" => { let mut t = TreeRouter::new(); for x in sub_ops(&v[1]) { t.build().on_path(s2b(&x[0]), make(&x[1])); } R::Tree(Box::new(t)) }
        "vars" => { let mut c = BuilderContext::new(); c.insert(VariableNames(sub_ops(&v[1]).iter().map(|x| MaybeUtf8::from(s2b(x))).collect())); R::Vars(Box::new(Variables::from_handler(c, a(2)))) }
        _ => R::default(),
    }
}
/// Where in the route a router is asked, and with what.
#[derive(Clone)]
struct At<'r> { route: &'r [B], i: usize, v: usize, caps: Vec<Option<usize>>, vars: BTreeMap<B, B> }
/// (answered, status) and the ids of the end points that were asked.
fn run_model(v: &Value, m: &str, at: &At, st: u16, calls: &mut Vec<Asked>) -> (bool, u16) {
    match v[0].as_str().unwrap_or("") {
        "leaf" => { calls.push((v[1].as_i64().unwrap(), st, at.i, at.vars.clone())); match v[2].as_u64() { None => (true, 202), Some(0) => (false, st), Some(c) => (false, c as u16) } }
        "end" => { let makes = v[1] == "made" || v[1] == "own"; calls.push((ENDS, if makes { 0 } else { st }, 0, at.vars.clone())); (true, if makes { st } else { 202 }) }
        "opt" => if v[1].is_null() { (false, 404) } else { run_model(&v[1], m, at, st, calls) },
        "or" => { let (ok, s) = run_model(&v[1], m, at, st, calls); if ok { (ok, s) } else { run_model(&v[2], m, at, s, calls) } }
        "meth" => match sub_ops(&v[1]).iter().rev().find(|x| x[0] == m) { Some(x) => run_model(&x[1], m, at, st, calls), None => (false, 405) },
        "stat" => match sub_ops(&v[1]).iter().rev().find(|x| x[0].as_u64() == Some(st as u64)) { Some(x) => run_model(&x[1], m, at, st, calls), None => (false, st) },
        "vars" => { let mut at = at.clone(); let names: Vec<B> = sub_ops(&v[1]).iter().map(s2b).collect(); at.vars = bind(&names, at.route, &at.caps); run_model(&v[2], m, &at, st, calls) }
        "tree" => {
            let mut root = Node::default();
            for (i, x) in sub_ops(&v[1]).iter().enumerate() { let p = s2b(&x[0]); root.walk(&p, &mut vec![], true).unwrap().item.insert(String::new(), Leaf { id: i as i64, dec: None, names: vec![] }); }
            let mut ms = vec![];
            root.matches(at.route, at.i, at.v, &mut at.caps.clone(), &mut ms);
            let mut s = if ms.is_empty() { 404 } else { st };
            for (n, caps) in &ms {
                let (ok, x) = match n.item.get("") { None => (false, v.get(2).map_or(404, |x| x.as_u64().map_or(st, |x| x as u16))), Some(l) => {
                    let k = caps[at.i..].iter().filter_map(|c| *c).max().map_or(at.v, |x| x + 1);
                    run_model(&v[1][l.id as usize][1], m, &At { route: at.route, i: at.route.len(), v: k, caps: caps.clone(), vars: at.vars.clone() }, st, calls) } };
                s = x;
                if ok { return (true, s) }
            }
            (false, s)
        }
        _ => (false, 404),
    }
}
type Asked = (i64, u16, usize, BTreeMap<B, B>);
fn asked_str(v: &[Asked]) -> String { v.iter().map(|a| format!("#{} (status {}, position {}, variables {})", a.0, a.1, a.2, json!(a.3.iter().map(|(k, v)| (b2s(k), b2s(v))).collect::<BTreeMap<_, _>>()))).collect::<Vec<_>>().join(", ") }
fn links_model(v: &Value, method: Option<&str>, path: &str, out: &mut BTreeSet<String>) {
    match v[0].as_str().unwrap_or("") {
        "leaf" => { out.insert(format!("{}{}", method.unwrap_or("-"), path)); if v[1].as_i64().unwrap() % 5 == 3 { out.insert(format!("GET{}|S:sub", path)); out.insert(format!("PUT{}|S:sub", path)); } }
        "end" => { out.insert(format!("{}{}{}", method.unwrap_or("-"), path, match v[1].as_str().unwrap_or("") { "made" | "own" => "", "fun" => " answered by a handler", _ => " answered by told" })); }
        "vars" => links_model(&v[2], method, path, out),
        "opt" => if !v[1].is_null() { links_model(&v[1], method, path, out) },
        "or" => { links_model(&v[1], method, path, out); links_model(&v[2], method, path, out) }
        "meth" => { let mut seen = BTreeSet::new(); for x in sub_ops(&v[1]).iter().rev() { if seen.insert(x[0].as_str().unwrap()) { links_model(&x[1], x[0].as_str(), path, out) } } }
        "stat" => { let mut seen = BTreeSet::new(); for x in sub_ops(&v[1]).iter().rev() { if seen.insert(x[0].as_u64().unwrap()) { links_model(&x[1], method, path, out) } } }
        "tree" => {
            let mut root = Node::default();
            for (i, x) in sub_ops(&v[1]).iter().enumerate() { let p = s2b(&x[0]); root.walk(&p, &mut vec![], true).unwrap().item.insert(String::new(), Leaf { id: i as i64, dec: None, names: vec![] }); }
            if let Some(l) = root.item.get("") { links_model(&v[1][l.id as usize][1], method, path, out) }
            let m = method.unwrap_or("-");
            for k in root.st.keys() { out.insert(format!("{}{}|S:{}", m, path, b2s(k))); }
            if root.var.is_some() { out.insert(format!("{}{}|V:", m, path)); }
            if root.wild.is_some() { out.insert(format!("{}{}|Q:", m, path)); }
        }
        _ => {}
    }
}
/// A router of methods or of status codes, merged in at the end of a path; the nodes above it are such routers, too.
fn at_end(w: &Value, path: &[u8], kind: &str) -> (R, Value) {
    let names: Vec<Value> = segs(path).iter().filter(|s| matches!(s.first(), Some(b':') | Some(b'*'))).map(|s| json!(b2s(&s[1..]))).collect();
    let (mut m, mut t, mut o) = (TreeRouter::<MethodRouter<R>>::new(), TreeRouter::<StatusRouter<R>>::new(), TreeRouter::<OrElse<MethodRouter<R>, StatusRouter<R>>>::new());
    let mut inner = w.clone();
    let r = match (make(w), kind) {
        (R::Meth(x), "or") => { o.build().path(path).then().primary().merge(x); R::Any(Box::new(o)) }
        (R::Stat(x), "or") => { o.build().path(path).then().secondary().merge(x); inner = json!(["or", ["meth", []], w]); R::Any(Box::new(o)) }
        (R::Meth(x), _) => { m.build().path(path).then().merge(x); R::Any(Box::new(m)) }
        (R::Stat(x), _) => { t.build().path(path).then().merge(x); R::Any(Box::new(t)) }
        _ => R::default(),
    };
    (r, json!(["tree", [[b2s(path), named(&inner, &names, false)]], if kind == "or" || w[0] == "meth" { json!(405) } else { Value::Null }]))
}
fn check_compose(case: &Value, st: &mut Stats) -> Result<(), String> { check_asked(case, st, false) }
/// With `vars`, only what variables the asked handlers find matters.
fn check_asked(case: &Value, st: &mut Stats, vars: bool) -> Result<(), String> {
    let (mut r, mut now) = match case["at"].as_str() { Some(_) => at_end(&case["router"], &s2b(&case["at"]), case["in"].as_str().unwrap_or("")), None => (make(&case["router"]), case["router"].clone()) };
    for m in sub_ops(&case["merged"]) { merge_in(&mut r, make(&m[0]), &m[1]); now = merged_in(&now, &m[0], &m[1]) }
    if !vars {
        let base = Link { method: None, path: vec![], handler: None };
        let got: Vec<String> = r.hyperlinks(base).iter().map(|l| link_str(l) + &l.handler.map(|h| format!(" answered by {}", h.description().unwrap_or("a handler".into()))).unwrap_or(String::new())).collect();
        let set: BTreeSet<String> = got.iter().cloned().collect();
        let mut want = BTreeSet::new();
        links_model(&now, None, "", &mut want);
        st.eval(hash(&format!("l{:?}", want)));
        if set != want { return Err(format!("hyperlinks of the router: {:?}, expected {:?}", set, want)) }
    }
    let inst = Server::new(r).build();
    for rq in sub_ops(&case["reqs"]) {
        let m = rq[0].as_str().unwrap();
        let path = s2b(&rq[1]);
        let mut calls = vec![];
        let full = { let mut p = path.clone(); if p.first() != Some(&b'/') { p.insert(0, b'/') } p };
        let route = segs(&full);
        let (ok, s) = run_model(&now, m, &At { route: &route, i: 0, v: 0, caps: vec![], vars: BTreeMap::new() }, 200, &mut calls);
        let status = if !ok && s == 200 { 404 } else { s };
        LOG.with(|l| l.borrow_mut().clear());
        // no body by definition
        let bare = status < 200 || status == 204 || status == 304;
        if bare && calls.last().map_or(false, |c| c.0 == ENDS) { continue }
        let rep = http::get(&inst, m, &enc(&path))?;
        let got: Vec<Asked> = LOG.with(|l| l.borrow().iter().map(|c| (c.id, c.status, c.pos.0, c.vars.clone())).collect());
        st.eval(hash(&format!("{:?}{}", calls, status)));
        if vars {
            for (g, w) in got.iter().zip(&calls) { if g.0 != w.0 { break } if g.3 != w.3 { return Err(format!("{} {}: end points asked {}, expected {}", m, b2s(&full), asked_str(&got), asked_str(&calls))) } }
            continue;
        }
        if ok && calls.last().map_or(false, |c| c.0 == ENDS) { let want: &[u8] = if calls.last().unwrap().1 == 0 { b"made" } else { b"told" }; if rep.body != want { return Err(format!("{} {}: the answer is {:?}, should be {:?}", m, b2s(&full), b2s(&rep.body), b2s(want))) } }
        if got != calls || rep.status != status { return Err(format!("{} {}: end points asked {} with final status {}, expected {} with {}", m, b2s(&full), asked_str(&got), rep.status, asked_str(&calls), status)) }
    }
    Ok(())
}
fn rrouter(g: &mut Gen, depth: usize, id: &mut i64) -> Value {
    *id += 1;
    let me = *id;
    if depth == 0 { return if g.chance(1, 6) { json!(["end", *g.pick(&["fun", "arc", "box", "plain", "made", "own"])]) } else { json!(["leaf", me, rdec(g)]) } }
    match g.below(8) {
        7 => { let ns: Vec<&str> = (0..8).map(|_| *g.pick(&["x", "y", "z", ""])).collect(); json!(["vars", ns, rrouter(g, depth - 1, id)]) }
        0 => json!(["leaf", me, rdec(g)]),
        1 => if g.chance(1, 3) { json!(["opt", null]) } else { json!(["opt", rrouter(g, depth - 1, id)]) },
        2 | 3 => json!(["or", rrouter(g, depth - 1, id), rrouter(g, depth - 1, id)]),
        4 => { let v: Vec<Value> = (0..g.below(4)).map(|_| json!([rmeth(g), rrouter(g, depth - 1, id)])).collect(); json!(["meth", v]) }
        5 => { let v: Vec<Value> = (0..g.below(4)).map(|_| json!([rstatus(g), rrouter(g, depth - 1, id)])).collect(); json!(["stat", v]) }
        _ => { let v: Vec<Value> = (0..g.below(4)).map(|_| { let p = rpath(g, true, 2); json!([b2s(&p), rrouter(g, depth - 1, id)]) }).collect(); json!(["tree", v]) }
    }
}
fn gen_compose(g: &mut Gen) {
    let decs = [Value::Null, json!(0), json!(401), json!(404)];
    let rq = json!([["GET", ""], ["POST", "a"], ["GET", "a/b"], ["FOO", "a"]]);
    let ends: Vec<Value> = ["fun", "arc", "box", "plain", "made", "own"].iter().map(|k| json!(["end", k])).collect();
    for e in &ends { for d in decs.iter() { for f in &[json!(["or", ["leaf", 1, d], e]), json!(["tree", [["", e], ["a", e], ["*x", ["vars", ["x"], e]]]]), json!(["meth", [["GET", e], ["POST", ["opt", e]]]]), json!(["or", e, ["leaf", 1, d]])] {
        if !g.each(|| json!({"router": f, "reqs": rq})) { return }
    } } }
    for d in decs.iter() { for e in decs.iter() {
        let (a, b) = (json!(["leaf", 1, d]), json!(["leaf", 2, e]));
        let forms = vec![json!(["or", a, b]), json!(["opt", a]), json!(["opt", null]), json!(["or", ["opt", null], b]), json!(["meth", [["GET", a], ["POST", b]]]),
            json!(["or", ["meth", [["GET", a]]], b]), json!(["or", a, ["stat", [[404, b]]]]), json!(["or", ["meth", [["GET", a]]], ["stat", [[405, b]]]]),
            json!(["or", ["tree", [["a", a]]], ["stat", [[404, b], [401, a]]]]), json!(["or", ["tree", [["*x", a]]], ["tree", [["a", b], ["", a]]]]),
            json!(["or", ["tree", [["*", a], ["a/b", b]]], ["tree", [["a", b], [":x", a]]]]), json!(["stat", [[200, a], [404, b]]]), json!(["stat", []]), json!(["meth", []]),
            json!(["or", ["tree", [[":x", ["vars", ["x", "y"], a]]]], b]), json!(["tree", [["*x", ["vars", ["x", "y"], ["or", a, b]]]]]), json!(["or", ["tree", [["a/*x", ["vars", ["x", "y"], a]]]], ["vars", ["p", "q", "r"], ["tree", [["*z", b]]]]])];
        for f in forms { if !g.each(|| json!({"router": f, "reqs": rq})) { return } }
    } }
    g.small_scope_done();
    while !g.stop { gen_composed(g) }
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "P02", gen: gen_dispatch, check: |c, s| check_routes(c, s, Aspect::Dispatch), rule: "a request sent to a router built from the case; cases with different expected call sequences are distinct" },
        Prop { id: "P03", gen: gen_vars, check: |c, s| if c["router"].is_null() { check_routes(c, s, Aspect::Vars) } else { check_asked(c, s, true) }, rule: "a request sent to a router built from the case; cases with different expected variables are distinct" },
        Prop { id: "P04", gen: gen_links, check: |c, s| check_routes(c, s, Aspect::Links), rule: "a request sent to a router with and without find_hyperlinks; cases with different expected calls or number of links are distinct" },
        Prop { id: "P05", gen: gen_build, check: |c, s| if c["rec"].is_null() { check_routes(c, s, Aspect::All) } else { check_rec(c, s) }, rule: "a request sent to a router built by the script of the case, or what a handler is told about its place" },
        Prop { id: "P06", gen: gen_merge, check: |c, s| if let Some(k) = c["ends"].as_str() { check_ends_merged(k, s) } else if c["rec"] == true { check_rec_merge(c, s) } else if c["router"].is_null() { check_routes(c, s, Aspect::All) } else { check_compose(c, s) }, rule: "a request sent to a router built by a script with merges, or to a nesting of routers with others merged in" },
        Prop { id: "P07", gen: gen_compose, check: check_compose, rule: "a request sent to a nesting of routers; different asked end points and statuses are distinct" },
    ]
}
