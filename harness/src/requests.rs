//! Requests on their way in: P01 segments, P08 parameters, P09 targets, P14 context filters, P19 keep-alive.
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::io::{self, Write};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::time::Duration;

use hyper::server::Handler as HyperHandler;
use rustful::context::{MaybeUtf8, Parameters, UriPath};
use rustful::filter::{ContextAction, ContextFilter, FilterContext, ResponseAction, ResponseFilter};
use rustful::handler::routing::Route;
use rustful::handler::{HandleRequest, TreeRouter};
use rustful::response::Data;
use rustful::header::Headers;
use rustful::server::{KeepAlive, ServerInstance};
use rustful::{Context, Handler, Response, Server, StatusCode};
use serde_json::{json, Value};

use crate::gen::{b2s, hash, s2b, words, Gen, Stats};
use crate::http;
use crate::Prop;

type B = Vec<u8>;
fn err<T>(s: String) -> Result<T, String> { Err(s) }
fn show(b: &[u8]) -> String { format!("{:?} ({:02x?})", String::from_utf8_lossy(b), b) }

// ------------------------------------------------------------------ oracles
pub fn segments(p: &[u8]) -> Vec<B> {
    let mut s = p;
    if s.first() == Some(&b'/') { s = &s[1..] }
    if s.last() == Some(&b'/') { s = &s[..s.len() - 1] }
    if s.is_empty() { return vec![] }
    let mut out = vec![vec![]];
    for &b in s { if b == b'/' { out.push(vec![]) } else { out.last_mut().unwrap().push(b) } }
    out
}
fn hex(b: u8) -> Option<u8> { (b as char).to_digit(16).map(|d| d as u8) }
pub fn decode(s: &[u8]) -> B {
    let mut o = vec![];
    let mut i = 0;
    while i < s.len() {
        if s[i] == b'%' && i + 2 < s.len() { if let (Some(a), Some(b)) = (hex(s[i + 1]), hex(s[i + 2])) { o.push(a * 16 + b); i += 3; continue } }
        o.push(s[i]);
        i += 1;
    }
    o
}
pub fn params(s: &[u8]) -> BTreeMap<B, B> {
    let mut m = BTreeMap::new();
    let mut cur = vec![vec![]];
    for &b in s { if b == b'&' { cur.push(vec![]) } else { cur.last_mut().unwrap().push(if b == b'+' { b' ' } else { b }) } }
    for p in cur {
        let mut parts = vec![vec![]];
        for b in p { if b == b'=' { parts.push(vec![]) } else { parts.last_mut().unwrap().push(b) } }
        m.insert(decode(&parts[0]), if parts.len() > 1 { decode(&parts[1]) } else { vec![] });
    }
    m
}
fn flat(p: &Parameters) -> BTreeMap<B, B> { p.iter().map(|(k, v)| (k.to_vec(), v.to_vec())).collect() }

// ------------------------------------------------------------------ what arrives
#[derive(Default, Debug, Clone, PartialEq)]
struct Seen { path: Option<B>, query: BTreeMap<B, B>, fragment: Option<B>, host: Vec<String>, body: Option<BTreeMap<B, B>>, method: String, trail: Vec<String>, odd: Vec<String> }
thread_local! { static SEEN: RefCell<Vec<Seen>> = RefCell::new(vec![]); static FILTERED: RefCell<Vec<Seen>> = RefCell::new(vec![]); static PLAN: RefCell<Value> = RefCell::new(Value::Null); }
/// What the accessors of the target say that isn't so
fn odd(u: &UriPath) -> Vec<String> {
    let p: Option<&[u8]> = match *u { UriPath::Path(ref p) => Some(&p[..]), UriPath::Asterisk => None };
    let mut v = vec![];
    if u.is_path() != p.is_some() { v.push(format!("is_path: {}", u.is_path())) }
    if u.is_asterisk() != p.is_none() { v.push(format!("is_asterisk: {}", u.is_asterisk())) }
    if u.as_path().map(|x| x.to_vec()) != p.map(|x| x.to_vec()) { v.push(format!("as_path: {:?}", u.as_path())) }
    if u.as_utf8_path() != p.and_then(|x| std::str::from_utf8(x).ok()) { v.push(format!("as_utf8_path: {:?}", u.as_utf8_path())) }
    let text = p.map(|x| String::from_utf8_lossy(x).into_owned());
    if u.as_utf8_path_lossy().map(|x| x.into_owned()) != text { v.push(format!("as_utf8_path_lossy: {:?}", u.as_utf8_path_lossy())) }
    if u.to_string() != text.unwrap_or("*".into()) { v.push(format!("as text: {:?}", u.to_string())) }
    v
}
fn view(c: &Context) -> Seen {
    Seen {
        odd: odd(&c.uri_path),
        path: match c.uri_path { UriPath::Path(ref p) => Some(p.to_vec()), UriPath::Asterisk => None },
        query: flat(&c.query), fragment: c.fragment.as_ref().map(|f| f.to_vec()),
        host: c.headers.get::<rustful::header::Host>().map(|h| vec![format!("{}|{:?}", h.hostname, h.port)]).unwrap_or_default(),
        body: None, method: c.method.to_string(),
        trail: c.headers.get_raw("x-trail").map(|h| h.iter().map(|b| String::from_utf8_lossy(b).into_owned()).collect()).unwrap_or_default(),
    }
}
struct Rec { body: bool }
impl Handler for Rec {
    fn handle(&self, mut c: Context, r: Response) {
        let mut s = view(&c);
        if self.body { s.body = c.body.read_query_body().ok().map(|p| flat(&p)) }
        SEEN.with(|l| l.borrow_mut().push(s));
        r.send("ok");
    }
}
struct Watch;
impl ContextFilter for Watch { fn modify(&self, _: FilterContext, c: &mut Context) -> ContextAction { FILTERED.with(|l| l.borrow_mut().push(view(c))); ContextAction::next() } }
fn clear() { SEEN.with(|l| l.borrow_mut().clear()); FILTERED.with(|l| l.borrow_mut().clear()); }
fn seen() -> Vec<Seen> { SEEN.with(|l| l.borrow().clone()) }
fn filtered() -> Vec<Seen> { FILTERED.with(|l| l.borrow().clone()) }

thread_local! {
    static PLAIN: ServerInstance<Rec> = { let mut s = Server::new(Rec { body: false }); s.context_filters = vec![Box::new(Watch)]; s.build() };
    static BODY: ServerInstance<Rec> = Server::new(Rec { body: true }).build();
}

// ------------------------------------------------------------------ P01
fn lookup(reg: &Value, req: &[u8]) -> Result<bool, String> {
    struct Ok_;
    impl Handler for Ok_ { fn handle(&self, _: Context, r: Response) { r.send("hit") } }
    let mut t: TreeRouter<Option<Ok_>> = TreeRouter::new();
    { let b = s2b(reg); match String::from_utf8(b.clone()) { Ok(ref s) if s.len() % 2 == 0 => t.build().on_path(&s[..], Ok_), _ => t.build().on_path(&b[..], Ok_) } };
    let inst = Server::new(t).build();
    let target: String = req.iter().map(|b| if b.is_ascii_alphanumeric() || *b == b'/' { (*b as char).to_string() } else { format!("%{:02x}", b) }).collect();
    let target = if target.starts_with('/') { target } else { format!("/{}", target) };
    Ok(http::get(&inst, "GET", &target)?.status == 200)
}
fn check_p01(c: &Value, st: &mut Stats) -> Result<(), String> {
    let req = s2b(&c["req"]);
    let want = segments(&req);
    let got: Vec<B> = req[..].segments().map(|s: &[u8]| s.to_vec()).collect();
    if got != want { return err(format!("the bytes {} have the segments {:?}, should be {:?}", show(&req), got, want)) }
    if let Ok(s) = std::str::from_utf8(&req) {
        let got: Vec<B> = s.segments().map(|s: &[u8]| s.to_vec()).collect();
        if got != want { return err(format!("the string {:?} has the segments {:?}, should be {:?}", s, got, want)) }
    }
    let reg = &c["reg"];
    if !reg.is_null() {
        let rs: Vec<B> = match reg.as_array() {
            Some(l) => {
                let l: Vec<B> = l.iter().map(s2b).collect();
                let want: Vec<B> = l.iter().flat_map(|p| segments(p)).collect();
                let got: Vec<B> = l.segments().map(|s: &[u8]| s.to_vec()).collect();
                let strs: Vec<String> = l.iter().map(|b| String::from_utf8_lossy(b).into_owned()).collect();
                let strs: Vec<&str> = strs.iter().map(|s| &s[..]).collect();
                let got2: Vec<B> = strs.segments().map(|s: &[u8]| s.to_vec()).collect();
                if l.iter().all(|b| std::str::from_utf8(b).is_ok()) && got2 != want { return err(format!("the list {:?} has the segments {:?}, should be {:?}", strs, got2, want)) }
                if got != want { return err(format!("the list {:?} has the segments {:?}, should be {:?}", l, got, want)) }
                st.eval(hash(&format!("l{}{}", l.len(), want.len())));
                return Ok(());
            }
            None => segments(&s2b(reg)),
        };
        if rs.iter().any(|s| matches!(s.first(), Some(b':') | Some(b'*'))) { return Ok(()) }
        // requests always start with a slash
        let full = if req.first() == Some(&b'/') { req.clone() } else { let mut v = vec![b'/']; v.extend(&req); v };
        let same = segments(&full) == rs;
        if lookup(reg, &full)? != same { return err(format!("a route registered as {} ({:?}) {} a request for {}", reg, rs, if same { "doesn't get" } else { "gets" }, show(&full))) }
    }
    st.eval(hash(&format!("{:?}{:?}", want.iter().map(|s| s.len()).collect::<Vec<_>>(), reg.is_null())));
    Ok(())
}
fn gen_p01(g: &mut Gen) {
    for n in g.sizes(10_001) {
        let long = (0..n).map(|i| format!("s{}", i)).collect::<Vec<_>>();
        let flat = format!("/{}", long.join("/"));
        if !g.each(|| json!({"req": flat, "reg": null})) { return }
        if !g.each(|| json!({"req": "/".repeat(n), "reg": null})) { return }
        if !g.each(|| json!({"req": "a".repeat(n), "reg": null})) { return }
        if !g.each(|| json!({"req": "/", "reg": long})) { return }
        if n <= 300 {
            if !g.each(|| json!({"req": flat, "reg": flat})) { return }
            if !g.each(|| json!({"req": flat, "reg": long[..n - 1].join("/")})) { return }
        }
    }
    let ws: Vec<B> = words(&[b'/', b'a', b'b'], 4);
    // every byte, where a slash could be
    for c in 0..=255u8 { for pre in &[&b""[..], b"/", b"a", b"/a", b"/a/", b"\xff"] { for post in &[&b""[..], b"b", b"/b", b"/", b"\xff/"] {
        let mut v = pre.to_vec(); v.push(c); v.extend_from_slice(post);
        let same = c != b':' && c != b'*' && c != b'#' && c != b'?';
        if !g.each(|| json!({"req": b2s(&v), "reg": if same { json!(b2s(&v)) } else { json!(null) }})) { return }
    } } }
    for r in words(&[b'/', b'a', 0xff, b'%', b'?'], 6) { if !g.each(|| json!({"req": b2s(&r), "reg": null})) { return } }
    for r in &ws { for q in &ws { if r.len() + q.len() > 6 { continue } if !g.each(|| json!({"req": b2s(q), "reg": b2s(r)})) { return } } }
    for a in words(&[b'/', b'a'], 3) { for b in words(&[b'/', b'b'], 2) { for q in &ws { if !g.each(|| json!({"req": b2s(q), "reg": [b2s(&a), b2s(&b)]})) { return } } } }
    g.small_scope_done();
    loop {
        let alpha: &[u8] = if g.chance(1, 2) { b"//ab" } else { b"/a\xff\x00.%:*? " };
        let req = g.bytes(alpha, 24);
        let reg = match g.below(4) {
            0 => json!(null),
            1 => { let b = g.bytes(alpha, 12); json!(b2s(&b)) }
            2 => { // the same segments, put together in another way
                let mut v = segments(&req).join(&b'/');
                if g.chance(1, 2) { v.insert(0, b'/') }
                if g.chance(1, 3) { v.push(b'/') }
                json!(b2s(&v))
            }
            _ => { let n = g.below(4); let l: Vec<String> = (0..n).map(|_| b2s(&g.bytes(alpha, 6))).collect(); json!(l) }
        };
        if !g.emit(json!({"req": b2s(&req), "reg": reg})) { return }
    }
}

// ------------------------------------------------------------------ P08
fn uri_ok(b: u8) -> bool { b > 0x20 && b < 0x7f && b != b'#' }
fn check_p08(c: &Value, st: &mut Stats) -> Result<(), String> {
    let src = s2b(&c["src"]);
    let want = params(&src);
    let how = c["how"].as_str().unwrap_or("query");
    clear();
    let got = if how == "query" {
        if !src.iter().all(|b| uri_ok(*b)) { return Ok(()) }
        http::get_any(&PLAIN, |i| http::get(i, "GET", &format!("/?{}", String::from_utf8_lossy(&src))))?;
        let s = seen();
        if s.len() != 1 { return err(format!("the handler was called {} times", s.len())) }
        s[0].query.clone()
    } else {
        let mut raw = b"POST / HTTP/1.1\r\nHost: localhost\r\nContent-Type: application/x-www-form-urlencoded\r\n".to_vec();
        if how == "chunked" {
            raw.extend(b"Transfer-Encoding: chunked\r\n\r\n");
            let n = c["chunk"].as_u64().unwrap_or(3).max(1) as usize;
            for ch in src.chunks(n) { raw.extend(format!("{:x}\r\n", ch.len()).as_bytes()); raw.extend(ch); raw.extend(b"\r\n") }
            raw.extend(b"0\r\n\r\n");
        } else { raw.extend(format!("Content-Length: {}\r\n\r\n", src.len()).as_bytes()); raw.extend(&src) }
        http::get_any(&BODY, |i| http::raw_request(i, &raw))?;
        let s = seen();
        if s.len() != 1 { return err(format!("the handler was called {} times", s.len())) }
        match &s[0].body { Some(b) => b.clone(), None => return err("the body couldn't be read".into()) }
    };
    if got != want { return err(format!("the {} {} decodes to {:?}, should be {:?}", how, show(&src), got, want)) }
    st.eval(hash(&format!("{}{:?}", how, want.iter().map(|(k, v)| (k.len(), v.len())).collect::<Vec<_>>())));
    Ok(())
}
fn gen_p08(g: &mut Gen) {
    for n in g.sizes(10_001) {
        let many = (0..n).map(|i| format!("a{}={}", i, i)).collect::<Vec<_>>().join("&");
        let long = "b".repeat(n);
        for src in &[many, format!("{}={}&c=d", long, long), format!("x={}&{}", long, long), format!("a={}&b=1", "=".repeat(n)), format!("{}a=b", "&".repeat(n)), format!("a={}&c=%41", "%41".repeat(n)), format!("a={}", "+".repeat(n))] {
            for how in &["body", "query"] { if *how == "query" && src.len() > 20_000 { continue } if !g.each(|| json!({"src": src, "how": how, "chunk": 1000})) { return } }
        }
    }
    for w in words(b"a=&+%", 5) { if !g.each(|| json!({"src": b2s(&w), "how": "body"})) { return } }
    for w in words(&["%25", "%2B", "2B", "41", "%", "%3d", "%26", "=", "&", "a", ";", "%00", "+", "%c3%a5", "\r\n", "\u{feff}"], 3) { let t = w.concat(); for h in &["body", "query"] { if *h == "query" && !t.bytes().all(|b| b > 32 && b < 127) { continue } if !g.each(|| json!({"src": b2s(t.as_bytes()), "how": h})) { return } } }
    for w in words(b"a=&+%4", 4) { if !g.each(|| json!({"src": b2s(&w), "how": "query"})) { return } }
    for a in words(b"2bBgG %", 2) { for p in &["a=%", "%", "=%", "a%2"] { let mut v = p.as_bytes().to_vec(); v.extend(&a); if !g.each(|| json!({"src": b2s(&v), "how": "body"})) { return } } }
    for b in 0..256u32 { let b = b as u8; for v in &[vec![b], vec![b, b'=', b], vec![b'a', b'=', b, b'&', b]] { if !g.each(|| json!({"src": b2s(v), "how": "body"})) { return } }
        let v = format!("a=%{:02X}&%{:02x}", b, b); for h in &["query", "body"] { if !g.each(|| json!({"src": v, "how": h})) { return } } }
    g.small_scope_done();
    loop {
        let how = *g.pick(&["query", "body", "chunked"]);
        let mut src = vec![];
        for i in 0..g.below(6) {
            if i > 0 { src.push(b'&') }
            for j in 0..g.below(4) {
                if j > 0 { src.push(b'=') }
                match g.below(6) {
                    0 => { let l = g.lits.clone(); if !l.is_empty() { src.extend(g.pick(&l).clone()) } }
                    1 => { let b = g.next() as u8; src.extend(format!("%{:02X}", b).bytes()) }
                    2 => { let b = g.bytes(b"%+0aF&=#?/ ;", 5); src.extend(b) }
                    3 => src.extend(b"%2B%26%3d%25"),
                    _ => { let b = g.bytes(b"abc\xc3\xa5", 4); src.extend(b) }
                }
            }
        }
        if how == "query" { src.retain(|b| uri_ok(*b)) }
        if g.chance(1, 50) { let n = 5000 + g.below(5000); let c = src.clone(); while src.len() < n && !c.is_empty() && how != "query" { src.extend(&c) } }
        let n = 1 + g.below(7);
        if !g.emit(json!({"src": b2s(&src), "how": how, "chunk": n})) { return }
    }
}

// ------------------------------------------------------------------ P09
fn host_of(s: &str) -> String { match s.find(':') { Some(i) => format!("{}|{:?}", &s[..i], s[i + 1..].parse::<u16>().ok()), None => format!("{}|{:?}", s, None::<u16>) } }
fn check_p09(c: &Value, st: &mut Stats) -> Result<(), String> {
    let t = c["target"].as_str().unwrap_or("/").to_string();
    if !t.bytes().all(|b| b > 0x20 && b < 0x7f) || t.is_empty() { return Ok(()) }
    let method = c["method"].as_str().unwrap_or("GET");
    let sent_host = c["host"].as_str().unwrap_or("localhost");
    clear();
    let r = match http::get_any(&PLAIN, |i| http::raw_request(i, format!("{} {} HTTP/1.1\r\nHost: {}\r\n\r\n", method, t, sent_host).as_bytes())) { Ok(r) => http::parse_reply(r)?, Err(_) => return Ok(()) };
    let (s, f) = (seen(), filtered());
    let mut want = Seen { host: vec![host_of(sent_host)], method: method.to_string(), ..Seen::default() };
    let kind;
    if t == "*" {
        kind = 0;
        if !s.is_empty() { return err("a handler was reached by the asterisk target".into()) }
        if f != vec![want.clone()] { return err(format!("the asterisk target arrives as {:?}", f)) }
    } else if t.starts_with('/') {
        kind = 1;
        let (rest, frag) = match t.find('#') { Some(i) => (&t[..i], Some(&t[i + 1..])), None => (&t[..], None) };
        let (path, query) = match rest.find('?') { Some(i) => (&rest[..i], Some(&rest[i + 1..])), None => (rest, None) };
        want.path = Some(if path.is_empty() { b"/".to_vec() } else { decode(path.as_bytes()) });
        want.query = query.map(|q| params(q.as_bytes())).unwrap_or_default();
        want.fragment = frag.map(|f| decode(f.as_bytes()));
    } else if t.contains('/') {
        kind = 2;
        let u = match url::Url::parse(&t) { Ok(u) => u, Err(_) => return Ok(()) };
        want.path = Some(decode(u.path().as_bytes()));
        want.query = u.query().map(|q| params(q.as_bytes())).unwrap_or_default();
        want.fragment = u.fragment().map(|f| decode(f.as_bytes()));
        if let Some(h) = u.host_str() { want.host = vec![format!("{}|{:?}", h, u.port())] }
    } else {
        if r.status != 400 { return err(format!("the target {:?} is answered with {}", t, r.status)) }
        if !s.is_empty() || !f.is_empty() { return err(format!("the target {:?} reached a filter or handler", t)) }
        st.eval(3);
        return Ok(());
    }
    if kind != 0 {
        if f != vec![want.clone()] { return err(format!("the target {:?} arrives at the filters as {:?}, should be {:?}", t, f, want)) }
        if s != vec![want.clone()] { return err(format!("the target {:?} arrives as {:?}, should be {:?}", t, s, want)) }
        if r.status != 200 { return err(format!("the target {:?} is answered with {}", t, r.status)) }
    }
    st.eval(hash(&format!("{}{:?}{}{:?}", kind, want.path.map(|p| p.len()), want.query.len(), want.fragment.map(|f| f.len()))));
    Ok(())
}
fn gen_p09(g: &mut Gen) {
    for n in g.sizes(20_000) {
        let l = "b".repeat(n);
        for t in &[format!("/{}?a=b#c", l), format!("/{}#c", l), format!("/{}", "a/".repeat(n)), format!("/?{}#f", (0..n.min(2000)).map(|i| format!("a{}=1", i)).collect::<Vec<_>>().join("&")), format!("/?a={}#f", l), format!("/a?b#{}", l), format!("/{}?a", "%41".repeat(n)), format!("http://h/{}?a=b#c", l), format!("http://h/?{}#{}", l, l), format!("http://{}.x/a", "h".repeat(n.min(60)))] {
            if t.len() > 40_000 { continue }
            if !g.each(|| json!({"target": t})) { return }
        }
    }
    for w in words(b"/?#a%=", 5) { let t = format!("/{}", b2s(&w)); if !g.each(|| json!({"target": t})) { return } }
    for w in words(b"/?#a%", 4) { let t = format!("http://h{}", b2s(&w)); if !g.each(|| json!({"target": t})) { return } }
    for t in &["*", "h:80", "h:443", "example.com", "a", "**", "?a", "#", "http://h:80/", "http://h:81/p", "https://h:443/x?y#z", "https://h:444", "http://u:p@h/p?q", "http://[::1]:8/a", "x://h/p", "x:///p?q#f", "file:///a/b"] {
        for m in &["GET", "OPTIONS", "CONNECT"] { for h in &["localhost", "h:80"] { if !g.each(|| json!({"target": t, "method": m, "host": h})) { return } } }
    }
    for s in &["http", "https", "ws", "wss", "ftp", "gopher", "file", "x", "HTTP", "a+b.c-d"] { for p in &["", ":0", ":1", ":21", ":70", ":80", ":443", ":8080", ":65535"] { for t in &["", "/", "/p?q=1#f", "?q", "#f"] { for h in &["h", "127.0.0.1", "[::1]", "xn--p-ecp.example", "H.Example"] { if !g.each(|| json!({"target": format!("{}://{}{}{}", s, h, p, t)})) { return } } } } }
    for a in words(b"#?%/", 2) { for b in words(b"=&+%23", 2) { for s in &["/a%23b", "/%", "http://h/%3F", "http://h:8/+?+=", "/x?a=b"] { let t = format!("{}{}{}", s, b2s(&a), b2s(&b)); if !g.each(|| json!({"target": t})) { return } } } }
    // escapes of escapes, and what is easily mistaken for something else
    for w in words(&["%25", "%2F", "2F", "41", "%", "%3f", "#", "?", "a", ";", "%00", "+", "&=", "%c3%a5", "\\"], 3) { for s in &["/", "http://h/", "/?", "/#"] { let t = format!("{}{}", s, w.concat()); if !g.each(|| json!({"target": t})) { return } } }
    g.small_scope_done();
    loop {
        let mut t = match g.below(8) { 0 => format!("http://h{}:{}/", g.below(3), g.below(70000)), 1 => (*g.pick(&["http://example.com", "https://h", "x://h/", "ws://h:80/a", "http://[::1]:80"])).to_string(), 2 => b2s(&g.bytes(b"ab:.8?#*", 5)), _ => "/".to_string() };
        for _ in 0..g.below(8) {
            match g.below(7) {
                0 => t.push('?'), 1 => t.push('#'), 2 => t.push('/'),
                3 => { let b = g.next() as u8; t.push_str(&format!("%{:02x}", b)) }
                4 if g.chance(1, 3) => { let l = g.lits.clone(); if !l.is_empty() { t.push_str(&b2s(g.pick(&l))) } }
                4 => t.push_str(&b2s(&g.bytes(b"a=&+%.;~", 5))),
                5 => t.push_str(*g.pick(&["a=b", "%23", "%3f", "..", "%2F", "%252f", "%25", "%2541", "&&", "a/b", "[]", "\"|"])),
                _ => t.push_str(&b2s(&g.bytes(b"abc", 3))),
            }
        }
        let m = *g.pick(&["GET", "POST", "OPTIONS", "CONNECT", "FOO"]);
        let h = *g.pick(&["localhost", "h:80", "other.example:1"]);
        if !g.emit(json!({"target": t, "method": m, "host": h})) { return }
    }
}

// ------------------------------------------------------------------ P14
struct Step(usize);
impl ContextFilter for Step {
    fn modify(&self, f: FilterContext, c: &mut Context) -> ContextAction {
        FILTERED.with(|l| l.borrow_mut().push(view(c)));
        // every filter leaves something in the storage and something in the request
        f.storage.entry::<Vec<usize>>().or_insert_with(Vec::new).push(self.0);
        c.headers.append_raw("x-trail", self.0.to_string().into_bytes());
        c.query.insert("last", self.0.to_string());
        let p = PLAN.with(|p| p.borrow()["filters"][self.0].clone());
        if let Some(s) = p["path"].as_str() { c.uri_path = if s == "*" { UriPath::Asterisk } else { UriPath::Path(MaybeUtf8::from(s.as_bytes().to_vec())) } }
        if p["star"] == true { c.uri_path = UriPath::Asterisk }
        match p["abort"].as_u64() { Some(s) => ContextAction::abort(StatusCode::from_u16(s as u16)), None => ContextAction::next() }
    }
}
struct Tell;
impl ResponseFilter for Tell {
    fn begin(&self, f: FilterContext, s: StatusCode, h: &mut Headers) -> (StatusCode, ResponseAction) {
        let v = f.storage.get::<Vec<usize>>().map(|v| v.iter().map(|i| i.to_string()).collect::<Vec<_>>().join(",")).unwrap_or_else(|| "-".into());
        h.set_raw("x-stored", vec![v.into_bytes()]);
        (s, ResponseAction::next::<Data>(None))
    }
    fn write<'a>(&'a self, _: FilterContext, c: Option<Data<'a>>) -> ResponseAction { ResponseAction::next(c) }
    fn end(&self, _: FilterContext) -> ResponseAction { ResponseAction::next::<Data>(None) }
}
struct At(&'static str);
impl Handler for At { fn handle(&self, c: Context, r: Response) { let s = view(&c); SEEN.with(|l| l.borrow_mut().push(s)); if self.0 != "drop" { r.send(self.0) } } }
fn check_p14(c: &Value, st: &mut Stats) -> Result<(), String> {
    let fs = c["filters"].as_array().cloned().unwrap_or_default();
    PLAN.with(|p| *p.borrow_mut() = c.clone());
    clear();
    let mut t: TreeRouter<Option<At>> = TreeRouter::new();
    t.build().many(|n| { n.on_path("a", At("a")); n.on_path("b", At("b")); n.on_path("d", At("drop")); });
    let mut s = Server::new(t);
    s.context_filters = (0..fs.len()).map(|i| Box::new(Step(i)) as Box<dyn ContextFilter>).collect();
    s.response_filters = vec![Box::new(Tell)];
    let inst = s.build();
    let target = c["target"].as_str().unwrap_or("/a");
    let r = http::get(&inst, "GET", target)?;
    // the model
    let mut path = if target == "*" { None } else { Some(target.as_bytes().to_vec()) };
    let mut abort = None;
    let mut trail: Vec<String> = vec![];
    let mut views = vec![];
    for (i, f) in fs.iter().enumerate() {
        views.push((path.clone(), trail.clone()));
        trail.push(i.to_string());
        if let Some(s) = f["path"].as_str() { path = if s == "*" { None } else { Some(s.as_bytes().to_vec()) } }
        if f["star"] == true { path = None }
        if let Some(s) = f["abort"].as_u64() { abort = Some(s as u16); break }
    }
    let got: Vec<_> = filtered().into_iter().map(|s| (s.path, s.trail)).collect();
    if got != views { return err(format!("the filters saw {:?}, should be {:?}", got, views)) }
    let hit = match (&abort, &path) { (None, Some(p)) => match &segments(p)[..] { [x] if x == b"a" || x == b"b" || x == b"d" => Some(x[0]), _ => None }, _ => None };
    let seen_: Vec<_> = seen().into_iter().map(|s| (s.path, s.trail, s.query.get(&b"last"[..]).cloned())).collect();
    let want: Vec<_> = hit.iter().map(|_| (path.clone(), trail.clone(), trail.last().map(|s| s.clone().into_bytes()))).collect();
    if seen_ != want { return err(format!("the handlers saw {:?}, should be {:?}", seen_, want)) }
    if let Some(a) = abort {
        if r.status != a { return err(format!("aborted with {}, but the answer is {}", a, r.status)) }
        if !r.body.is_empty() { return err(format!("aborted, but the body is {}", show(&r.body))) }
    } else if path.is_some() {
        let (s, b): (u16, &[u8]) = match hit { Some(b'd') => (200, b""), Some(b'a') => (200, b"a"), Some(_) => (200, b"b"), None => (404, b"") };
        if (r.status, &r.body[..]) != (s, b) { return err(format!("the answer is {} {}", r.status, show(&r.body))) }
    }
    let stored = if trail.is_empty() { "-".to_string() } else { trail.join(",") };
    if (abort.is_some() || path.is_some()) && r.header("x-stored") != Some(&stored[..]) { return err(format!("the response filters found {:?} in the storage, should be {:?}", r.header("x-stored"), stored)) }
    st.eval(hash(&format!("{:?}{:?}{:?}{}", abort, hit, trail, path.is_some())));
    Ok(())
}
fn gen_p14(g: &mut Gen) {
    for n in g.sizes(300) {
        for last in &[json!({}), json!({"abort": 403}), json!({"path": "/b"}), json!({"star": true})] {
            let mut fs = vec![json!({}); n - 1];
            fs.push(last.clone());
            if !g.each(|| json!({"filters": fs, "target": "/a"})) { return }
        }
    }
    for s in 100..600 { for t in &["/a", "/x", "*", "/d"] { if !g.each(|| json!({"filters": [{}, {"abort": s}, {}], "target": t})) { return } } }
    let acts = vec![json!({}), json!({"abort": 403}), json!({"abort": 200}), json!({"path": "/b"}), json!({"star": true})];
    for w in words(&acts, 4) { for t in &["/a", "/x", "*"] { if !g.each(|| json!({"filters": w, "target": t})) { return } } }
    g.small_scope_done();
    loop {
        let n = g.below(9);
        let fs: Vec<Value> = (0..n).map(|_| match g.below(12) {
            0 => { let any = 100 + g.below(500) as u64; json!({"abort": *g.pick(&[100u64, 204, 301, 304, 400, 404, 500, 599, 200, any])}) }
            1 => json!({"path": *g.pick(&["/b", "/a", "/d", "", "/a/b", "b"])}), 2 => json!({"path": "/b", "abort": 418}), 3 => json!({"star": true}), _ => json!({}) }).collect();
        let t = *g.pick(&["/a", "/b", "/d", "/x", "*", "/"]);
        if !g.emit(json!({"filters": fs, "target": t})) { return }
    }
}

// ------------------------------------------------------------------ P19
struct Ka;
impl Handler for Ka {
    fn handle(&self, _: Context, mut r: Response) {
        // what the handler says about the connection doesn't matter if threads run out
        match PLAN.with(|p| p.borrow()["says"].as_str().map(String::from)) {
            Some(ref s) if s == "keep" => r.headers_mut().set(rustful::header::Connection::keep_alive()),
            Some(ref s) if s == "raw" => r.headers_mut().set_raw("connection", vec![b"keep-alive".to_vec()]),
            Some(ref s) if s == "type" => { r.headers_mut().set(rustful::header::ContentLength(1)); r.set_status(StatusCode::Created); }
            _ => {}
        }
        match &PLAN.with(|p| p.borrow()["reply"].clone()).as_str().unwrap_or("send")[..] {
            "send" => r.send("hello"),
            "drop" => {}
            "chunked" => { let mut c = r.into_chunked(); c.send("a"); c.send("b"); }
            "chunked-end" => { let c = r.into_chunked(); let _ = c.end(); }
            "raw" => { let mut w = unsafe { r.into_raw(3) }; let _ = w.write_all(b"abc"); }
            "raw-end" => { let mut w = unsafe { r.into_raw(2) }; w.send("ab"); let _ = w.end(); }
            "err" => r.send(Err::<&str, _>(io::Error::new(io::ErrorKind::Other, "bad"))),
            "none" => r.send(None::<&str>),
            "status" => r.set_status(StatusCode::Forbidden),
            "data" => r.send_data(vec![1u8, 2]),
            "file" => r.send(std::path::Path::new("/nonexistent-dir/x")),
            "file-ok" => r.send(std::path::Path::new(concat!(env!("CARGO_MANIFEST_DIR"), "/Cargo.toml"))),
            _ => r.send(""),
        }
    }
}
/// aborts at some stage
struct Quit(&'static str);
impl ResponseFilter for Quit {
    fn begin(&self, _: FilterContext, s: StatusCode, h: &mut Headers) -> (StatusCode, ResponseAction) { if self.0 == "keep" { h.set(rustful::header::Connection::keep_alive()) } (s, if self.0 == "begin" { ResponseAction::abort("no".into()) } else if self.0 == "silent" { ResponseAction::silent_abort() } else { ResponseAction::next(Some("x")) }) }
    fn write<'a>(&'a self, _: FilterContext, c: Option<Data<'a>>) -> ResponseAction { if self.0 == "write" { ResponseAction::abort("no".into()) } else { ResponseAction::next(c) } }
    fn end(&self, _: FilterContext) -> ResponseAction { if self.0 == "end" { ResponseAction::abort("no".into()) } else { ResponseAction::next::<Data>(None) } }
}
const QUITS: &[&str] = &["begin", "write", "end", "silent", "keep"];
struct Stop;
impl ContextFilter for Stop { fn modify(&self, _: FilterContext, _: &mut Context) -> ContextAction { if PLAN.with(|p| p.borrow()["reply"] == "abort") { ContextAction::abort(StatusCode::from_u16(PLAN.with(|p| p.borrow()["code"].as_u64().unwrap_or(403) as u16))) } else { ContextAction::next() } } }
/// per thread
const CROWD: usize = 400;
static N: AtomicUsize = AtomicUsize::new(0);
fn check_p19(c: &Value, st: &mut Stats) -> Result<(), String> {
    PLAN.with(|p| *p.borrow_mut() = c.clone());
    let mut t: TreeRouter<Option<Ka>> = TreeRouter::new();
    t.build().on_path("a", Ka);
    let mut s = Server::new(t);
    let threads = c["threads"].as_u64().unwrap_or(1) as usize;
    s.threads = Some(threads);
    let free = c["free"].as_u64();
    s.keep_alive = free.map(|f| KeepAlive { timeout: Duration::from_secs(1), free_threads: f as usize });
    s.context_filters = vec![Box::new(Stop)];
    if c["filter"] == true { s.response_filters = vec![Box::new(Tell)] }
    if let Some(q) = QUITS.iter().find(|q| c["filter"] == **q) { s.response_filters = vec![Box::new(Tell), Box::new(Quit(q)), Box::new(Tell)] }
    let inst = s.build();
    let mut open = 0usize;
    let reply = c["reply"].as_str().unwrap_or("send");
    let target = match reply { "404" => "/x", "400" => "h:80", "star" => "*", "405" => "/a", _ => "/a" };
    for (i, e) in c["events"].as_str().unwrap_or("").chars().enumerate() {
        match e {
            '+' => { inst.on_connection_start(); open += 1 }
            // connections that start and end at the same time
            'C' | 'c' | 'M' => {
                let (s, n) = (std::sync::Barrier::new(4), if open >= 4 * CROWD || e != 'c' { CROWD } else { 0 });
                std::thread::scope(|t| for _ in 0..4 { t.spawn(|| { s.wait(); for _ in 0..n { if e != 'c' { inst.on_connection_start() } if e != 'C' { inst.on_connection_end() } } }); });
                if e == 'C' { open += 4 * n } else if e == 'c' { open -= 4 * n }
            }
            '-' => { if open > 0 { inst.on_connection_end(); open -= 1 } }
            _ => {
                let r = http::get(&inst, "GET", target)?;
                let want = free.map_or(false, |f| open as u128 + f as u128 > threads as u128);
                let got = r.headers.iter().filter(|h| h.0 == "connection").any(|h| h.1.to_lowercase().split(',').any(|x| x.trim() == "close"));
                if want != got { return err(format!("event {}: {} connections open, {} threads, free_threads {:?}: the {} response {} Connection: close", i, open, threads, free, reply, if got { "has" } else { "lacks" })) }
                N.fetch_add(1, Ordering::Relaxed);
                st.eval(hash(&format!("{}{}{}", reply, want, open.min(6))));
            }
        }
    }
    Ok(())
}
const REPLIES: &[&str] = &["send", "drop", "chunked", "chunked-end", "raw", "raw-end", "err", "none", "status", "data", "file", "file-ok", "404", "400", "star", "abort"];
fn gen_p19(g: &mut Gen) {
    for (th, f) in &[(0usize, 0usize), (4 * CROWD, 0), (4 * CROWD, 1), (4 * CROWD + 3, 3), (2, 2)] { for ev in &["C?c?", "M?", "C?M?c?", "+M?-?", "MMC?", "CcCcC?"] { if !g.each(|| json!({"threads": th, "free": f, "reply": "send", "filter": false, "events": ev})) { return } } }
    for th in 0..4 { for f in 0..4 { for r in REPLIES { for fl in &[false, true] {
        for ev in &["?", "+?", "+?+?+?+?-?-?-?-?"] { for says in &["", "keep", "raw", "type"] { if !g.each(|| json!({"threads": th, "free": f, "reply": r, "filter": fl, "events": ev, "says": says})) { return } } }
    } } } }
    for r in REPLIES { for fl in &[false, true] { if !g.each(|| json!({"threads": 1, "free": null, "reply": r, "filter": fl, "events": "+++?"})) { return } } }
    for r in REPLIES { for q in QUITS { for th in 1..4 { if !g.each(|| json!({"threads": th, "free": 2, "reply": r, "filter": q, "events": "+?"})) { return } } } }
    for r in REPLIES { for f in 0..3 { if !g.each(|| json!({"threads": 2, "free": usize::max_value() - f, "reply": r, "filter": false, "events": "?+?+?"})) { return } } }
    g.small_scope_done();
    loop {
        let th = g.below(12);
        let f = if g.chance(1, 6) { json!(null) } else if g.chance(1, 20) { json!(usize::max_value() - g.below(3)) } else { json!(g.below(14)) };
        let n = g.below(24);
        let ev: String = (0..n).map(|_| *g.pick(&['+', '+', '-', '?'])).chain(std::iter::once('?')).collect();
        let r = *g.pick(REPLIES);
        let fl = match g.below(4) { 0 => json!(*g.pick(QUITS)), 1 => json!(false), _ => json!(true) };
        let says = *g.pick(&["", "", "keep", "raw", "type"]);
        if !g.emit(json!({"threads": th, "free": f, "reply": r, "filter": fl, "events": ev, "says": says})) { return }
    }
}

// ------------------------------------------------------------------ P25
#[derive(Default, Debug, Clone, PartialEq)]
struct Whole { method: String, version: String, address: String, headers: BTreeMap<String, Vec<B>>, body: Option<B>, parts: Option<Vec<(String, B)>>, links: usize, variables: usize, global: u32 }
thread_local! { static WHOLE: RefCell<Vec<Whole>> = RefCell::new(vec![]); }
struct Take;
impl Handler for Take {
    fn handle(&self, mut c: Context, r: Response) {
        let (step, multi) = PLAN.with(|p| { let p = p.borrow(); (p["step"].as_u64().unwrap_or(0) as usize, p["parts"].is_array()) });
        let mut w = Whole { method: c.method.to_string(), version: format!("{:?}", c.http_version), address: c.address.to_string(), links: c.hyperlinks.len(), variables: c.variables.iter().count(), global: c.global.get::<u32>().cloned().unwrap_or(0), ..Whole::default() };
        for h in c.headers.iter() { let n = h.name().to_lowercase(); let v = c.headers.get_raw(&n).map(|l| l.to_vec()).unwrap_or_default(); w.headers.insert(n, v); }
        if multi {
            w.parts = c.body.as_multipart().map(|mut m| {
                let mut out = vec![];
                let _ = m.foreach_entry(|mut f| { let mut b = vec![]; let _ = io::Read::read_to_end(&mut f.data, &mut b); out.push((f.headers.name.to_string(), b)) });
                out
            });
        } else {
            let mut out = vec![];
            let ok = if step == 0 { io::Read::read_to_end(&mut c.body, &mut out).is_ok() } else {
                let mut buf = vec![0xee; step];
                loop { match io::Read::read(&mut c.body, &mut buf) { Ok(0) => break true, Ok(n) => { out.extend_from_slice(&buf[..n]); for b in &mut buf { *b = 0xee } } Err(_) => break false } }
            };
            if ok { w.body = Some(out) }
        }
        WHOLE.with(|l| l.borrow_mut().push(w));
        r.send("ok");
    }
}
thread_local! { static TAKE: ServerInstance<Take> = { let mut s = Server::new(Take); s.global = Box::new(77u32).into(); s.build() }; }
fn check_mock(c: &Value, st: &mut Stats) -> Result<(), String> {
    let (method, path) = (c["method"].as_str().unwrap_or("GET"), c["mock"].as_str().unwrap_or("").to_string());
    let mut headers = Headers::new();
    for h in c["headers"].as_array().into_iter().flatten() { headers.append_raw(h[0].as_str().unwrap_or("x").to_string(), s2b(&h[1])) }
    let global: rustful::server::Global = Box::new(7u8).into();
    let same = format!("{}", headers);
    st.eval(hash(&format!("{}{}{}", method, path.len(), same.len())));
    let mut m = if c["owned"] == true { Context::mock(method.parse().unwrap(), path.clone(), headers, &global) } else { Context::mock(method.parse().unwrap(), &path[..], headers, &global) };
    let mut read = vec![];
    let n = io::Read::read_to_end(&mut m.body, &mut read);
    let got = (m.method.to_string(), m.uri_path.as_path().map(|p| p.as_bytes().to_vec()), m.uri_path.is_path(), format!("{}", m.headers), format!("{:?} {}", m.http_version, m.address), m.global.get::<u8>().cloned(), m.variables.iter().count(), m.query.iter().count(), m.fragment.is_none(), m.hyperlinks.len(), (read.len(), n.is_ok(), m.body.as_multipart().is_none()));
    let want = (method.to_string(), Some(path.as_bytes().to_vec()), true, same, "Http11 0.0.0.0:80".to_string(), Some(7u8), 0, 0, true, 0, (0, true, true));
    if got != want { return err(format!("the mock context has {:?}, should have {:?}", got, want)) }
    Ok(())
}
fn check_p25(c: &Value, st: &mut Stats) -> Result<(), String> {
    if c["mock"].is_string() { return check_mock(c, st) }
    PLAN.with(|p| *p.borrow_mut() = c.clone());
    WHOLE.with(|l| l.borrow_mut().clear());
    let method = c["method"].as_str().unwrap_or("POST");
    let version = c["version"].as_str().unwrap_or("1.1");
    let mut want = Whole { method: method.into(), version: if version == "1.0" { "Http10" } else { "Http11" }.into(), address: "127.0.0.1:4242".into(), global: 77, ..Whole::default() };
    let whom = c["at"].as_str();
    let mut head = match whom { Some(h) => format!("{} http://{}/a/b?c HTTP/{}\r\n", method, h, version), None => format!("{} /a/b?c#d HTTP/{}\r\n", method, version) }.into_bytes();
    let mut put = |n: &str, v: &[u8], w: &mut Whole| { head.extend(n.bytes()); head.extend(b": "); head.extend(v); head.extend(b"\r\n"); w.headers.entry(n.to_lowercase()).or_default().push(v.to_vec()) };
    if c["host"] != false { put("Host", b"localhost", &mut want); }
    if let Some(h) = whom { want.headers.insert("host".into(), vec![h.as_bytes().to_vec()]); }
    for h in c["headers"].as_array().into_iter().flatten() { put(h[0].as_str().unwrap_or("x"), &s2b(&h[1]), &mut want) }
    let mut body = s2b(&c["body"]);
    if let Some(ps) = c["parts"].as_array() {
        // multipart: with a boundary in the content type, or something that isn't a form
        let bound = c["bound"].as_str().unwrap_or("xYzZY");
        body = vec![];
        let mut parts = vec![];
        for p in ps {
            body.extend(format!("--{}\r\nContent-Disposition: form-data; name=\"{}\"\r\n\r\n", bound, p[0].as_str().unwrap_or("")).bytes());
            body.extend(s2b(&p[1])); body.extend(b"\r\n");
            parts.push((p[0].as_str().unwrap_or("").to_string(), s2b(&p[1])));
        }
        body.extend(format!("--{}--\r\n", bound).bytes());
        let kind = c["type"].as_str().unwrap_or("form");
        let quoted = if bound.bytes().all(|b| b.is_ascii_alphanumeric() || b == b'-' || b == b'_') && c["quote"] != true { bound.to_string() } else { format!("\"{}\"", bound) };
        let t = match kind { "form" => "multipart/form-data; boundary=xYzZY", "after" => "multipart/form-data; charset=utf-8; boundary=xYzZY", "between" => "multipart/form-data; boundary=xYzZY; charset=utf-8", "twice" => "multipart/form-data; boundary=xYzZY; boundary=other", "upper" => "Multipart/Form-Data; Boundary=xYzZY", "bare" => "multipart/form-data", "mixed" => "multipart/mixed; boundary=xYzZY", "text" => "text/form-data; boundary=xYzZY", "other" => "multipart/form-data; bound=xYzZY", _ => "" }.replace("xYzZY", &quoted);
        if !t.is_empty() { put("Content-Type", t.as_bytes(), &mut want) }
        // a value without its case kept isn't the same boundary, so that the parts are not found
        if matches!(kind, "form" | "after" | "between" | "twice" | "upper") { want.parts = Some(parts) }
    }
    let framing = c["framing"].as_str().unwrap_or("length");
    match framing {
        "length" => put("Content-Length", body.len().to_string().as_bytes(), &mut want),
        "chunked" => put("Transfer-Encoding", b"chunked", &mut want),
        _ => body.clear(),
    }
    head.extend(b"\r\n");
    if framing == "chunked" {
        let n = c["chunk"].as_u64().unwrap_or(3).max(1) as usize;
        for ch in body.chunks(n) { head.extend(format!("{:x}\r\n", ch.len()).as_bytes()); head.extend(ch); head.extend(b"\r\n") }
        head.extend(b"0\r\n\r\n");
    } else { head.extend(&body) }
    // the next request on the connection is none of this one's body
    if framing != "none" { head.extend(b"GET /next HTTP/1.1\r\n\r\n") }
    if c["parts"].is_null() { want.body = Some(body) }
    http::get_any(&TAKE, |i| http::raw_request(i, &head))?;
    let got = WHOLE.with(|l| l.borrow().clone());
    if got.len() != 1 { return err(format!("the handler was called {} times", got.len())) }
    let g = &got[0];
    if g.parts != want.parts { return err(format!("the multipart body arrives as {:?}, should be {:?}", g.parts, want.parts)) }
    if g.body != want.body { return err(format!("the {} body arrives as {:?}, should be {:?}", framing, g.body.as_ref().map(|b| show(b)), want.body.as_ref().map(|b| show(b)))) }
    if g.headers != want.headers { return err(format!("the headers arrive as {:?}, should be {:?}", g.headers, want.headers)) }
    if *g != want { return err(format!("the request arrives as {:?}, should be {:?}", g, want)) }
    st.eval(hash(&format!("{}{}{}{}{:?}{}", method, version, framing, want.headers.len(), want.parts.as_ref().map(|p| p.len()), want.body.as_ref().map_or(0, |b| b.len().min(20)))));
    Ok(())
}
// (the parser of `Mime` takes no value that begins with another special character than `-`)
const BOUNDS: &[&str] = &["x", "-", "--", "--x", "x--", "x-", "-x-", "----WebKitFormBoundaryaB3dE", "---------------------------123456789012345678901234567890", "0123456789012345678901234567890123456789012345678901234567890123456789", "AbC_d", "a.b", "a:b", "a'()+_,-./:=?", "a b", "boundary", "boundary=x", "utf-8", "UTF-8", "form-data", "charset"];
const FIELDS: &[(&str, &str)] = &[("Accept", "*/*"), ("Accept-Charset", "utf-8"), ("Accept-Encoding", "gzip"), ("Accept-Language", "sv"), ("Access-Control-Request-Headers", "x-a"), ("Access-Control-Request-Method", "PUT"), ("Authorization", "Basic YTpi"), ("Cache-Control", "no-cache"), ("Content-Encoding", "gzip"), ("Content-Language", "en"), ("Content-Location", "/b"), ("Content-MD5", "x"), ("Content-Range", "bytes 0-1/3"), ("Content-Type", "text/plain"), ("Cookie", "a=b; c=d"), ("Date", "Thu, 01 Jan 1970 00:00:00 GMT"), ("DNT", "1"), ("Forwarded", "for=1.2.3.4"), ("From", "a@b"), ("If-Match", "*"), ("If-Modified-Since", "Thu, 01 Jan 1970 00:00:00 GMT"), ("If-None-Match", "\"x\""), ("If-Range", "\"x\""), ("If-Unmodified-Since", "Thu, 01 Jan 1970 00:00:00 GMT"), ("Last-Event-ID", "1"), ("Max-Forwards", "0"), ("Origin", "http://h"), ("Pragma", "no-cache"), ("Prefer", "safe"), ("Proxy-Authorization", "Basic YTpi"), ("Range", "bytes=0-1"), ("Referer", "/x"), ("TE", "trailers"), ("Trailer", "x"), ("Upgrade", "h2c"), ("Upgrade-Insecure-Requests", "1"), ("User-Agent", "x"), ("Via", "1.1 x"), ("Warning", "199 - x"), ("X-Forwarded-For", "1.2.3.4"), ("X-Forwarded-Host", "h"), ("X-Forwarded-Proto", "https"), ("X-HTTP-Method-Override", "PUT"), ("X-Requested-With", "XMLHttpRequest")];
const METHODS: &[&str] = &["GET", "POST", "PUT", "DELETE", "HEAD", "OPTIONS", "TRACE", "PATCH", "FOO", "get"];
fn gen_p25(g: &mut Gen) {
    for p in &["", "/", "*", "/a b?c#d", "/\u{e5}%20", "a//", "?", "/a?b=c"] { for m in &["GET", "POST", "X-OWN"] { for h in &[json!([]), json!([["X-A", "1"], ["X-A", "2"]]), json!([["Content-Type", "multipart/form-data; boundary=b"], ["Host", "h"]])] {
        for o in &[false, true] { if !g.each(|| json!({"mock": p, "method": m, "headers": h, "owned": o})) { return } }
    } } }
    for n in g.sizes(300_000) {
        for f in &["length", "chunked"] { if !g.each(|| json!({"method": "POST", "framing": f, "body": "ab\r\n".repeat(n / 4 + 1), "chunk": 5000, "headers": [["X-A", "1"]]})) { return } }
        // every byte, in bodies and buffers of this size
        if n <= 70_000 { for s in &[n + 1, n, 0] { if !g.each(|| json!({"method": "POST", "framing": if s == &n { "chunked" } else { "length" }, "body": b2s(&(0..n + n / 3 + 9).map(|i| (i * 7 + i / 256) as u8).collect::<Vec<_>>()), "chunk": 70_001, "step": s})) { return } } }
        if n <= 90 { if !g.each(|| json!({"method": "POST", "framing": "length", "body": "a", "headers": (0..n).map(|i| json!([format!("X-{}", i), "v"])).collect::<Vec<_>>()})) { return } }
        if n <= 10_001 { if !g.each(|| json!({"method": "POST", "framing": "length", "body": "a", "headers": [["X-A", "v".repeat(n)], ["X-B", "1"]]})) { return } }
        if n <= 600 { if !g.each(|| json!({"parts": (0..n).map(|i| json!([format!("p{}", i), "v"])).collect::<Vec<_>>(), "type": "form", "framing": "length"})) { return } }
    }
    for (i, h) in FIELDS.iter().enumerate() { for v in &["1.0", "1.1"] { for m in &["GET", "POST", "FOO"] {
        let f = if *m == "GET" { "none" } else { "length" };
        if !g.each(|| json!({"method": m, "version": v, "framing": f, "body": "a=b", "headers": [[h.0, h.1]]})) { return }
        for o in &FIELDS[..i] { if !g.each(|| json!({"method": m, "version": v, "framing": f, "body": "a=b", "headers": [[h.0, h.1], [o.0, o.1]]})) { return } if *m == "GET" { break } }
    } } }
    for m in METHODS { for v in &["1.0", "1.1"] { for f in &["length", "chunked", "none"] { for b in &["", "a", "a=b&c", "\r\n\r\n"] {
        if (*f == "chunked" && *v == "1.0") || (*f != "none" && matches!(*m, "GET" | "HEAD")) { continue }
        if !g.each(|| json!({"method": m, "version": v, "framing": f, "body": b, "headers": [["X-A", "1"], ["Accept", "text/html"], ["x-b", ""]]})) { return }
    } } } }
    for h in &["b", "b:2", "localhost", "localhost:81", "[::1]:8", "1.2.3.4"] { for has in &[true, false] { for f in &["length", "none"] { if !g.each(|| json!({"at": h, "host": has, "framing": f, "body": "a", "headers": [["X-A", "1"]]})) { return } } } }
    for w in words(b"a\r\n\x00\xff", 4) { for s in &[0, 1, 2, 3] { if !g.each(|| json!({"body": b2s(&w), "framing": "length", "step": s})) { return } if !g.each(|| json!({"body": b2s(&w), "framing": "chunked", "chunk": 2, "step": s})) { return } } }
    for b in BOUNDS { for t in &["form", "after", "between", "twice", "upper"] { for q in &[false, true] { if !g.each(|| json!({"parts": [["a", "1"], ["b", "x\r\ny"]], "type": t, "framing": "length", "bound": b, "quote": q})) { return } } } }
    for t in &["form", "after", "between", "twice", "upper", "bare", "mixed", "text", "other", "none"] { for ps in &[json!([]), json!([["a", "1"]]), json!([["a", "1"], ["b", "x\r\ny"]]), json!([["a", ""], ["a", "2"], ["c", "3"]])] {
        for f in &["length", "chunked"] { if !g.each(|| json!({"parts": ps, "type": t, "framing": f, "chunk": 1000})) { return } }
    } }
    g.small_scope_done();
    loop {
        let mut hs = vec![];
        for i in 0..g.below(6) {
            let n = match g.below(5) { 0 => "Accept".to_string(), 1 => "Cookie".to_string(), 2 => "Referer".to_string(), _ => format!("X-{}", i) };
            if hs.iter().any(|h: &Value| h[0] == n) { continue }
            let v = match g.below(4) { 0 => "a, b;q=0.5".to_string(), 1 => b2s(&g.bytes(b"abc:;=\"\xe5 ", 8)).trim().to_string(), _ => b2s(&g.bytes(b"abc", 5)) };
            hs.push(json!([n, v]));
        }
        let f = *g.pick(&["length", "chunked", "length", "none"]);
        let n = if g.chance(1, 20) { 9000 } else { 40 };
        let body = g.bytes(b"ab=&+%\r\n\x00\xff-", n);
        let m = if f == "none" { *g.pick(METHODS) } else { *g.pick(&["POST", "PUT", "PATCH", "FOO", "DELETE"]) };
        let (chunk, step) = (1 + g.below(9), g.below(5));
        if g.chance(1, 8) {
            let ps: Vec<Value> = (0..g.below(4)).map(|i| json!([format!("n{}", i), b2s(&g.bytes(b"ab =&\xff", 12))])).collect();
            let t = *g.pick(&["form", "form", "after", "between", "bare", "mixed"]);
            let b = if g.chance(1, 2) { "xYzZY".to_string() } else { format!("{}q{}{}", b2s(&g.bytes(b"-", 30)), b2s(&g.bytes(b"-aZ09_.'", 20)), b2s(&g.bytes(b"-aZ09_", 19))) };
            if !g.emit(json!({"bound": b, "parts": ps, "type": t, "framing": if f == "none" { "length" } else { f }, "chunk": 1000})) { return }
        } else if !g.emit(json!({"method": m, "headers": hs, "framing": f, "body": b2s(&body), "chunk": chunk, "step": step})) { return }
    }
}

// ------------------------------------------------------------------ P26
struct Conf;
impl Handler for Conf {
    fn handle(&self, c: Context, mut r: Response) {
        let p = PLAN.with(|p| p.borrow().clone());
        if let Some(s) = p["set"].as_u64() { r.set_status(StatusCode::from_u16(s as u16)) }
        match p["sets"].as_str() {
            Some("server") => r.headers_mut().set(rustful::header::Server("mine".into())),
            Some("type") => r.headers_mut().set_raw("content-type", vec![b"x/y".to_vec()]),
            Some("none") => { r.headers_mut().remove::<rustful::header::Server>(); }
            _ => {}
        }
        let told = c.global.get::<String>().cloned().unwrap_or_else(|| "none".into());
        match p["reply"].as_str().unwrap_or("send") { "drop" => {} "chunked" => { let mut k = r.into_chunked(); k.send(told) } "raw" => { let mut w = unsafe { r.into_raw(told.len() as u64) }; let _ = w.write_all(told.as_bytes()); } _ => r.send(told) }
    }
}
struct Mark(usize);
impl ResponseFilter for Mark {
    fn begin(&self, _: FilterContext, s: StatusCode, h: &mut Headers) -> (StatusCode, ResponseAction) { h.append_raw("x-mark", self.0.to_string().into_bytes()); (s, ResponseAction::next::<Data>(None)) }
    fn write<'a>(&'a self, _: FilterContext, c: Option<Data<'a>>) -> ResponseAction { ResponseAction::next(c) }
    fn end(&self, _: FilterContext) -> ResponseAction { ResponseAction::next::<Data>(None) }
}
fn configured(c: &Value) -> Server<TreeRouter<Option<Conf>>> {
    let mut t: TreeRouter<Option<Conf>> = TreeRouter::new();
    t.build().on_path("a", Conf);
    let mut s = Server::new(t);
    if let Some(n) = c["server"].as_str() { s.server = n.into() }
    if let Some(t) = c["type"].as_str() { s.content_type = t.parse().expect("type") }
    if let Some(g) = c["global"].as_str() { s.global = Box::new(g.to_string()).into() }
    s.context_filters = vec![Box::new(Stop)];
    s.response_filters = (0..c["marks"].as_u64().unwrap_or(0) as usize).map(|i| Box::new(Mark(i)) as Box<dyn ResponseFilter>).collect();
    s
}
fn check_reply(c: &Value, r: &http::Reply) -> Result<(), String> {
    let runs = !matches!(c["reply"].as_str(), Some("404") | Some("400") | Some("star") | Some("abort"));
    let sets = if runs { c["sets"].as_str().unwrap_or("") } else { "" };
    let server = match sets { "server" => Some("mine"), "none" => None, _ => Some(c["server"].as_str().unwrap_or("rustful")) };
    let ty = match sets { "type" => "x/y", _ => c["type"].as_str().unwrap_or("text/html; charset=utf-8") };
    let all = |n: &str| -> Vec<&str> { r.headers.iter().filter(|h| h.0 == n).map(|h| &h.1[..]).collect() };
    if all("server") != server.into_iter().collect::<Vec<_>>() { return err(format!("the server fields are {:?}, should be {:?}", all("server"), server)) }
    if all("content-type") != vec![ty] { return err(format!("the content-type fields are {:?}, should be {:?}", all("content-type"), ty)) }
    let d = all("date");
    let t = d.first().and_then(|d| time_of(d));
    let now = std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_secs() as i64;
    match (d.len(), t) { (1, Some(t)) if (now - t).abs() <= 3600 => {} _ => return err(format!("the date fields are {:?}", d)) }
    let marks: Vec<String> = (0..if c["reply"] == "raw" { 0 } else { c["marks"].as_u64().unwrap_or(0) }).map(|i| i.to_string()).collect(); // raw ones bypass the filters
    if all("x-mark") != marks.iter().map(|s| &s[..]).collect::<Vec<_>>() { return err(format!("the filters left {:?}, should be {:?}", all("x-mark"), marks)) }
    let status = match c["reply"].as_str() { Some("404") => 404, Some("400") => 400, Some("abort") => c["code"].as_u64().unwrap_or(403) as u16, _ => if runs { c["set"].as_u64().unwrap_or(200) as u16 } else { 200 } };
    if r.status != status { return err(format!("the status is {}, should be {}", r.status, status)) }
    let told = if runs && c["reply"] != "drop" { c["global"].as_str().unwrap_or("none") } else { "" };
    if r.body != told.as_bytes() { return err(format!("the body is {}, should be {:?}", show(&r.body), told)) }
    Ok(())
}
/// seconds since 1970 of an IMF-fixdate
fn time_of(s: &str) -> Option<i64> {
    let w: Vec<&str> = s.split(' ').collect();
    if w.len() != 6 || w[5] != "GMT" { return None }
    let m = ["Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"].iter().position(|m| *m == w[2])? as i64 + 1;
    let (d, y) = (w[1].parse::<i64>().ok()?, w[3].parse::<i64>().ok()?);
    let t: Vec<i64> = w[4].split(':').filter_map(|x| x.parse().ok()).collect();
    if t.len() != 3 { return None }
    let (y2, m2) = if m <= 2 { (y - 1, m + 9) } else { (y, m - 3) };
    let days = 365 * y2 + y2 / 4 - y2 / 100 + y2 / 400 + (m2 * 306 + 5) / 10 + d - 1 - 719468;
    Some(days * 86400 + t[0] * 3600 + t[1] * 60 + t[2])
}
fn ask(s: &mut std::net::TcpStream, target: &str, wait: u64) -> Option<Vec<u8>> {
    s.set_read_timeout(Some(Duration::from_millis(wait))).ok()?;
    s.write_all(format!("GET {} HTTP/1.1\r\nHost: localhost\r\n\r\n", target).as_bytes()).ok()?;
    let mut out = vec![];
    let mut buf = [0; 4096];
    loop {
        if http::parse_reply(out.clone()).is_ok() { return Some(out) }
        match io::Read::read(s, &mut buf) { Ok(0) | Err(_) => return None, Ok(n) => out.extend_from_slice(&buf[..n]) }
    }
}
/// the server on a real socket (it can't be stopped, so there are only a few of these)
extern "C" { fn sched_getaffinity(pid: i32, n: usize, mask: *mut u64) -> i32; fn sched_setaffinity(pid: i32, n: usize, mask: *const u64) -> i32; }
/// Runs `f` with only `n` of the CPUs, if there are that many.
fn with_cpus<T>(n: usize, f: impl FnOnce() -> T) -> Option<T> {
    if std::thread::available_parallelism().ok()?.get() < n { return None }
    let mut all = [0u64; 16];
    let mut some = [0u64; 16];
    unsafe { if sched_getaffinity(0, 128, all.as_mut_ptr()) < 0 { return None } }
    for i in (0..1024).filter(|i| all[i / 64] >> (i % 64) & 1 == 1).take(n) { some[i / 64] |= 1 << (i % 64) }
    unsafe { if sched_setaffinity(0, 128, some.as_ptr()) < 0 { return None } }
    let r = f();
    unsafe { sched_setaffinity(0, 128, all.as_ptr()); }
    Some(r)
}
fn check_run(c: &Value) -> Result<(), String> {
    let mut s = configured(c);
    s.host = rustful::server::Host::from(([127, 0, 0, 1].into(), 0u16));
    s.threads = c["threads"].as_u64().map(|t| t as usize);
    s.keep_alive = c["keep"].as_u64().map(|ms| KeepAlive { timeout: Duration::from_millis(ms), free_threads: 0 });
    let mut threads = c["threads"].as_u64();
    let cpus = c["cpus"].as_u64().unwrap_or(0);
    let l = if cpus > 0 { match with_cpus(cpus as usize, || s.run()) { Some(l) => { threads = Some(cpus * 5 / 4); l } None => return Ok(()) } } else { s.run() };
    let l = l.map_err(|e| format!("the server doesn't start: {}", e))?;
    let at = l.socket;
    std::mem::forget(l);
    if at.ip().to_string() != "127.0.0.1" { return err(format!("the server listens at {}", at)) }
    let connect = || std::net::TcpStream::connect(at).map_err(|e| format!("can't connect: {}", e));
    let mut a = connect()?;
    let r = ask(&mut a, "/a", 20_000).ok_or("no answer")?;
    check_reply(c, &http::parse_reply(r)?)?;
    let again = ask(&mut a, "/a", 20_000).is_some();
    if again != c["keep"].is_u64() { return err(format!("a second request on the connection is {}answered, with keep-alive {}", if again { "" } else { "not " }, c["keep"])) }
    if let (Some(t), true) = (threads, again) {
        let mut open = vec![a];
        for i in 1..t + 1 {
            let mut b = connect()?;
            let got = ask(&mut b, "/a", if i < t { 20_000 } else { 300 }).is_some();
            if got != (i < t) { return err(format!("connection {} with {} threads{} is {}served", i + 1, t, if cpus > 0 { format!(" (for {} CPUs)", cpus) } else { String::new() }, if got { "" } else { "not " })) }
            open.push(b);
        }
    }
    Ok(())
}
fn check_p26(c: &Value, st: &mut Stats) -> Result<(), String> {
    PLAN.with(|p| *p.borrow_mut() = c.clone());
    if c["run"] == true { check_run(c)?; st.eval(hash(&c.to_string())); return Ok(()) }
    if c["defaults"] == true {
        let s = Server::new(Conf);
        let h: std::net::SocketAddr = s.host.into();
        let d = (h.to_string(), s.threads, s.keep_alive.is_some(), s.server.clone(), s.content_type.to_string(), s.context_filters.len(), s.response_filters.len(), s.global.get::<String>().is_some());
        let w = ("0.0.0.0:80".to_string(), None, false, "rustful".to_string(), "text/html; charset=utf-8".to_string(), 0, 0, false);
        if d != w { return err(format!("the default configuration is {:?}, should be {:?}", d, w)) }
    }
    let inst = configured(c).build();
    let target = match c["reply"].as_str() { Some("404") => "/x", Some("400") => "h:80", Some("star") => "*", _ => "/a" };
    let r = http::get(&inst, "GET", target)?;
    check_reply(c, &r)?;
    st.eval(hash(&format!("{}{}{}{}{}", c["reply"], c["sets"], c["marks"], c["server"].is_null(), c["type"])));
    Ok(())
}
const KINDS: &[&str] = &["send", "drop", "chunked", "raw", "404", "400", "star", "abort"];
const TYPES: &[&str] = &["text/plain", "application/json; charset=utf-8", "x/y; a=b", "image/png"];
fn gen_p26(g: &mut Gen) {
    if !g.each(|| json!({"defaults": true})) { return }
    for (t, k) in &[(json!(1), json!(null)), (json!(1), json!(30_000)), (json!(3), json!(30_000)), (json!(null), json!(30_000)), (json!(null), json!(null))] {
        if !g.each(|| json!({"run": true, "threads": t, "keep": k, "server": "s p", "type": "x/y; a=b", "global": "g", "marks": 2})) { return }
    }
    for n in 1..8 { if !g.each(|| json!({"run": true, "threads": null, "cpus": n, "keep": 30_000, "server": "s", "type": "x/y", "global": "g", "marks": 0})) { return } }
    for s in 200..600 { if s == 204 || s == 304 { continue } for m in 0..2 {
        for r in &["send", "drop", "chunked", "raw"] { if !g.each(|| json!({"reply": r, "set": s, "marks": m, "server": "s", "type": "x/y", "global": "g"})) { return } }
        if !g.each(|| json!({"reply": "abort", "code": s, "marks": m, "type": "x/y"})) { return }
    } }
    for r in KINDS { for s in &["", "server", "type", "none"] { for m in 0..3 { for (n, t, gl) in &[(json!(null), json!(null), json!(null)), (json!("s"), json!("text/plain"), json!("g")), (json!(""), json!("x/y; a=b"), json!(""))] {
        if !g.each(|| json!({"reply": r, "sets": s, "marks": m, "server": n, "type": t, "global": gl})) { return }
    } } } }
    g.small_scope_done();
    loop {
        let (r, s, m, t) = (*g.pick(KINDS), *g.pick(&["", "", "server", "type", "none"]), g.below(5), *g.pick(TYPES));
        let n = b2s(&g.bytes(b"abcS/1.(", 12));
        let gl = b2s(&g.bytes(b"abc", 12));
        let (a, b) = (200 + g.below(4) + 100 * g.below(4), 200 + g.below(4) + 100 * g.below(4));
        let (a, b) = (if a == 204 { 299 } else { a }, if b == 204 { 299 } else { b });
        if !g.emit(json!({"reply": r, "sets": s, "marks": m, "server": n, "type": t, "global": gl, "set": a, "code": b})) { return }
    }
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "P01", gen: gen_p01, check: check_p01, rule: "paths split by the crate and by the model, and routes looked up by them; distinct by the lengths of the segments" },
        Prop { id: "P08", gen: gen_p08, check: check_p08, rule: "query strings and bodies (plain and chunked) sent in requests; distinct by kind and lengths of names and values" },
        Prop { id: "P09", gen: gen_p09, check: check_p09, rule: "requests with the target of the case; distinct by kind of target and sizes of its parts" },
        Prop { id: "P14", gen: gen_p14, check: check_p14, rule: "requests through lists of context filters; distinct by the filters that ran and the outcome" },
        Prop { id: "P25", gen: gen_p25, check: check_p25, rule: "requests of the case, read by a handler; distinct by method, version, framing, number of headers and size of body" },
        Prop { id: "P26", gen: gen_p26, check: check_p26, rule: "responses of servers configured as in the case, some of them on real sockets; distinct by kind of answer and configuration" },
        Prop { id: "P19", gen: gen_p19, check: check_p19, rule: "requests between connection events; distinct by kind of response, outcome and open connections" },
    ]
}
#[allow(dead_code)] fn _t<R: HandleRequest>(_: R) {}
