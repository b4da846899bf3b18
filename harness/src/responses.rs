//! Responses on their way out: P12 filters, P13 bodies and framing, P16 results and options, P24 files.
use std::cell::RefCell;
use std::io::{self, Write};
use std::path::{Path, PathBuf};

use rustful::file::ext_to_mime;
use rustful::filter::{FilterContext, ResponseAction, ResponseFilter};
use rustful::header::{ContentLength, Headers};
use rustful::response::{Data, Error, FileError, SendResponse};
use rustful::server::ServerInstance;
use rustful::{Context, Handler, Response, Server, StatusCode};
use serde_json::{json, Value};

use crate::gen::{b2s, hash, s2b, words, Gen, Stats};
use crate::http::{self, Framing};
use crate::Prop;

type B = Vec<u8>;
fn err<T>(s: String) -> Result<T, String> { Err(s) }
fn show(b: &[u8]) -> String { let t: String = String::from_utf8_lossy(b).chars().take(300).collect(); format!("{:?} ({} bytes)", t, b.len()) }
thread_local! {
    static PLAN: RefCell<Value> = RefCell::new(Value::Null);
    static TOLD: RefCell<Vec<String>> = RefCell::new(vec![]);
    static LOST: RefCell<Vec<String>> = RefCell::new(vec![]);
}
fn plan() -> Value { PLAN.with(|p| p.borrow().clone()) }
fn tell(s: String) { TOLD.with(|t| t.borrow_mut().push(s)) }
fn told() -> Vec<String> { TOLD.with(|t| t.borrow_mut().drain(..).collect()) }

/// A status with a body: one of the usual, or any.
fn rset(g: &mut Gen, usual: &[u64]) -> Value { if g.chance(1, 2) { json!(*g.pick(usual)) } else { let n = 200 + g.below(400) as u64; json!(if n == 204 || n == 304 { 599 } else { n }) } }
/// All of them.
fn codes() -> Vec<u64> { (200..600).filter(|n| *n != 204 && *n != 304).collect() }
/// Headers that a handler may set.
const OWN: &[(&str, &str)] = &[("Content-Type", "text/html"), ("Content-Type", "application/json; charset=utf-8"), ("Content-Type", "nonsense"), ("ETag", "\"x\""), ("Set-Cookie", "a=b; Path=/"), ("Cache-Control", "no-cache, max-age=0"), ("Location", "/elsewhere?a=b"), ("Allow", "GET, HEAD"), ("Server", "other"), ("Date", "Thu, 01 Jan 1970 00:00:00 GMT"), ("Last-Modified", "Thu, 01 Jan 1970 00:00:00 GMT"), ("Content-Encoding", "gzip"), ("Content-Language", "en"), ("Vary", "*"), ("X-Empty", ""), ("Accept-Ranges", "bytes"), ("Content-Disposition", "attachment"), ("WWW-Authenticate", "Basic"), ("x-lower", "1,2 , 3"), ("Connection", "close"), ("Retry-After", "3"), ("Access-Control-Allow-Origin", "*")];
/// The headers of the case, as they should arrive.
fn own_headers(c: &Value) -> Vec<(String, String)> {
    let mut out: Vec<(String, String)> = vec![("x-own".into(), "1".into())];
    for i in c["own"].as_array().into_iter().flatten() { let (n, v) = OWN[i.as_u64().unwrap_or(0) as usize % OWN.len()]; let n = n.to_lowercase(); out.retain(|h| h.0 != n); out.push((n, v.into())) }
    out
}
fn kept(c: &Value, r: &http::Reply) -> Result<(), String> {
    for (n, v) in own_headers(c) { let got: Vec<&str> = r.headers.iter().filter(|h| h.0.to_lowercase() == n).map(|h| &h.1[..]).collect(); if got != [&v[..]] { return err(format!("the handler's header {}: {} arrives as {:?}", n, v, got)) } }
    Ok(())
}
fn rown(g: &mut Gen, c: &mut Value) { if g.chance(1, 3) { let n = 1 + g.below(4); c["own"] = json!((0..n).map(|_| g.below(OWN.len())).collect::<Vec<_>>()) } }

// ------------------------------------------------------------------ P12
/// What a filter does, by script. Content passed through is marked with the filter's number.
#[derive(Clone, Debug, PartialEq)]
enum Act { Next(Option<B>), Silent, Abort(String) }
fn act(a: &str, i: usize, content: Option<B>) -> Act {
    match a.as_bytes().first() {
        None => Act::Next(content.map(|c| { let mut v = format!("{}(", i).into_bytes(); v.extend(c); v.push(b')'); v })),
        Some(b'-') => Act::Silent,
        Some(b'!') => Act::Abort(a[1..].to_string()),
        Some(b'0') => Act::Next(None),
        Some(b'p') => Act::Next(content),
        _ => Act::Next(Some(a[1..].as_bytes().to_vec())),
    }
}
fn write_script(f: &Value, n: usize) -> String { let w = f["write"].as_array().cloned().unwrap_or_default(); if w.is_empty() { String::new() } else { w[n.min(w.len() - 1)].as_str().unwrap_or("").to_string() } }
fn bump(s: StatusCode, f: &Value) -> StatusCode { match f["status"].as_u64() { Some(0) => StatusCode::from_u16(match s.to_u16() + 1 { 204 | 304 => 500, n => n }), Some(n) => StatusCode::from_u16(n as u16), None => s } }
struct Scripted(usize);
impl Scripted { fn f(&self) -> Value { plan()["filters"][self.0].clone() } }
struct Calls(Vec<usize>);
fn out<'a>(a: Act, text: bool) -> ResponseAction<'a> {
    match a { Act::Next(None) => ResponseAction::next::<Data>(None), Act::Next(Some(c)) => match String::from_utf8(c) { Ok(s) => if text { ResponseAction::next(Some(s)) } else { ResponseAction::next(Some(s.into_bytes())) }, Err(e) => ResponseAction::next(Some(e.into_bytes())) },
        Act::Silent => ResponseAction::silent_abort(), Act::Abort(m) => ResponseAction::abort(m) }
}
impl ResponseFilter for Scripted {
    fn begin(&self, c: FilterContext, s: StatusCode, h: &mut Headers) -> (StatusCode, ResponseAction) {
        c.storage.entry::<Calls>().or_insert_with(|| Calls(vec![0; 200]));
        let f = self.f();
        tell(format!("begin {} {} {:?}", self.0, s.to_u16(), h.get_raw("x-trail").map(|v| v.len()).unwrap_or(0)));
        h.append_raw("x-trail", self.0.to_string().into_bytes());
        (bump(s, &f), out(match f["begin"].as_str().unwrap_or("") { "" => Act::Next(None), a => act(a, self.0, None) }, true))
    }
    fn write<'a>(&'a self, c: FilterContext, content: Option<Data<'a>>) -> ResponseAction {
        let content = match content { None => return ResponseAction::next::<Data>(None), Some(d) => d };
        let calls = match c.storage.get_mut::<Calls>() { Some(c) => c, None => { if self.f()["begin"] == json!(null) { } return ResponseAction::next(Some("no storage")) } };
        let n = calls.0[self.0];
        calls.0[self.0] += 1;
        let text = if let Data::String(_) = content { true } else { false };
        out(act(&write_script(&self.f(), n), self.0, Some(content.into_bytes())), text)
    }
    fn end(&self, _: FilterContext) -> ResponseAction { out(match self.f()["end"].as_str().unwrap_or("") { "" => Act::Next(None), a => act(a, self.0, None) }, false) }
}
struct Model<'a> { fs: &'a [Value], calls: Vec<usize> }
impl<'a> Model<'a> {
    fn write(&mut self, i: usize, c: Option<B>) -> Act {
        if c.is_none() { return Act::Next(None) }
        let n = self.calls[i];
        self.calls[i] += 1;
        act(&write_script(&self.fs[i], n), i, c)
    }
    /// through the filters from `from` on
    fn pass(&mut self, from: usize, c: Option<B>) -> Act {
        let mut a = Act::Next(c);
        for i in from..self.fs.len() { a = match a { Act::Next(c) => self.write(i, c), x => return x } }
        a
    }
    /// status, filters begun, told, and what is put out at the beginning, or what it was aborted with
    fn begin(&mut self, mut status: u16, body: &mut Vec<B>) -> (u16, Vec<String>, Vec<String>, Result<(), String>) {
        let mut queue: Vec<Act> = vec![];
        let (mut trail, mut told) = (vec![], vec![]);
        for i in 0..self.fs.len() {
            told.push(format!("begin {} {} {:?}", i, status, trail.len()));
            trail.push(i.to_string());
            status = bump(StatusCode::from_u16(status), &self.fs[i]).to_u16();
            let a = match self.fs[i]["begin"].as_str().unwrap_or("") { "" => Act::Next(None), a => act(a, i, None) };
            if let Act::Abort(m) = a { return (status, trail, told, Err(m)) }
            let mut q = vec![];
            let mut aborted = None;
            for x in queue { match x { Act::Next(c) => q.push(self.write(i, c)), Act::Silent => {}, Act::Abort(m) => aborted = Some(m) } }
            queue = q;
            if let Some(m) = aborted { return (status, trail, told, Err(m)) }
            let stop = a == Act::Silent;
            queue.push(a);
            if stop { break }
        }
        for a in queue { match a { Act::Next(Some(c)) => body.push(c), Act::Abort(m) => return (status, trail, told, Err(m)), _ => {} } }
        (status, trail, told, Ok(()))
    }
    fn end(&mut self, body: &mut Vec<B>) -> Result<(), String> {
        let mut outs = vec![];
        for i in (0..self.fs.len()).rev() {
            match match self.fs[i]["end"].as_str().unwrap_or("") { "" => Act::Next(None), a => act(a, i, None) } { Act::Next(c) => outs.push((i, c)), Act::Silent => break, Act::Abort(m) => return Err(m) }
        }
        let mut q = vec![];
        for (i, c) in outs {
            let last = self.fs.len();
            let mut a = Act::Next(c);
            for j in i + 1..last { a = match a { Act::Next(c) => self.write(j, c), Act::Abort(m) => return Err(m), x => x } }
            q.push(a);
        }
        for a in q { match a { Act::Next(Some(c)) => body.push(c), Act::Abort(m) => return Err(m), _ => {} } }
        Ok(())
    }
}
fn message(e: Error) -> String { match e { Error::Filter(m) => format!("!{}", m), Error::Io(e) => format!("io {:?}", e.kind()) } }
fn io_message(e: io::Error) -> String { if e.kind() == io::ErrorKind::Other { e.to_string() } else { format!("io {:?}", e.kind()) } }
/// a bug in a handler
fn planned_panic() { std::panic::panic_any(http::Planned) }
struct Sender;
impl Handler for Sender {
    fn handle(&self, _: Context, r: Response) { self.act(r) }
}
impl Sender {
    fn act(&self, mut r: Response) {
        let p = plan();
        if let Some(s) = p["set"].as_u64() { r.set_status(StatusCode::from_u16(s as u16)) }
        for (n, v) in own_headers(&p) { r.headers_mut().set_raw(n, vec![v.into_bytes()]) }
        // a length that doesn't matter: whoever writes the body sets it
        match p["own_length"].as_u64() { Some(0) => r.headers_mut().set(ContentLength(9)), Some(_) => r.headers_mut().set_raw("Content-Length", vec![b"9".to_vec()]), None => {} }
        let items: Vec<B> = p["items"].as_array().cloned().unwrap_or_default().iter().map(s2b).collect();
        let how: Vec<String> = p["how"].as_array().cloned().unwrap_or_default().iter().map(|h| h.as_str().unwrap_or("").to_string()).collect();
        let item = items.get(0).cloned().unwrap_or_default();
        let done = |r: Result<(), Error>| tell(match r { Ok(()) => "ok".into(), Err(e) => message(e) });
        match p["mode"].as_str().unwrap_or("") {
            _ if p["panic"] == true && items.is_empty() && p["mode"] == "drop" => planned_panic(),
            "send" => { r.send(item); tell("-".into()) }
            "send_data" => { r.send_data(item); tell("-".into()) }
            "try_send" => done(r.try_send(&item[..])),
            "try_send_data" => done(r.try_send_data(item)),
            "text" => done(r.try_send(String::from_utf8_lossy(&item).into_owned())),
            "chunked" => {
                let mut c = r.into_chunked();
                for (i, x) in items.iter().enumerate() {
                    let h = how.get(i).map(|s| &s[..]).unwrap_or("try");
                    match h {
                        "send" => { c.send(&x[..]); tell("-".into()) }
                        "write" => tell(match c.write(x) { Ok(n) => format!("{}", n), Err(e) => io_message(e) }),
                        "write_all" => tell(match c.write_all(x) { Ok(()) => "ok".into(), Err(e) => io_message(e) }),
                        "flush" => tell(match c.flush() { Ok(()) => "ok".into(), Err(e) => io_message(e) }),
                        _ => tell(match c.try_send(&x[..]) { Ok(n) => format!("{}", n), Err(e) => message(e) }),
                    }
                }
                if p["panic"] == true { planned_panic() }
                if p["end"] == true { done(c.end()) }
            }
            "raw" => {
                let total = p["length"].as_u64().unwrap_or_else(|| items.iter().map(|x| x.len() as u64).sum());
                let mut c = unsafe { r.into_raw(total) };
                for (i, x) in items.iter().enumerate() {
                    let h = how.get(i).map(|s| &s[..]).unwrap_or("try");
                    match h {
                        "send" => { c.send(&x[..]); tell("-".into()) }
                        "write" => tell(match c.write(x) { Ok(n) => format!("{}", n), Err(e) => io_message(e) }),
                        "write_all" => tell(match c.write_all(x) { Ok(()) => "ok".into(), Err(e) => io_message(e) }),
                        "flush" => tell(match c.flush() { Ok(()) => "ok".into(), Err(e) => io_message(e) }),
                        _ => tell(match c.try_send(&x[..]) { Ok(()) => "ok".into(), Err(e) => io_message(e) }),
                    }
                }
                if p["panic"] == true { planned_panic() }
                if p["end"] == true { tell(match c.end() { Ok(()) => "ok".into(), Err(e) => io_message(e) }) }
            }
            _ => {}
        }
    }
}
thread_local! {
    static BARE: ServerInstance<Sender> = Server::new(Sender).build();
    static THROUGH: ServerInstance<Sender> = { let mut s = Server::new(Sender); s.response_filters = vec![Box::new(Through)]; s.build() };
}
/// The server, perhaps with a filter that does nothing.
fn ask_sender(c: &Value, room: Option<usize>) -> Result<Vec<u8>, String> { if c["filter"] == true && c["mode"] != "raw" { THROUGH.with(|i| http::raw_request_to(i, &req(), room)) } else { BARE.with(|i| http::raw_request_to(i, &req(), room)) } }
fn with_filters(n: usize) -> ServerInstance<Sender> { let mut s = Server::new(Sender); s.response_filters = (0..n).map(|i| Box::new(Scripted(i)) as Box<dyn ResponseFilter>).collect(); s.build() }
thread_local! { static FILTERED: Vec<ServerInstance<Sender>> = (0..7).map(with_filters).collect(); }
fn is_chunked(p: &Value) -> bool { p["mode"] == "chunked" }
fn req() -> Vec<u8> { http::request("GET", "/a") }

fn check_p12(c: &Value, st: &mut Stats) -> Result<(), String> {
    let fs = c["filters"].as_array().cloned().unwrap_or_default();
    PLAN.with(|p| *p.borrow_mut() = c.clone());
    told();
    let raw = FILTERED.with(|f| match f.get(fs.len()) { Some(i) => http::raw_request_to(i, &req(), None), None => http::raw_request_to(&with_filters(fs.len()), &req(), None) })?;
    let got = told();
    let r = http::parse_reply(raw)?;
    if !r.rest.is_empty() { return err(format!("bytes after the response: {}", show(&r.rest))) }
    // the model
    let mut m = Model { fs: &fs, calls: vec![0; fs.len() + 1] };
    let mut body: Vec<B> = vec![];
    let items: Vec<B> = c["items"].as_array().cloned().unwrap_or_default().iter().map(s2b).collect();
    let (status, trail, mut want, began) = m.begin(c["set"].as_u64().unwrap_or(200) as u16, &mut body);
    let mut whole = began.is_ok();
    if is_chunked(c) {
        let mut pending = began.err().map(|m| format!("!{}", m));
        let alive = pending.is_none();
        for (i, x) in items.iter().enumerate() {
            let h = c["how"][i].as_str().unwrap_or("try");
            if !alive {
                let e = pending.take().unwrap_or_else(|| "io BrokenPipe".into());
                want.push(if h == "send" { "-".into() } else { e });
                continue;
            }
            if h == "flush" { want.push("ok".into()); continue }
            let a = m.pass(0, Some(x.clone()));
            want.push(match (&a, h) {
                (_, "send") => "-".into(),
                (Act::Abort(e), _) => format!("!{}", e),
                (_, "write") => format!("{}", x.len()),
                (_, "write_all") => "ok".into(),
                (Act::Next(Some(b)), _) => format!("{}", b.len()),
                _ => "0".into(),
            });
            if let Act::Next(Some(b)) = a { body.push(b) }
        }
        let ended = if alive { m.end(&mut body).map_err(|m| format!("!{}", m)) } else { Err(pending.take().unwrap_or_else(|| "io BrokenPipe".into())) };
        if c["end"] == true { want.push(match ended { Ok(()) => "ok".into(), Err(e) => e }) }
    } else {
        let mode = c["mode"].as_str().unwrap_or("");
        let item = if mode == "drop" { Some(vec![]) } else { items.get(0).cloned() };
        let mut res = began;
        if res.is_ok() { res = match m.pass(0, item) { Act::Next(Some(b)) => { body.push(b); Ok(()) }, Act::Abort(e) => Err(e), _ => Ok(()) } }
        if res.is_ok() { res = m.end(&mut body) }
        if res.is_err() { body.clear(); whole = false }
        match mode { "drop" => {}, "send" | "send_data" => want.push("-".into()), _ => want.push(match res { Ok(()) => "ok".into(), Err(e) => format!("!{}", e) }) }
    }
    // io errors carry the display form
    let same = got.len() == want.len() && got.iter().zip(&want).all(|(g, w)| g == w || (w.starts_with('!') && !g.starts_with("io ") && !g.starts_with('!') && g.ends_with(&w[1..])));
    if !same { return err(format!("the filters and the handler were told {:?}, should be {:?}", got, want)) }
    let sent = body.concat();
    if r.body != sent { return err(format!("the body is {}, should be {}", show(&r.body), show(&sent))) }
    if whole {
        if r.status != status { return err(format!("the status is {}, should be {}", r.status, status)) }
        let got: Vec<String> = r.headers.iter().filter(|h| h.0 == "x-trail").map(|h| h.1.clone()).collect();
        if got.join(",").replace(" ", "") != trail.join(",") { return err(format!("the headers were made by the filters {:?}, should be {:?}", got, trail)) }
    }
    kept(c, &r)?;
    st.eval(hash(&format!("{:?}{}{}{}", want.iter().map(|s| s.len().min(9)).collect::<Vec<_>>(), body.len(), trail.len(), c["mode"])));
    Ok(())
}
fn small_filters() -> Vec<Value> {
    let mut v = vec![];
    for b in &["", "=b", "-", "!x"] { for w in &["", "0", "-", "!w", "p"] { for e in &["", "=e", "-", "!y"] {
        v.push(json!({"begin": b, "write": [w], "end": e}));
    } } }
    v
}
fn gen_p12(g: &mut Gen) {
    let modes = [json!({"mode": "try_send", "items": ["c"]}), json!({"mode": "chunked", "items": ["c", "d"], "how": ["try", "write"], "end": true}), json!({"mode": "drop"})];
    let merge = |fs: &[Value], m: &Value| { let mut m = m.clone(); m["filters"] = json!(fs); m };
    for n in g.sizes(300_000) {
        let big = "x".repeat(n);
        for f in &[json!({"begin": "", "write": [""], "end": ""}), json!({"begin": "=b", "write": [""], "end": "=e"})] {
            if !g.each(|| merge(&[f.clone(), f.clone()], &json!({"mode": "try_send", "items": [big]}))) { return }
            if !g.each(|| merge(&[f.clone(), f.clone()], &json!({"mode": "chunked", "items": [big, "a", big], "how": ["try", "write", "write_all"], "end": true}))) { return }
        }
        if n > 130 { continue }
        for (a, z) in &[("||", "||"), ("||", "=b||=e"), ("=b||=e", "||"), ("||", "||!y"), ("||", "|-|=e"), ("||", "!x||"), ("||", "|!w|")] {
            let f = |s: &str| { let p: Vec<&str> = s.split('|').collect(); json!({"begin": p[0], "write": [p[1]], "end": p[2]}) };
            let mut fs = vec![f("||"); n];
            fs[0] = f(a); fs[n - 1] = f(z);
            for m in &modes { if !g.each(|| merge(&fs, m)) { return } }
        }
    }
    let one = small_filters();
    for s in codes() { for m in &modes { for f in &[vec![], vec![json!({"begin": "", "write": [""], "end": ""})], vec![json!({"begin": "", "write": [""], "end": "", "status": s})]] { if !g.each(|| { let mut c = merge(f, m); if f.len() == 0 || f[0]["status"].is_null() { c["set"] = json!(s) } c }) { return } } } }
    for i in 0..OWN.len() { for m in &modes { for f in &[vec![], vec![one[0].clone()]] { if !g.each(|| { let mut c = merge(f, m); c["own"] = json!([i]); c }) { return } } } }
    for f in &one { for m in &modes { if !g.each(|| merge(&[f.clone()], m)) { return } } }
    for a in &one { for b in &one { for m in &modes[..2] { if !g.each(|| merge(&[a.clone(), b.clone()], m)) { return } } } }
    let few: Vec<Value> = ["|| ", "=b||", "|0|", "|-|=e", "||=e", "|!w|", "=b|-|=e", "=b||-", "||!y", "-||", "!x||"].iter().map(|s| { let p: Vec<&str> = s.trim().split('|').collect(); json!({"begin": p[0], "write": [p[1]], "end": p[2]}) }).collect();
    for fs in words(&few, 3) { if fs.len() == 3 { for m in &modes[..2] { if !g.each(|| merge(&fs, m)) { return } } } }
    for a in &one { for m in &modes { for o in 0..2 { let mut c = merge(&[a.clone()], m); c["own_length"] = json!(o); if !g.each(|| c) { return } } } }
    g.small_scope_done();
    loop {
        let n = g.below(6);
        let calm = g.chance(1, 2);
        let fs: Vec<Value> = (0..n).map(|_| {
            let wn = g.below(4);
            let w: Vec<String> = (0..wn).map(|_| act_s(g, calm)).collect();
            let st = match g.below(8) { 0 => json!(0), 1 => rset(g, &[201, 404, 500, 302]), _ => json!(null) };
            let b = if g.chance(1, 2) { "".into() } else { act_s(g, calm) };
            let e = if g.chance(1, 2) { "".into() } else { act_s(g, calm) };
            json!({"begin": b, "write": w, "end": e, "status": st})
        }).collect();
        let mode = *g.pick(&["send", "send_data", "try_send", "try_send_data", "drop", "chunked", "chunked", "chunked", "chunked"]);
        let k = if mode == "chunked" { g.below(5) } else if mode == "drop" { 0 } else { 1 };
        let items: Vec<String> = (0..k).map(|_| b2s(&g.bytes(b"abc\xff ", 5))).collect();
        let how: Vec<&str> = (0..k).map(|_| *g.pick(&["try", "try", "write", "write_all", "send", "flush"])).collect();
        let end = g.chance(2, 3);
        let set = if g.chance(1, 3) { rset(g, &[201, 400, 404, 503]) } else { json!(null) };
        let own = if g.chance(1, 6) { json!(g.below(2)) } else { json!(null) };
        let mut c = json!({"own_length": own, "filters": fs, "mode": mode, "items": items, "how": how, "end": end, "set": set});
        rown(g, &mut c);
        if !g.emit(c) { return }
    }
}
fn act_s(g: &mut Gen, calm: bool) -> String {
    match g.below(if calm { 6 } else { 9 }) { 0 | 1 => "".into(), 2 | 3 => format!("={}", (b'k' + g.below(9) as u8) as char), 4 => "p".into(), 5 => "0".into(), 6 | 7 => "-".into(), _ => format!("!m{}", g.below(9)) }
}

// ------------------------------------------------------------------ P13
fn check_p13(c: &Value, st: &mut Stats) -> Result<(), String> {
    PLAN.with(|p| *p.borrow_mut() = c.clone());
    told();
    let raw = ask_sender(c, None)?;
    let got = told();
    let items: Vec<B> = c["items"].as_array().cloned().unwrap_or_default().iter().map(s2b).collect();
    let mode = c["mode"].as_str().unwrap_or("");
    let full = raw.clone();
    let r = http::parse_reply(raw)?;
    if !r.rest.is_empty() { return err(format!("bytes after the response: {}", show(&r.rest))) }
    let status = c["set"].as_u64().unwrap_or(200) as u16;
    if r.status != status { return err(format!("the status is {}, should be {}", r.status, status)) }
    kept(c, &r)?;
    let flows = mode == "chunked" || mode == "raw";
    let mut body = vec![];
    let mut want = vec![];
    if flows {
        let limit = c["length"].as_u64().unwrap_or(u64::max_value()) as usize;
        for (i, x) in items.iter().enumerate() {
            let h = c["how"][i].as_str().unwrap_or("try");
            if h == "flush" { want.push("ok".into()); continue }
            let n = x.len().min(limit - body.len().min(limit));
            body.extend_from_slice(&x[..n]);
            want.push(match h { "send" => "-".into(), "write" => format!("{}", n), "try" if mode == "chunked" => format!("{}", n), _ => if n == x.len() { "ok".into() } else { "io WriteZero".to_string() } });
        }
        if c["end"] == true { want.push("ok".into()) }
    } else {
        body = items.get(0).cloned().unwrap_or_default();
        if mode == "text" { body = String::from_utf8_lossy(&body).into_owned().into_bytes() }
        match mode { "drop" => {}, "send" | "send_data" => want.push("-".into()), _ => want.push("ok".to_string()) }
    }
    if got != want { return err(format!("the handler was told {:?}, should be {:?}", got, want)) }
    if r.body != body { return err(format!("the body is {}, should be {}", show(&r.body), show(&body))) }
    if mode == "chunked" {
        if r.framing != Framing::Chunked || r.count("content-length") != 0 { return err("a chunked response should have chunks, and no length".into()) }
    } else {
        if r.framing != Framing::Length || r.count("content-length") != 1 || r.count("transfer-encoding") != 0 { return err("the response should have one Content-Length and no chunks".into()) }
    }
    // what a handler is told doesn't depend on where the response goes
    if c["panic"] != true && (c["length"].is_null() || mode != "raw") {
        let global = rustful::server::Global::default();
        Sender.act(Response::mock(&global));
        let got = told();
        if got != want { return err(format!("with a mock response, the handler was told {:?}, should be {:?}", got, want)) }
    }
    // the connection fails after some bytes
    if let Some(room) = c["room"].as_u64() {
        let room = room as usize % (full.len() + 1);
        told();
        let cut = ask_sender(c, Some(room))?;
        let got = told();
        // Date can differ, and with it nothing else
        if cut.len() > room { return err("more was written than there is room for".into()) }
        let bad = got.iter().filter(|g| g.starts_with("io ")).count();
        if room < full.len() && mode != "send" && mode != "send_data" && mode != "drop" && (!flows || c["end"] == true && !(0..items.len()).any(|i| c["how"][i] == "send")) && bad == 0 {
            return err(format!("the connection failed after {} of {} bytes, but no error was reported: {:?}", room, full.len(), got))
        }
        if flows {
            // what is reported as taken has to be there
            let start = cut.windows(4).position(|w| w == b"\r\n\r\n");
            let mut taken = vec![];
            let mut k = 0;
            for (i, x) in items.iter().enumerate() {
                let g = match got.get(k) { Some(g) => g, None => return err(format!("{} calls told only {:?}", items.len(), got)) };
                k += 1;
                let h = c["how"][i].as_str().unwrap_or("try");
                if h == "flush" || h == "send" { continue }
                if g == "ok" { taken.push(x.clone()) } else if let Ok(n) = g.parse::<usize>() { taken.push(x[..n].to_vec()) }
            }
            let there: &[u8] = match start { Some(s) => &cut[s + 4..], None => &[] };
            let mut at = 0;
            for t in taken { if t.is_empty() { continue } match there[at..].windows(t.len()).position(|w| w == &t[..]) { Some(p) => at += p + t.len(), None => return err(format!("with room for {} bytes, {} was reported as written, but it wasn't: {:?}", room, show(&t), got)) } }
        }
    }
    st.eval(hash(&format!("{}{}{}{:?}", mode, body.len().min(20), want.len(), c["room"].is_null())));
    Ok(())
}
fn gen_p13(g: &mut Gen) {
    // a handler that panics has dropped its response
    for m in &["drop", "chunked", "raw"] { for s in &[json!(null), json!(404)] { for k in 0..3 { if *m == "drop" && k > 0 { continue }
        if !g.each(|| json!({"mode": m, "items": vec!["abc"; k], "how": vec!["try"; k], "end": false, "set": s, "panic": true})) { return }
    } } }
    for m in &["send", "try_send", "text", "drop", "chunked", "raw"] {
        let it = if *m == "drop" { vec![] } else { vec!["abc"] };
        for s in codes() { if !g.each(|| json!({"mode": m, "items": it, "how": ["write_all"], "end": true, "set": s, "filter": s % 2 == 0})) { return } }
        for i in 0..OWN.len() { if !g.each(|| json!({"mode": m, "items": it, "how": ["write_all"], "end": true, "own": [i]})) { return } }
    }
    for w in words(&[("try", "ab"), ("write", ""), ("write_all", "def"), ("send", "g"), ("flush", "")], 3) { for end in &[true, false] {
        let items: Vec<&str> = w.iter().map(|o| o.1).collect();
        let how: Vec<&str> = w.iter().map(|o| o.0).collect();
        if !g.each(|| json!({"mode": "chunked", "items": items, "how": how, "end": end, "filter": true})) { return }
    } }
    for n in g.sizes(300_000) {
        let big = "x".repeat(n);
        for m in &["send", "try_send", "text"] { if !g.each(|| json!({"mode": m, "items": [big]})) { return } }
        for m in &["chunked", "raw"] {
            if !g.each(|| json!({"mode": m, "items": [big, "a", big], "how": ["try", "write_all", "write_all"], "end": true})) { return }
            if n <= 2000 { if !g.each(|| json!({"mode": m, "items": vec!["ab"; n], "how": vec!["try"; n], "end": true})) { return } }
        }
    }
    for mode in &["send", "send_data", "try_send", "try_send_data", "text", "drop"] { for it in &[vec![], vec![""], vec!["a"], vec!["hello \u{ff}\r\n0\r\n\r\n"]] { if (*mode == "drop") != it.is_empty() { continue }
        for s in &[json!(null), json!(404)] { for room in 0..3 { for own in &[json!(null), json!(0), json!(1)] { if !g.each(|| json!({"own_length": own, "mode": mode, "items": it, "set": s, "room": ([json!(null), json!(0), json!(3)][room].clone())})) { return } } } } } }
    let ops: Vec<(&str, &str)> = vec![("try", "ab"), ("try", ""), ("write", "c"), ("write", ""), ("write_all", "def"), ("send", "g"), ("flush", "")];
    for w in words(&ops, 3) { for mode in &["chunked", "raw"] { for end in &[true, false] {
        let items: Vec<&str> = w.iter().map(|o| o.1).collect();
        let how: Vec<&str> = w.iter().map(|o| o.0).collect();
        if !g.each(|| json!({"mode": mode, "items": items, "how": how, "end": end})) { return }
    } } }
    for room in 0..260 { for mode in &["chunked", "raw", "try_send"] { if !g.each(|| json!({"mode": mode, "items": ["abcdef", "", "ghi", "j"], "how": ["try", "flush", "write", "write_all"], "end": true, "room": room})) { return } } }
    g.small_scope_done();
    loop {
        let mode = *g.pick(&["send", "send_data", "try_send", "try_send_data", "text", "drop", "chunked", "chunked", "chunked", "raw", "raw"]);
        let flows = mode == "chunked" || mode == "raw";
        let k = if flows { g.below(7) } else if mode == "drop" { 0 } else { 1 };
        let big = g.chance(1, 10);
        let items: Vec<B> = (0..k).map(|_| if big { let n = g.below(70000); vec![b'x'; n] } else { g.bytes(b"ab\xff\r\n0 ", 12) }).collect();
        let how: Vec<&str> = (0..k).map(|_| *g.pick(&["try", "try", "write", "write_all", "send", "flush"])).collect();
        let end = g.chance(2, 3);
        let total: usize = items.iter().zip(&how).filter(|x| *x.1 != "flush").map(|x| x.0.len()).sum();
        let mut c = json!({"mode": mode, "items": items.iter().map(|i| b2s(i)).collect::<Vec<_>>(), "how": how, "end": end});
        // a handler that promises a length for Raw has to keep it, but what's beyond it isn't sent
        if mode == "raw" { c["length"] = json!(if total > 0 && g.chance(1, 4) { g.below(total + 1) } else { total }) }
        if g.chance(1, 5) { c["own_length"] = json!(g.below(2)) }
        if g.chance(1, 3) { c["set"] = rset(g, &[201, 302, 400, 404, 418, 500, 599]) }
        rown(g, &mut c);
        if g.chance(1, 4) { c["filter"] = json!(true) }
        if g.chance(1, 2) { c["room"] = json!(if g.chance(1, 2) { g.below(300) } else { g.below(1 << 17) }) }
        if !g.emit(c) { return }
    }
}

// ------------------------------------------------------------------ P16
/// content that can be made from a description, and what should be sent for it
trait Made: Sized { fn make(v: &Value, n: &mut usize) -> Self; fn sent(&self, s: u16) -> (u16, B); }
fn word(v: &Value, n: &mut usize) -> u64 { *n += 1; v["w"].as_array().and_then(|a| if a.is_empty() { None } else { a[(*n - 1) % a.len()].as_u64() }).unwrap_or(0) }
impl Made for String { fn make(v: &Value, n: &mut usize) -> Self { let k = word(v, n) as usize; ["", "text", "h\u{e9}llo", "a\r\n\r\nb", "Not Found"][k % 5].to_string() } fn sent(&self, s: u16) -> (u16, B) { (s, self.clone().into_bytes()) } }
impl Made for Vec<u8> { fn make(v: &Value, n: &mut usize) -> Self { let k = word(v, n) as usize; vec![k as u8; k % 7] } fn sent(&self, s: u16) -> (u16, B) { (s, self.clone()) } }
impl Made for &'static str { fn make(v: &Value, n: &mut usize) -> Self { let k = word(v, n) as usize; ["", "x", "\u{df}"][k % 3] } fn sent(&self, s: u16) -> (u16, B) { (s, self.as_bytes().to_vec()) } }
impl Made for io::Error {
    fn make(v: &Value, n: &mut usize) -> Self {
        let k = word(v, n) as usize;
        let kinds = [io::ErrorKind::NotFound, io::ErrorKind::Other, io::ErrorKind::PermissionDenied, io::ErrorKind::InvalidData, io::ErrorKind::UnexpectedEof, io::ErrorKind::BrokenPipe, io::ErrorKind::AddrInUse];
        match k % 3 { 0 => io::Error::new(kinds[k / 3 % 7], "went wrong"), 1 => io::Error::from(kinds[k / 3 % 7]), _ => io::Error::from_raw_os_error([2, 13, 22, 5][k / 3 % 4]) }
    }
    fn sent(&self, s: u16) -> (u16, B) { (if self.kind() == io::ErrorKind::NotFound { 404 } else { s }, self.to_string().into_bytes()) }
}
impl<T: Made> Made for Option<T> { fn make(v: &Value, n: &mut usize) -> Self { if word(v, n) % 3 == 0 { None } else { Some(T::make(v, n)) } } fn sent(&self, s: u16) -> (u16, B) { match self { Some(x) => x.sent(s), None => (404, vec![]) } } }
impl<T: Made, U: Made> Made for Result<T, U> { fn make(v: &Value, n: &mut usize) -> Self { if word(v, n) % 2 == 0 { Ok(T::make(v, n)) } else { Err(U::make(v, n)) } } fn sent(&self, _: u16) -> (u16, B) { match self { Ok(x) => x.sent(200), Err(x) => x.sent(500) } } }
macro_rules! kinds { ($r:expr, $p:expr, $k:expr, $do:ident; $($n:expr => $t:ty),* $(,)?) => { match $k { $($n => $do::<$t>($r, $p),)* _ => $do::<String>($r, $p) } } }
const KINDS: usize = 30;
fn go<'a, 'b, T: Made + SendResponse<'a, 'b>>(r: Response<'a, 'b>, p: &Value) where T::Error: rustful::response::ResponseError {
    let x = T::make(p, &mut 0);
    let (s, b) = x.sent(r.status().to_u16());
    tell(format!("{}", s));
    tell(b2s(&b));
    if p["try"] == true { tell(if r.try_send(x).is_ok() { "ok".into() } else { "error".into() }) } else { r.send(x); tell("ok".into()) }
}
struct Kinds;
impl Handler for Kinds {
    fn handle(&self, _: Context, mut r: Response) {
        let p = plan();
        if let Some(s) = p["set"].as_u64() { r.set_status(StatusCode::from_u16(s as u16)) }
        type E = io::Error;
        type S = String;
        kinds!(r, &p, p["kind"].as_u64().unwrap_or(0) as usize, go;
            0 => S, 1 => Vec<u8>, 2 => &'static str, 3 => E, 4 => Option<S>, 5 => Option<E>, 6 => Result<S, S>, 7 => Result<S, E>, 8 => Result<E, S>, 9 => Result<E, E>,
            10 => Option<Option<S>>, 11 => Option<Result<S, E>>, 12 => Option<Result<Vec<u8>, Option<S>>>, 13 => Result<Option<S>, E>, 14 => Result<S, Option<E>>, 15 => Result<Option<S>, Option<S>>,
            16 => Result<Result<S, E>, S>, 17 => Result<S, Result<S, E>>, 18 => Result<Result<S, S>, Result<S, S>>, 19 => Option<Result<Option<S>, E>>, 20 => Result<Option<Result<S, E>>, E>,
            21 => Result<Result<Option<S>, E>, Option<E>>, 22 => Option<Option<Option<E>>>, 23 => Result<&'static str, Result<Option<Vec<u8>>, Option<E>>>, 24 => Result<Option<Option<S>>, Result<E, S>>,
            25 => Option<Result<Result<S, E>, Result<E, S>>>, 26 => Result<Result<Result<S, E>, E>, E>, 27 => Result<E, Result<E, Result<E, S>>>, 28 => Result<Option<E>, Vec<u8>>, 29 => Option<Result<E, E>>)
    }
}
thread_local! {
    static KIND: ServerInstance<Kinds> = Server::new(Kinds).build();
    static KIND_F: ServerInstance<Kinds> = { let mut s = Server::new(Kinds); s.response_filters = vec![Box::new(Through)]; s.build() };
}
struct Through;
impl ResponseFilter for Through {
    fn begin(&self, _: FilterContext, s: StatusCode, _: &mut Headers) -> (StatusCode, ResponseAction) { (s, ResponseAction::next::<Data>(None)) }
    fn write<'a>(&'a self, _: FilterContext, c: Option<Data<'a>>) -> ResponseAction { ResponseAction::next(c) }
    fn end(&self, _: FilterContext) -> ResponseAction { ResponseAction::next::<Data>(None) }
}
fn check_p16(c: &Value, st: &mut Stats) -> Result<(), String> {
    PLAN.with(|p| *p.borrow_mut() = c.clone());
    told();
    let raw = if c["filter"] == true { KIND_F.with(|i| http::raw_request_to(i, &req(), None))? } else { KIND.with(|i| http::raw_request_to(i, &req(), None))? };
    let t = told();
    if t.len() != 3 { return err(format!("sending ended with {:?}", t)) }
    let r = http::parse_reply(raw)?;
    let body: B = t[1].chars().map(|c| c as u32 as u8).collect();
    if (r.status.to_string(), &r.body) != (t[0].clone(), &body) || !r.rest.is_empty() { return err(format!("kind {}: the answer is {} {}, should be {} {}", c["kind"], r.status, show(&r.body), t[0], show(&body))) }
    if t[2] != "ok" { return err("the sender was told of an error".into()) }
    st.eval(hash(&format!("{}{}{}", c["kind"], t[0], body.len().min(3))));
    Ok(())
}
fn gen_p16(g: &mut Gen) {
    for s in codes() { for k in 0..KINDS { for w in &[[0u64, 0, 0, 0], [1, 1, 1, 1], [2, 1, 2, 1]] { if s % 5 != k as u64 % 5 { continue } if !g.each(|| json!({"kind": k, "w": w, "set": s, "try": s % 2 == 0})) { return } } } }
    for s in codes() { for k in &[0, 3, 4, 5, 7, 9, 10, 22] { if !g.each(|| json!({"kind": k, "w": [0, 1], "set": s})) { return } if !g.each(|| json!({"kind": k, "w": [1, 0], "set": s})) { return } } }
    for k in 0..KINDS { for w in words(&[0u64, 1, 2, 3], 4) { if w.len() < 4 { continue } for s in &[json!(null), json!(202)] { if !g.each(|| json!({"kind": k, "w": w, "set": s})) { return } } } }
    g.small_scope_done();
    loop {
        let k = g.below(KINDS);
        let n = 1 + g.below(6);
        let w: Vec<usize> = (0..n).map(|_| g.below(30)).collect();
        let set = if g.chance(1, 2) { rset(g, &[200, 201, 302, 400, 404, 410, 500, 503]) } else { json!(null) };
        let (t, f) = (g.chance(1, 2), g.chance(1, 4));
        if !g.emit(json!({"kind": k, "w": w, "set": set, "try": t, "filter": f})) { return }
    }
}

// ------------------------------------------------------------------ P24
struct Scratch(PathBuf);
impl Drop for Scratch { fn drop(&mut self) { let _ = std::fs::remove_dir_all(&self.0); } }
thread_local! { static DIR: Scratch = {
    let d = std::env::temp_dir().join(format!("falsify-files-{}-{:?}", std::process::id(), std::thread::current().id()).replace(|c: char| c == '(' || c == ')', "_"));
    let _ = std::fs::create_dir_all(&d);
    Scratch(d)
}; }
fn content(n: usize) -> B { (0..n).map(|i| (i * 7 + i / 256) as u8).collect() }
fn mapping(s: &str) -> Option<rustful::mime::Mime> { tell(format!("asked {}", s)); if s == "zz" { "x-test/zz".parse().ok() } else { None } }
struct Files;
impl Handler for Files {
    fn handle(&self, _: Context, mut r: Response) {
        let p = plan();
        let path = DIR.with(|d| d.0.join(name(&p)));
        if let Some(s) = p["set"].as_u64() { r.set_status(StatusCode::from_u16(s as u16)) }
        for (n, v) in own_headers(&p) { r.headers_mut().set_raw(n, vec![v.into_bytes()]) }
        if p["length"] == true { r.headers_mut().set(ContentLength(3)) }
        fn back(e: FileError) {
            match e {
                FileError::Open(_, r) => {
                    tell(format!("back {} {}", r.status().to_u16(), r.headers().len()));
                    r.send("fallback");
                }
                FileError::Send(_) => tell("send error".into()),
            }
        }
        tell(format!("before {} {}", r.status().to_u16(), r.headers().len()));
        if let Some(t) = r.headers().get_raw("content-type") { tell(format!("type {}", String::from_utf8_lossy(&t[0]))) }
        match p["how"].as_str().unwrap_or("") {
            "send" => r.send(&path as &Path),
            "buf" => r.send(path),
            "try" => if let Err(e) = r.try_send(&path as &Path) { back(e) },
            "some" => r.send(Some(&path as &Path)),
            "mime" => if let Err(e) = r.send_file_with_mime(&path, mapping) { back(e) },
            "mime-handle" => { use rustful::response::ResponseError; if let Err(e) = r.send_file_with_mime(&path, mapping) { e.handle() } }
            "not-found" => if let Err(e) = r.try_send(&path as &Path) { if let Err(e) = e.send_not_found("nothing") { back(e) } },
            "ignore" => if let Err(e) = r.try_send(&path as &Path) { if let Err((_, r)) = e.ignore_send_error() { r.send("ignored") } },
            "recover" => if let Err(e) = r.try_send(&path as &Path) { match e.recover_response() { Ok(r) => r.send("recovered"), Err(_) => tell("send error".into()) } },
            "file" => match std::fs::File::open(&path) { Ok(f) => if let Err(e) = r.try_send(f) { back(e) }, Err(_) => { r.set_status(StatusCode::ImATeapot); r.send("closed") } },
            _ => {}
        }
    }
}
fn name(p: &Value) -> PathBuf { use std::os::unix::ffi::OsStringExt; PathBuf::from(std::ffi::OsString::from_vec(s2b(&p["name"]))) }
thread_local! { static FILES: ServerInstance<Files> = Server::new(Files).build(); static FILES_F: ServerInstance<Files> = { let mut s = Server::new(Files); s.response_filters = vec![Box::new(Through)]; s.build() }; }
fn check_p24(c: &Value, st: &mut Stats) -> Result<(), String> {
    PLAN.with(|p| *p.borrow_mut() = c.clone());
    told();
    let nm = name(c);
    let n = c["size"].as_u64().unwrap_or(0) as usize;
    let path = DIR.with(|d| d.0.join(&nm));
    let kind = c["is"].as_str().unwrap_or("file");
    // whether the system opens it
    let made = match kind {
        "file" => std::fs::write(&path, content(n)).is_ok(),
        "dir" => { let _ = std::fs::create_dir(&path); false }
        // a link to a file, to nothing, to a directory, or a file in a linked directory
        "link" | "lost" | "linked-dir" | "in-link" => {
            let aim = path.parent().unwrap().join(format!("aim-of-links.{}", if n % 2 == 0 { "css" } else { "d" }));
            let _ = std::fs::remove_file(&aim); let _ = std::fs::remove_dir_all(&aim);
            match kind {
                "link" => std::fs::write(&aim, content(n)).is_ok() && std::os::unix::fs::symlink(&aim, &path).is_ok(),
                "lost" => { let _ = std::os::unix::fs::symlink(&aim, &path); false }
                "linked-dir" => { let _ = std::fs::create_dir(&aim); let _ = std::os::unix::fs::symlink(&aim, &path); false }
                _ => { let d = path.parent().unwrap(); let aim = DIR.with(|d| d.0.join("aim-of-links")); let _ = std::fs::remove_dir_all(&aim); std::fs::create_dir(&aim).is_ok() && std::os::unix::fs::symlink(&aim, d).is_ok() && std::fs::write(&path, content(n)).is_ok() }
            }
        }
        "below" => { let _ = std::fs::write(path.parent().unwrap(), b"x"); false }
        _ => false,
    };
    let a_dir = kind == "dir" || kind == "linked-dir";
    let kind_of = if a_dir { None } else { std::fs::File::open(&path).err().map(|e| e.kind()) };
    let tidy = || match kind {
        "file" => { let _ = std::fs::remove_file(&path); }
        "dir" => { let _ = std::fs::remove_dir(&path); }
        "below" => { let _ = std::fs::remove_file(path.parent().unwrap()); }
        "in-link" => { let _ = std::fs::remove_file(&path); let _ = std::fs::remove_file(path.parent().unwrap()); DIR.with(|d| { let _ = std::fs::remove_dir_all(d.0.join("aim-of-links")); }) }
        "link" | "lost" | "linked-dir" => { let _ = std::fs::remove_file(&path); for e in &["css", "d"] { let aim = path.parent().unwrap().join(format!("aim-of-links.{}", e)); let _ = std::fs::remove_file(&aim); let _ = std::fs::remove_dir(&aim); } }
        _ => {}
    };
    if matches!(kind, "file" | "link" | "in-link") && !made { tidy(); st.eval(1); return Ok(()) }
    let raw = if c["filter"] == true { FILES_F.with(|i| http::raw_request_to(i, &req(), None)) } else { FILES.with(|i| http::raw_request_to(i, &req(), None)) };
    tidy();
    let t = told();
    let r = http::parse_reply(raw?).map_err(|e| format!("{} ({:?}, {} bytes): {}", kind, nm, n, e))?;
    if !r.rest.is_empty() { return err(format!("bytes after the response: {}", show(&r.rest))) }
    let how = c["how"].as_str().unwrap_or("");
    let set = c["set"].as_u64().unwrap_or(200) as u16;
    kept(c, &r)?;
    let ext = nm.extension().map(|e| e.to_string_lossy().into_owned());
    let mapped = how == "mime" || how == "mime-handle";
    if made {
        if r.status != set { return err(format!("the file is sent with {}, should be {}", r.status, set)) }
        if r.body != content(n) { return err(format!("the file has {} bytes, but {} was sent", n, show(&r.body))) }
        if r.framing != Framing::Length || r.count("content-length") != 1 { return err("the file isn't sent with one Content-Length".into()) }
        if how != "file" {
            let want = if mapped { if ext.as_ref().map_or(false, |e| e == "zz") { "x-test/zz".to_string() } else { "application/octet-stream".into() } }
                else { ext.as_ref().and_then(|e| ext_to_mime(e)).map(|m| m.to_string()).unwrap_or_else(|| "application/octet-stream".into()) };
            if r.header("content-type") != Some(&want[..]) { return err(format!("{:?} is sent as {:?}, should be {}", nm, r.header("content-type"), want)) }
        }
        if t.len() > 2 + (mapped as usize) { return err(format!("the file was sent, but the handler was told {:?}", t)) }
    } else {
        let gone = kind_of == Some(io::ErrorKind::NotFound);
        let closed = !a_dir;
        let (s, b): (u16, &str) = match how {
            "send" | "buf" | "some" | "mime-handle" => (if gone { 404 } else { 500 }, ""),
            "not-found" if gone => (404, "nothing"),
            "ignore" => (set, "ignored"),
            "recover" => (set, "recovered"),
            "file" if closed => (418, "closed"),
            _ => (set, "fallback"),
        };
        if (r.status, &r.body[..]) != (s, b.as_bytes()) { return err(format!("{} {:?} ({:?}) can't be opened, but the answer is {} {}, should be {} {:?}", kind, nm, kind_of, r.status, show(&r.body), s, b)) }
        // the server's default, not the type of the file
        let own = t.iter().find(|x| x.starts_with("type ")).map(|x| &x[5..]);
        if r.header("content-type") != own { return err(format!("what can't be sent has the type {:?}, should be {:?}", r.header("content-type"), own)) }
        let before = t.iter().find(|x| x.starts_with("before ")).map(|x| x[7..].to_string());
        let back = t.iter().find(|x| x.starts_with("back ")).map(|x| x[5..].to_string());
        if back.is_some() && back != before { return err(format!("the response was handed over with (status, headers) {:?} and came back with {:?}", before, back)) }
    }
    st.eval(hash(&format!("{}{}{}{:?}", kind, how, n.min(2), ext)));
    Ok(())
}
const HOWS: &[&str] = &["send", "buf", "try", "some", "mime", "mime-handle", "not-found", "ignore", "recover", "file"];
fn gen_p24(g: &mut Gen) {
    let names = ["a.txt", "noext", "b.html", "c.tar.gz", "d.zz", ".hidden", "e.", "f.JPG", "g.unknown-ext", "h.\u{ff}x", "i.zz.txt", "j k.png", "k.js", "zz"];
    for s in codes() { if !g.each(|| json!({"name": "a.txt", "how": HOWS[s as usize % HOWS.len()], "is": "file", "size": 3, "set": s})) { return } if !g.each(|| json!({"name": "a.txt", "how": HOWS[(s / 10) as usize % HOWS.len()], "is": "none", "set": s})) { return } }
    for how in HOWS { for nm in &names { for is in &["file", "dir", "none"] { for n in &[0u64, 1, 5000] { if *is != "file" && *n != 1 { continue }
        if !g.each(|| json!({"name": nm, "how": how, "is": is, "size": n})) { return } } } }
        for nm in &["a.txt", "noext", "d.zz", "k.js", ".hidden"] { for is in &["link", "lost", "linked-dir"] { for n in &[0, 1, 5000] { if !g.each(|| json!({"name": nm, "how": how, "is": is, "size": n})) { return } } } }
        for (nm, is) in &[("ln/y.txt", "in-link"), ("ln.d/y.zz", "in-link"), ("ln.html/noext", "in-link"), ("x.txt/y.txt", "below"), ("no/such/dir.txt", "none"), ("nul\u{0}.txt", "none")] { if !g.each(|| json!({"name": nm, "how": how, "is": is})) { return } }
        if !g.each(|| json!({"name": "n".repeat(300), "how": how, "is": "none"})) { return }
    }
    g.small_scope_done();
    loop {
        let stem = b2s(&g.bytes(b"ab. \xff-", 6));
        let ext = *g.pick(&["txt", "html", "zz", "css", "mp4", "gz", "png", "weird", "", "Html", "json", "zz.zz", "xml", "svg"]);
        let nm = format!("q{}.{}", stem, ext);
        let is = *g.pick(&["file", "file", "file", "dir", "none", "below", "link", "lost", "linked-dir", "in-link"]);
        let nm = if is == "below" || is == "in-link" { format!("{}/{}", nm, nm) } else { nm };
        let n = match g.below(4) { 0 => g.below(4), 1 => g.below(300), 2 => *g.pick(&[8191usize, 8192, 8193, 16384, 65536, 65537]), _ => g.below(100000) };
        let how = *g.pick(HOWS);
        let set = if g.chance(1, 3) { rset(g, &[201, 400, 404, 500]) } else { json!(null) };
        let (f, l) = (g.chance(1, 4), g.chance(1, 8) && (is == "file" || is == "link"));
        let mut c = json!({"name": nm, "how": how, "is": is, "size": n, "set": set, "filter": f, "length": l});
        if g.chance(1, 6) { c["own"] = json!([3 + g.below(OWN.len() - 3)]) }
        if !g.emit(c) { return }
    }
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "P12", gen: gen_p12, check: check_p12, rule: "responses sent in one piece or in chunks through scripted filters; distinct by what happened and how much was sent" },
        Prop { id: "P13", gen: gen_p13, check: check_p13, rule: "sequences of operations on responses, also on connections that fail after some bytes; distinct by kind, size and length" },
        Prop { id: "P16", gen: gen_p16, check: check_p16, rule: "nested results, options and errors sent; distinct by type, status and size of the body" },
        Prop { id: "P24", gen: gen_p24, check: check_p24, rule: "files, directories and missing paths sent in every way there is; distinct by kind, way, size and extension" },
    ]
}
#[allow(dead_code)] fn _u() { LOST.with(|_| ()) }
