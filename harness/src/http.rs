//! Drives a real `ServerInstance` in-process: raw request bytes in, raw response bytes out.
use std::any::Any;
use std::io::{self, Cursor, Read, Write};
use std::net::SocketAddr;
use std::time::Duration;

use hyper::buffer::BufReader;
use hyper::header::Headers;
use hyper::net::NetworkStream;
use hyper::server::{Handler as HyperHandler, Request, Response};
use rustful::server::ServerInstance;
use rustful::handler::HandleRequest;

pub struct Mock { input: Cursor<Vec<u8>> }
impl Read for Mock { fn read(&mut self, b: &mut [u8]) -> io::Result<usize> { self.input.read(b) } }
impl Write for Mock { fn write(&mut self, b: &[u8]) -> io::Result<usize> { Ok(b.len()) } fn flush(&mut self) -> io::Result<()> { Ok(()) } }
impl NetworkStream for Mock {
    fn peer_addr(&mut self) -> io::Result<SocketAddr> { Ok("127.0.0.1:1".parse().unwrap()) }
    fn set_read_timeout(&self, _: Option<Duration>) -> io::Result<()> { Ok(()) }
    fn set_write_timeout(&self, _: Option<Duration>) -> io::Result<()> { Ok(()) }
}

/// What a handler panics with on purpose.
pub struct Planned;

/// Where the response bytes go; fails after `room` bytes if that is given.
pub struct Sink { pub out: Vec<u8>, pub room: Option<usize>, pub flushes: usize }
impl Write for Sink {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        if let Some(r) = self.room {
            let left = r.saturating_sub(self.out.len());
            if left == 0 && !b.is_empty() { return Err(io::Error::new(io::ErrorKind::BrokenPipe, "sink full")) }
            let n = left.min(b.len());
            self.out.extend_from_slice(&b[..n]);
            return Ok(n);
        }
        self.out.extend_from_slice(b);
        Ok(b.len())
    }
    fn flush(&mut self) -> io::Result<()> { self.flushes += 1; Ok(()) }
}

pub struct Reply { pub raw: Vec<u8>, pub status: u16, pub headers: Vec<(String, String)>, pub body: Vec<u8>, pub framing: Framing, pub rest: Vec<u8> }
#[derive(PartialEq, Debug, Clone, Copy)]
pub enum Framing { Length, Chunked, None }

pub fn raw_request<R: HandleRequest>(inst: &ServerInstance<R>, raw: &[u8]) -> Result<Vec<u8>, String> { raw_request_to(inst, raw, None) }

pub fn raw_request_to<R: HandleRequest>(inst: &ServerInstance<R>, raw: &[u8], room: Option<usize>) -> Result<Vec<u8>, String> {
    let mut mock = Mock { input: Cursor::new(raw.to_vec()) };
    let mut rdr = BufReader::new(&mut mock as &mut dyn NetworkStream);
    let mut sink = Sink { out: vec![], room, flushes: 0 };
    let mut headers = Headers::new();
    {
        let req = Request::new(&mut rdr, "127.0.0.1:4242".parse().unwrap()).map_err(|e| format!("request not parsed by hyper: {}", e))?;
        let res = Response::new(&mut sink, &mut headers);
        // a handler may panic on purpose; whatever it had is dropped then
        if let Err(e) = std::panic::catch_unwind(std::panic::AssertUnwindSafe(move || inst.handle(req, res))) { if !e.is::<Planned>() { std::panic::resume_unwind(e) } }
    }
    Ok(sink.out)
}

pub fn parse_reply(raw: Vec<u8>) -> Result<Reply, String> {
    let pos = raw.windows(4).position(|w| w == b"\r\n\r\n").ok_or_else(|| format!("no response head in {:?}", String::from_utf8_lossy(&raw)))?;
    let head = String::from_utf8_lossy(&raw[..pos]).into_owned();
    let mut lines = head.split("\r\n");
    let status: u16 = lines.next().unwrap_or("").split(' ').nth(1).and_then(|s| s.parse().ok()).ok_or("bad status line")?;
    let headers: Vec<(String, String)> = lines.filter_map(|l| l.find(':').map(|i| (l[..i].to_lowercase(), l[i + 1..].trim().to_string()))).collect();
    let tail = &raw[pos + 4..];
    let get = |n: &str| headers.iter().find(|h| h.0 == n).map(|h| h.1.clone());
    let (body, framing, rest) = if get("transfer-encoding").map_or(false, |v| v.to_lowercase().contains("chunked")) {
        let mut body = vec![];
        let mut i = 0;
        loop {
            let e = tail[i..].windows(2).position(|w| w == b"\r\n").ok_or("truncated chunked body")?;
            let n = usize::from_str_radix(std::str::from_utf8(&tail[i..i + e]).map_err(|_| "bad chunk size")?.trim(), 16).map_err(|_| "bad chunk size".to_string())?;
            i += e + 2;
            if tail.len() < i + n + 2 { return Err("truncated chunk".into()) }
            body.extend_from_slice(&tail[i..i + n]);
            if &tail[i + n..i + n + 2] != b"\r\n" { return Err("bad chunk end".into()) }
            i += n + 2;
            if n == 0 { break }
        }
        (body, Framing::Chunked, tail[i..].to_vec())
    } else if let Some(l) = get("content-length") {
        let n: usize = l.parse().map_err(|_| "bad content-length".to_string())?;
        if tail.len() < n { return Err(format!("body shorter ({}) than content-length {}", tail.len(), n)) }
        (tail[..n].to_vec(), Framing::Length, tail[n..].to_vec())
    } else { (tail.to_vec(), Framing::None, vec![]) };
    Ok(Reply { status, headers, body, framing, rest, raw })
}
impl Reply {
    pub fn header(&self, n: &str) -> Option<&str> { self.headers.iter().find(|h| h.0 == n).map(|h| &h.1[..]) }
    pub fn count(&self, n: &str) -> usize { self.headers.iter().filter(|h| h.0 == n).count() }
}

pub fn encode_path(segs: &[Vec<u8>]) -> String {
    let mut s = String::new();
    for g in segs {
        s.push('/');
        for &b in g { if b.is_ascii_alphanumeric() { s.push(b as char) } else { s.push_str(&format!("%{:02X}", b)) } }
    }
    if s.is_empty() { s.push('/') }
    s
}
thread_local! { static ASK: std::cell::RefCell<(bool, serde_json::Value)> = std::cell::RefCell::new((false, serde_json::Value::Null)); }
/// Other ways to ask for the same thing, by method, version, headers and body. Routing depends on none of these but the method.
pub const ASKS: &[(&str, &str, &str, &str)] = &[
    ("GET", "1.1", "Host: localhost", ""), ("GET", "1.0", "", ""), ("GET", "1.0", "Host: localhost\r\nConnection: keep-alive", ""), ("GET", "1.1", "", ""), ("OPTIONS", "1.1", "Host: localhost", ""), ("TRACE", "1.1", "Host: localhost", ""), ("FOO", "1.1", "Host: localhost", ""), ("get", "1.1", "Host: localhost", ""),
    ("POST", "1.1", "Host: localhost\r\nContent-Length: 3", "abc"), ("PUT", "1.1", "Host: localhost\r\nTransfer-Encoding: chunked", "3\r\nabc\r\n0\r\n\r\n"), ("DELETE", "1.0", "Host: localhost", ""), ("PATCH", "1.1", "Host: localhost\r\nContent-Type: application/x-www-form-urlencoded\r\nContent-Length: 3", "a=b"),
    ("GET", "1.1", "Host: localhost\r\nConnection: close", ""), ("GET", "1.1", "Host: localhost\r\nConnection: keep-alive", ""), ("GET", "1.1", "Host: localhost\r\nConnection: Upgrade\r\nUpgrade: h2c", ""), ("GET", "1.1", "Host: localhost\r\nRange: bytes=0-1", ""), ("GET", "1.1", "Host: localhost\r\nIf-None-Match: *", ""), ("GET", "1.1", "Host: localhost\r\nIf-Modified-Since: Fri, 01 Jan 2100 00:00:00 GMT", ""),
    ("GET", "1.1", "Host: localhost\r\nIf-Match: \"x\"", ""), ("GET", "1.1", "Host: localhost\r\nIf-Unmodified-Since: Thu, 01 Jan 1970 00:00:00 GMT", ""), ("GET", "1.1", "Host: localhost\r\nAccept-Encoding: gzip, identity;q=0", ""), ("GET", "1.1", "Host: localhost\r\nAccept: text/plain;q=0.1\r\nAccept-Language: sv\r\nAccept-Charset: latin1", ""), ("POST", "1.1", "Host: localhost\r\nExpect: 100-continue\r\nContent-Length: 1", "x"), ("GET", "1.1", "Host: localhost\r\nTE: trailers, chunked", ""),
    ("GET", "1.1", "Host: localhost\r\nOrigin: http://elsewhere\r\nAccess-Control-Request-Method: PUT", ""), ("GET", "1.1", "Host: localhost\r\nUser-Agent: curl/7\r\nReferer: /\r\nCookie: a=b; c=d", ""), ("GET", "1.1", "Host: localhost\r\nX-HTTP-Method-Override: DELETE\r\nX-Original-URL: /b", ""), ("GET", "1.1", "Host: localhost\r\nX-Forwarded-For: 1.2.3.4\r\nX-Forwarded-Host: h\r\nX-Forwarded-Proto: https", ""), ("GET", "1.1", "Host: localhost\r\nAuthorization: Basic YTpi\r\nPragma: no-cache\r\nCache-Control: only-if-cached", ""), ("GET", "1.1", "Host: a\r\nHost: b", ""),
    ("GET", "1.1", "Host: localhost\r\nX-Requested-With: XMLHttpRequest\r\nDNT: 1\r\nPrefer: safe\r\nFrom: a@b\r\nMax-Forwards: 0\r\nDate: Thu, 01 Jan 1970 00:00:00 GMT", ""), ("GET", "1.1", "host:localhost\r\nX-Bytes: \u{e5}", ""),
];
/// How the requests of a case are made; `free` if the method doesn't matter either.
pub fn ask(case: &serde_json::Value, free: bool) { ASK.with(|a| *a.borrow_mut() = (free, case["ask"].clone())) }
pub fn request(method: &str, target: &str) -> Vec<u8> {
    ASK.with(|a| {
        let a = a.borrow();
        let (m, v, h, b) = match a.1.as_str() { Some(h) => ("GET", "1.1", h, ""), None => ASKS[a.1.as_u64().unwrap_or(0) as usize % ASKS.len()] };
        format!("{} {} HTTP/{}\r\n{}{}\r\n{}", if a.0 && method == "GET" { m } else { method }, target, v, h, if h.is_empty() { "" } else { "\r\n" }, b).into_bytes()
    })
}
pub fn get<R: HandleRequest>(inst: &ServerInstance<R>, method: &str, target: &str) -> Result<Reply, String> { parse_reply(raw_request(inst, &request(method, target))?) }
pub fn _any(_: &dyn Any) {}
pub fn get_any<T: 'static, R>(k: &'static std::thread::LocalKey<T>, f: impl FnOnce(&T) -> R) -> R { k.with(|i| f(i)) }
