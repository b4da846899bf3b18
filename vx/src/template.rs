use crate::R;
use std::fs;

#[derive(Default, Clone, Debug)]
pub struct FnDir {
    pub file: String, pub selfty: String, pub traitn: String, pub name: String,
    pub sig: String,
    pub attrs: Vec<String>,
    pub spec: String,
    pub hints: Vec<(String, String)>,     // (position, text)
    pub toks: Vec<(String, String)>,      // token replacements
    pub methods: Vec<(String, String)>,   // method renames
    pub result: Vec<String>,              // methods to treat as Result combinators
    pub opts: Vec<String>,
    pub params: Vec<String>,
    pub body_only: bool,
}

#[derive(Default, Clone, Debug)]
pub struct ItemDir { pub file: String, pub name: String, pub toks: Vec<(String, String)>, pub attrs: Vec<String>, pub opts: Vec<String>, pub expect: String }

pub enum Seg { Text(String), Fn(FnDir), Item(ItemDir) }

pub struct Template { pub segs: Vec<Seg> }

impl Template {
    pub fn all_text(&self) -> String {
        let mut s = String::new();
        for g in &self.segs {
            match g {
                Seg::Text(t) => { s.push_str(t); s.push('\n') }
                Seg::Fn(f) => { s.push_str(&f.sig); s.push('\n'); s.push_str(&f.opts.iter().filter(|o| o.starts_with("helper ")).map(|o| format!("fn {} ", &o[7..])).collect::<String>()); }
                Seg::Item(_) => {}
            }
        }
        s
    }
}

fn arrow(s: &str) -> R<(String, String)> {
    let (a, b) = s.split_once("==>>").or_else(|| s.split_once("=>")).ok_or_else(|| format!("template: bad replacement {}", s))?;
    Ok((a.trim().to_string(), b.trim().to_string()))
}

fn read(path: &str) -> R<String> {
    let s = fs::read_to_string(path).map_err(|e| format!("template {}: {}", path, e))?;
    let dir = std::path::Path::new(path).parent().unwrap();
    let mut out = String::new();
    for l in s.lines() {
        if let Some(p) = l.trim().strip_prefix("//@include ") {
            out.push_str(&read(dir.join(p.trim()).to_str().unwrap())?);
        } else { out.push_str(l); out.push('\n') }
    }
    Ok(out)
}

pub fn load(path: &str) -> R<Template> {
    let s = read(path)?;
    let mut segs = vec![];
    let mut text = String::new();
    // template-wide replacements
    let mut gtoks: Vec<(String, String)> = vec![];
    let mut gmeths: Vec<(String, String)> = vec![];
    let mut lines = s.lines().peekable();
    while let Some(l) = lines.next() {
        let t = l.trim();
        if let Some(r) = t.strip_prefix("//@gtok ") { gtoks.push(arrow(r)?); continue }
        if let Some(r) = t.strip_prefix("//@gmethod ") { gmeths.push(arrow(r)?); continue }
        if let Some(r) = t.strip_prefix("//@fn ") {
            segs.push(Seg::Text(std::mem::take(&mut text)));
            let p: Vec<&str> = r.split_whitespace().collect();
            if p.len() != 4 { return Err(format!("template: bad fn selector {}", r)) }
            let mut fd = FnDir { file: p[0].into(), selfty: p[1].into(), traitn: p[2].into(), name: p[3].into(), toks: gtoks.clone(), methods: gmeths.clone(), ..Default::default() };
            let mut cur: Option<String> = None; // "spec" or hint position
            let mut buf = String::new();
            macro_rules! flush { () => { if let Some(c) = cur.take() { let b = std::mem::take(&mut buf); if c == "spec" { fd.spec = b } else { fd.hints.push((c, b)) } } } }
            loop {
                let l = lines.next().ok_or("template: missing //@end")?;
                let t = l.trim();
                if let Some(d) = t.strip_prefix("//@") {
                    let (kw, rest) = d.split_once(' ').unwrap_or((d, ""));
                    match kw {
                        "end" => { flush!(); break }
                        "sig" => { flush!(); fd.sig = rest.to_string() }
                        "sig+" => { fd.sig.push('\n'); fd.sig.push_str(rest) }
                        "attr" => { flush!(); fd.attrs.push(rest.to_string()) }
                        "spec" => { flush!(); cur = Some("spec".into()) }
                        "at" => { flush!(); cur = Some(rest.trim().to_string()) }
                        "tok" => { flush!(); fd.toks.insert(0, arrow(rest)?) }
                        "method" => { flush!(); fd.methods.insert(0, arrow(rest)?) }
                        "result" => { flush!(); fd.result.extend(rest.split_whitespace().map(String::from)) }
                        "opt" => { flush!(); fd.opts.push(rest.trim().to_string()) }
                        "params" => { flush!(); fd.params = rest.split_whitespace().map(String::from).collect() }
                        _ => return Err(format!("template: unknown directive {}", t)),
                    }
                } else { buf.push_str(l); buf.push('\n') }
            }
            segs.push(Seg::Fn(fd));
        } else if let Some(r) = t.strip_prefix("//@item ") {
            segs.push(Seg::Text(std::mem::take(&mut text)));
            let p: Vec<&str> = r.split_whitespace().collect();
            let mut it = ItemDir { file: p[0].into(), name: p[1].into(), toks: gtoks.clone(), ..Default::default() };
            loop {
                let l = lines.next().ok_or("template: missing //@end")?;
                let t = l.trim();
                if let Some(d) = t.strip_prefix("//@") {
                    let (kw, rest) = d.split_once(' ').unwrap_or((d, ""));
                    match kw {
                        "end" => break,
                        "tok" => it.toks.insert(0, arrow(rest)?),
                        "attr" => it.attrs.push(rest.to_string()),
                        "opt" => it.opts.push(rest.to_string()),
                        "expect" => it.expect = rest.to_string(),
                        _ => return Err(format!("template: unknown directive {}", t)),
                    }
                }
            }
            segs.push(Seg::Item(it));
        } else { text.push_str(l); text.push('\n') }
    }
    segs.push(Seg::Text(text));
    Ok(Template { segs })
}
