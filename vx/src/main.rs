//! vx: mechanical extraction of functions from /repo into Verus units.
//!
//! usage: vx gen <repo> <template.vrs> <out.rs> [--baseline b.json] [--record b.json] [--vacuity entry|loop]
//!        vx literals <repo>
mod desugar;
mod inline;
mod print;
mod template;

use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::fs;
use std::process::exit;

use serde_json::{json, Value};
use syn::visit::Visit;

pub type R<T> = Result<T, String>;

fn walk(dir: &str, out: &mut Vec<String>) {
    let mut es: Vec<_> = match fs::read_dir(dir) { Ok(r) => r.filter_map(|e| e.ok()).collect(), Err(_) => return };
    es.sort_by_key(|e| e.path());
    for e in es {
        let p = e.path();
        if p.is_dir() { walk(p.to_str().unwrap(), out) }
        else if p.extension().map_or(false, |x| x == "rs") { out.push(p.to_str().unwrap().to_string()) }
    }
}

pub fn preprocess(src: &str) -> String {
    // `try!` is a keyword macro in newer editions; `syn` only reads it under another name.
    src.replace("try!(", "vx_try!(").replace("try!{", "vx_try!{").replace("try! {", "vx_try! {")
}

pub struct Repo { pub root: String, pub files: HashMap<String, syn::File> }

impl Repo {
    fn file(&mut self, rel: &str) -> R<&syn::File> {
        if !self.files.contains_key(rel) {
            let p = format!("{}/{}", self.root, rel);
            let s = fs::read_to_string(&p).map_err(|e| format!("lost file {}: {}", rel, e))?;
            let mut f = syn::parse_file(&preprocess(&s)).map_err(|e| format!("cannot parse {}: {}", rel, e))?;
            expand_macros(&mut f);
            self.files.insert(rel.to_string(), f);
        }
        Ok(&self.files[rel])
    }
}

/// Items generated by a file's own `macro_rules!` are expanded by rustc and added.
fn expand_macros(f: &mut syn::File) {
    let defs: Vec<String> = f.items.iter().filter_map(|i| match i { syn::Item::Macro(m) if m.mac.path.is_ident("macro_rules") && !is_test(&m.attrs) => m.ident.as_ref().map(|x| x.to_string()), _ => None }).collect();
    let mut src = proc_macro2::TokenStream::new();
    let mut uses = false;
    for i in &f.items {
        if let syn::Item::Macro(m) = i {
            if is_test(&m.attrs) { continue }
            let call = m.mac.path.get_ident().map_or(false, |n| defs.contains(&n.to_string()));
            if m.mac.path.is_ident("macro_rules") || call { src.extend(quote::quote!(#m)); uses |= call }
        }
    }
    if !uses { return }
    let dir = std::env::temp_dir().join(format!("vx-{}", std::process::id()));
    if fs::create_dir_all(&dir).is_err() { return }
    let p = dir.join("m.rs");
    // `$x` must stay one token pair in print
    let _ = fs::write(&p, src.to_string());
    let out = std::process::Command::new("rustc").env("RUSTC_BOOTSTRAP", "1").args(&["-Zunpretty=expanded", "--crate-type", "lib", "--edition", "2015"]).arg(&p).output();
    let _ = fs::remove_file(&p);
    let _ = fs::remove_dir(&dir);
    if let Ok(o) = out {
        if let Ok(g) = syn::parse_file(&preprocess(&String::from_utf8_lossy(&o.stdout))) {
            f.items.extend(g.items.into_iter().filter(|i| matches!(i, syn::Item::Impl(_) | syn::Item::Fn(_))));
        }
    }
}

pub fn norm<T: quote::ToTokens>(t: &T) -> String {
    print::flat(quote::quote!(#t))
}

fn is_test(attrs: &[syn::Attribute]) -> bool {
    attrs.iter().any(|a| {
        let s = norm(a);
        s.contains("cfg(test)") || s.contains("#[test]") || s.contains("not(feature=\"multipart\")") || s.contains("not (feature")
    })
}

#[derive(Clone)]
pub struct FnItem { pub attrs: Vec<syn::Attribute>, pub sig: syn::Signature, pub block: syn::Block, pub line: usize }

fn last_seg(t: &str) -> String {
    // drop generic args, keep the last path segment
    let base = t.split('<').next().unwrap();
    base.rsplit("::").next().unwrap().to_string()
}

fn ty_matches(sel: &str, ty: &str) -> bool {
    sel == ty || sel == last_seg(ty) || sel == ty.chars().filter(|c| !c.is_whitespace()).collect::<String>()
}

fn collect_fns(items: &[syn::Item], selfsel: &str, traitsel: &str, name: &str, out: &mut Vec<FnItem>) {
    for it in items {
        match it {
            syn::Item::Fn(f) if selfsel == "-" && traitsel == "-" => {
                if is_test(&f.attrs) { continue }
                if f.sig.ident == name {
                    out.push(FnItem { attrs: f.attrs.clone(), sig: f.sig.clone(), block: (*f.block).clone(), line: f.sig.ident.span().start().line });
                }
            }
            syn::Item::Impl(im) => {
                if is_test(&im.attrs) { continue }
                let st = norm(&im.self_ty);
                let tr = im.trait_.as_ref().map(|(_, p, _)| norm(p));
                let ok = selfsel != "-" && ty_matches(selfsel, &st) && match &tr {
                    None => traitsel == "-",
                    Some(t) => traitsel != "-" && ty_matches(traitsel, t),
                };
                if !ok { continue }
                for ii in &im.items {
                    if let syn::ImplItem::Fn(f) = ii {
                        if is_test(&f.attrs) { continue }
                        if f.sig.ident == name {
                            out.push(FnItem { attrs: f.attrs.clone(), sig: f.sig.clone(), block: f.block.clone(), line: f.sig.ident.span().start().line });
                        }
                    }
                }
            }
            syn::Item::Trait(t) if traitsel != "-" && selfsel == "trait" && t.ident == traitsel => {
                for ti in &t.items {
                    if let syn::TraitItem::Fn(f) = ti {
                        if f.sig.ident == name {
                            if let Some(b) = &f.default {
                                out.push(FnItem { attrs: f.attrs.clone(), sig: f.sig.clone(), block: b.clone(), line: f.sig.ident.span().start().line });
                            }
                        }
                    }
                }
            }
            syn::Item::Mod(m) => {
                if is_test(&m.attrs) { continue }
                if let Some((_, its)) = &m.content { collect_fns(its, selfsel, traitsel, name, out) }
            }
            _ => {}
        }
    }
}

struct FnNames { names: BTreeSet<String>, table: inline::Table }
impl FnNames { fn add(&mut self, n: String, owner: Option<String>, item: FnItem) { self.names.insert(n.clone()); self.table.entry(n).or_default().push(inline::Known { owner, item }) } }
impl<'a> Visit<'a> for FnNames {
    fn visit_item_fn(&mut self, f: &'a syn::ItemFn) { if !is_test(&f.attrs) { self.add(f.sig.ident.to_string(), Some("-".into()), FnItem { attrs: vec![], sig: f.sig.clone(), block: (*f.block).clone(), line: 0 }); syn::visit::visit_item_fn(self, f) } }
    fn visit_item_impl(&mut self, im: &'a syn::ItemImpl) {
        if is_test(&im.attrs) { return }
        let owner = if im.trait_.is_none() { Some(last_seg(&norm(&im.self_ty))) } else { None };
        for i in &im.items { if let syn::ImplItem::Fn(f) = i { if !is_test(&f.attrs) { self.add(f.sig.ident.to_string(), owner.clone(), FnItem { attrs: vec![], sig: f.sig.clone(), block: f.block.clone(), line: 0 }) } } }
        syn::visit::visit_item_impl(self, im)
    }
    fn visit_trait_item_fn(&mut self, f: &'a syn::TraitItemFn) { self.add(f.sig.ident.to_string(), None, FnItem { attrs: vec![], sig: f.sig.clone(), block: parse_block(), line: 0 }); syn::visit::visit_trait_item_fn(self, f) }
    fn visit_item_mod(&mut self, m: &'a syn::ItemMod) { if !is_test(&m.attrs) { syn::visit::visit_item_mod(self, m) } }
}
fn parse_block() -> syn::Block { syn::parse_str("{}").unwrap() }

struct Lits(Vec<Value>);
impl<'a> Visit<'a> for Lits {
    fn visit_lit(&mut self, l: &'a syn::Lit) {
        match l {
            syn::Lit::Str(s) => self.0.push(json!(s.value())),
            syn::Lit::ByteStr(s) => self.0.push(json!(String::from_utf8_lossy(&s.value()))),
            syn::Lit::Char(c) => self.0.push(json!(c.value().to_string())),
            syn::Lit::Byte(c) => self.0.push(json!((c.value() as char).to_string())),
            syn::Lit::Int(i) => { if let Ok(v) = i.base10_parse::<u64>() { self.0.push(json!(v)) } }
            _ => {}
        }
    }
    fn visit_macro(&mut self, m: &'a syn::Macro) {
        fn go(ts: proc_macro2::TokenStream, out: &mut Vec<Value>) {
            for t in ts {
                match t {
                    proc_macro2::TokenTree::Group(g) => go(g.stream(), out),
                    proc_macro2::TokenTree::Literal(l) => {
                        if let Ok(x) = syn::parse_str::<syn::Lit>(&l.to_string()) { Lits(vec![]).visit_lit(&x); let mut v = Lits(vec![]); v.visit_lit(&x); out.extend(v.0) }
                    }
                    _ => {}
                }
            }
        }
        go(m.tokens.clone(), &mut self.0);
    }
    fn visit_attribute(&mut self, _: &'a syn::Attribute) {}
    fn visit_item_mod(&mut self, m: &'a syn::ItemMod) { if !is_test(&m.attrs) { syn::visit::visit_item_mod(self, m) } }
    fn visit_item_fn(&mut self, f: &'a syn::ItemFn) { if !is_test(&f.attrs) { syn::visit::visit_item_fn(self, f) } }
}

fn literals(root: &str) {
    let mut files = vec![];
    walk(&format!("{}/src", root), &mut files);
    let mut set = BTreeSet::new();
    for f in files {
        let s = fs::read_to_string(&f).unwrap_or_default();
        if let Ok(file) = syn::parse_file(&preprocess(&s)) {
            let mut l = Lits(vec![]);
            l.visit_file(&file);
            for v in l.0 { set.insert(v.to_string()); }
        }
    }
    let v: Vec<Value> = set.iter().map(|s| serde_json::from_str(s).unwrap()).collect();
    println!("{}", Value::Array(v));
}

pub struct Opts { pub vacuity: String, pub baseline: Option<BTreeMap<String, Value>>, pub stub: BTreeSet<String>, pub strict: bool }

fn find_struct(items: &[syn::Item], name: &str) -> Option<syn::Item> {
    for it in items {
        match it {
            syn::Item::Struct(s) if s.ident == name => return Some(it.clone()),
            syn::Item::Enum(s) if s.ident == name => return Some(it.clone()),
            syn::Item::Const(s) if s.ident == name => return Some(it.clone()),
            syn::Item::Type(s) if s.ident == name => return Some(it.clone()),
            syn::Item::Macro(m) if m.ident.as_ref().map_or(false, |i| i == name) && !is_test(&m.attrs) => return Some(it.clone()),
            syn::Item::Mod(m) if !is_test(&m.attrs) => if let Some((_, its)) = &m.content { if let Some(r) = find_struct(its, name) { return Some(r) } },
            _ => {}
        }
    }
    None
}

fn one_fn(repo: &mut Repo, fd: &template::FnDir, key: &str, opts: &Opts, names: &FnNames, tpl_text: &str) -> R<(String, Value, usize)> {
    let file = repo.file(&fd.file)?;
    let mut cands = vec![];
    if let Some((outer, inner)) = fd.name.split_once('/') {
        let mut o = vec![];
        collect_fns(&file.items, &fd.selfty, &fd.traitn, outer, &mut o);
        for f in o { for st in &f.block.stmts { if let syn::Stmt::Item(i) = st { collect_fns(std::slice::from_ref(i), "-", "-", inner, &mut cands) } }
            if cands.is_empty() { if let Some(b) = desugar::lifted(&f.block, inner) { let mut g = f.clone(); g.block = b; g.sig.inputs = Default::default(); cands.push(g) } } }
    } else {
        collect_fns(&file.items, &fd.selfty, &fd.traitn, &fd.name, &mut cands);
    }
    if cands.is_empty() {
        // moved: out of the function it was in, or to another file
        let name = fd.name.rsplit('/').next().unwrap();
        let nested = fd.name.contains('/');
        let mut all: Vec<_> = repo.files.keys().cloned().collect();
        all.sort();
        for f in all { collect_fns(&repo.files[&f].items, if nested { "-" } else { &fd.selfty }, if nested { "-" } else { &fd.traitn }, name, &mut cands) }
    }
    if cands.is_empty() { return Err(format!("lost anchor: function {}", key)) }
    if cands.len() > 1 { return Err(format!("lost anchor: function {} is ambiguous", key)) }
    let f = cands.pop().unwrap();
    let base = opts.baseline.as_ref().and_then(|b| b.get(key)).cloned();
    let (txt, info) = desugar::emit_fn(&f, fd, key, base.as_ref(), &names.names, &names.table, tpl_text, opts)?;
    Ok((txt, info, f.line))
}

fn gen(root: &str, tpl: &str, opts: &Opts) -> R<(String, Vec<Value>, BTreeMap<String, Value>)> {
    let mut repo = Repo { root: root.to_string(), files: HashMap::new() };
    let t = template::load(tpl)?;
    let mut files = vec![];
    walk(&format!("{}/src", root), &mut files);
    let mut names = FnNames { names: BTreeSet::new(), table: Default::default() };
    for f in &files {
        let rel = f[root.len() + 1..].to_string();
        let fl = repo.file(&rel)?;
        names.visit_file(fl);
    }
    let tpl_text = t.all_text();
    let mut out = String::new();
    let mut fns = vec![];
    let mut rec = BTreeMap::new();
    for seg in &t.segs {
        match seg {
            template::Seg::Text(s) => { out.push_str(s); out.push('\n') }
            template::Seg::Item(it) => {
                let file = repo.file(&it.file)?;
                let item = find_struct(&file.items, &it.name).ok_or_else(|| format!("lost anchor: item {} in {}", it.name, it.file))?;
                let txt = desugar::emit_item(item, it)?;
                let ik = format!("item:{}::{}", it.file, it.name);
                let flat: String = txt.split_whitespace().collect();
                let changed = opts.baseline.as_ref().map_or(false, |b| b.get(&ik).map_or(true, |x| x["body"] != json!(flat)));
                fns.push(json!({"key": ik, "item": true, "changed": changed, "begin": 0, "end": 0}));
                rec.insert(ik, json!({"body": flat}));
                out.push_str(&format!("// @@ITEM {} {}\n{}\n", it.file, it.name, txt));
            }
            template::Seg::Fn(fd) => {
                let key = format!("{}::{}::{}::{}", fd.file, fd.selfty, fd.traitn, fd.name);
                let r = one_fn(&mut repo, fd, &key, opts, &names, &tpl_text);
                let r = if opts.stub.contains(&key) { Err("outside the verifier's reach as it is written now".to_string()) } else { r };
                let (txt, info, line) = match r {
                    Ok(x) => x,
                    Err(e) if opts.strict => return Err(e),
                    // the rest of the unit is still checked, against the contract of the function that was lost
                    Err(e) => (format!("#[verifier::external_body]\n{}\n{}{{ unimplemented!() }}", fd.sig, fd.spec), json!({"stub": e, "changed": true}), 0),
                };
                let begin = out.lines().count() + 1;
                out.push_str(&format!("// @@BEGIN {}\n", key));
                out.push_str(&txt);
                out.push_str("\n// @@END\n");
                let end = out.lines().count();
                let mut v = info.clone();
                v["key"] = json!(key);
                v["line"] = json!(line);
                v["begin"] = json!(begin);
                v["end"] = json!(end);
                fns.push(v);
                rec.insert(key, info);
            }
        }
    }
    Ok((out, fns, rec))
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    match a.get(1).map(|s| s.as_str()) {
        Some("literals") => literals(&a[2]),
        Some("gen") => {
            let (root, tpl, outp) = (&a[2], &a[3], &a[4]);
            let opt = |n: &str| a.iter().position(|x| x == n).and_then(|i| a.get(i + 1)).cloned();
            let baseline = opt("--baseline").and_then(|p| fs::read_to_string(p).ok()).and_then(|s| serde_json::from_str(&s).ok());
            let stub = opt("--stub").map(|s| s.split(';').map(String::from).collect()).unwrap_or_default();
            let opts = Opts { vacuity: opt("--vacuity").unwrap_or_default(), baseline, stub, strict: a.iter().any(|x| x == "--strict") };
            match gen(root, tpl, &opts) {
                Ok((txt, fns, rec)) => {
                    fs::write(outp, txt).unwrap();
                    if let Some(p) = opt("--record") { fs::write(p, serde_json::to_string_pretty(&rec).unwrap()).unwrap() }
                    println!("{}", json!({"status": "ok", "fns": fns}));
                }
                Err(e) => { println!("{}", json!({"status": "lost", "reason": e})); }
            }
        }
        _ => { eprintln!("usage"); exit(2) }
    }
}
