//! Semantics-preserving source-to-source passes (listed in DESIGN.md) and annotation placement.
use crate::template::{FnDir, ItemDir};
use crate::{norm, print, FnItem, Opts, R};
use proc_macro2::{Delimiter, Group, Ident, Span, TokenStream, TokenTree};
use quote::{format_ident, quote, ToTokens};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use syn::parse::Parser;
use syn::punctuated::Punctuated;
use syn::visit::Visit;
use syn::visit_mut::{self, VisitMut};
use syn::{parse_quote, Block, Expr, Pat, Stmt, Token};

// ---------------------------------------------------------------- binders
struct Binders(Vec<String>);
impl<'a> Visit<'a> for Binders {
    fn visit_pat_ident(&mut self, p: &'a syn::PatIdent) {
        let s = p.ident.to_string();
        if s.starts_with(|c: char| c.is_lowercase() || c == '_') && s != "self" { self.0.push(s) }
        syn::visit::visit_pat_ident(self, p)
    }
    fn visit_item(&mut self, _: &'a syn::Item) {}
}

struct Rename<'m>(&'m BTreeMap<String, String>);
impl<'m> Rename<'m> {
    fn toks(&self, ts: TokenStream) -> TokenStream {
        ts.into_iter().map(|t| match t {
            TokenTree::Ident(i) => match self.0.get(&i.to_string()) { Some(n) => TokenTree::Ident(Ident::new(n, i.span())), None => TokenTree::Ident(i) },
            TokenTree::Group(g) => TokenTree::Group(Group::new(g.delimiter(), self.toks(g.stream()))),
            o => o,
        }).collect()
    }
}
impl<'m> VisitMut for Rename<'m> {
    fn visit_pat_ident_mut(&mut self, p: &mut syn::PatIdent) {
        if let Some(n) = self.0.get(&p.ident.to_string()) { p.ident = Ident::new(n, p.ident.span()) }
        visit_mut::visit_pat_ident_mut(self, p)
    }
    fn visit_field_pat_mut(&mut self, f: &mut syn::FieldPat) {
        if f.colon_token.is_none() {
            if let Pat::Ident(pi) = &*f.pat { if self.0.contains_key(&pi.ident.to_string()) {
                f.member = syn::Member::Named(pi.ident.clone());
                f.colon_token = Some(Default::default());
            } }
        }
        visit_mut::visit_field_pat_mut(self, f)
    }
    fn visit_field_value_mut(&mut self, f: &mut syn::FieldValue) {
        if f.colon_token.is_none() { f.colon_token = Some(Default::default()) }
        visit_mut::visit_field_value_mut(self, f)
    }
    fn visit_expr_path_mut(&mut self, p: &mut syn::ExprPath) {
        if p.qself.is_none() && p.path.leading_colon.is_none() && p.path.segments.len() == 1 {
            let s = &mut p.path.segments[0];
            if let Some(n) = self.0.get(&s.ident.to_string()) { s.ident = Ident::new(n, s.ident.span()) }
        }
    }
    fn visit_macro_mut(&mut self, m: &mut syn::Macro) { m.tokens = self.toks(m.tokens.clone()) }
    fn visit_item_mut(&mut self, _: &mut syn::Item) {}
}

// ---------------------------------------------------------------- no-ops
fn inert(e: &Expr) -> bool {
    match e {
        Expr::Lit(_) => true,
        Expr::Tuple(t) => t.elems.iter().all(inert),
        Expr::Paren(p) => inert(&p.expr),
        Expr::Path(p) => p.path.segments.len() == 1 && p.path.segments[0].ident.to_string() != "None",
        Expr::Unary(u) => !matches!(u.op, syn::UnOp::Deref(_)) && inert_const(&u.expr),
        Expr::Binary(b) => inert_const(&b.left) && inert_const(&b.right) && !matches!(b.op, syn::BinOp::Div(_) | syn::BinOp::Rem(_)),
        Expr::Reference(r) => inert_const(&r.expr),
        Expr::Block(b) => b.block.stmts.is_empty(),
        _ => false,
    }
}
fn inert_const(e: &Expr) -> bool { match e { Expr::Path(_) => false, _ => inert(e) } }

fn is_noop(s: &Stmt, used: &BTreeMap<String, usize>) -> bool {
    match s {
        Stmt::Local(l) => {
            let simple = match &l.pat {
                Pat::Wild(_) => true,
                Pat::Ident(p) => used.get(&p.ident.to_string()).map_or(true, |n| *n <= 1),
                Pat::Type(t) => match &*t.pat { Pat::Wild(_) => true, Pat::Ident(p) => used.get(&p.ident.to_string()).map_or(true, |n| *n <= 1), _ => false },
                _ => false,
            };
            simple && l.init.as_ref().map_or(true, |i| i.diverge.is_none() && inert_const(&i.expr))
        }
        Stmt::Expr(e, Some(_)) => match e {
            Expr::If(i) => matches!(&*i.cond, Expr::Lit(l) if matches!(&l.lit, syn::Lit::Bool(b) if !b.value)) && i.else_branch.is_none(),
            Expr::Call(c) if norm(&c.func).ends_with("drop") && c.args.len() == 1 => inert_const(&c.args[0]),
            Expr::Call(c) if norm(&c.func).ends_with("black_box") && c.args.len() == 1 => inert_const(&c.args[0]),
            e => inert_const(e),
        },
        Stmt::Expr(Expr::If(i), None) => matches!(&*i.cond, Expr::Lit(l) if matches!(&l.lit, syn::Lit::Bool(b) if !b.value)) && i.else_branch.is_none(),
        Stmt::Macro(m) => is_log(&m.mac) || is_dbg_assert(&m.mac),
        Stmt::Item(syn::Item::Use(_)) => true,
        Stmt::Item(syn::Item::Const(_)) => false,
        Stmt::Item(syn::Item::Fn(_)) => true, // nested functions are extracted under their own contract
        _ => false,
    }
}
fn mac_name(m: &syn::Macro) -> String { m.path.segments.last().unwrap().ident.to_string() }
fn is_log(m: &syn::Macro) -> bool { matches!(mac_name(m).as_str(), "println" | "print" | "eprintln" | "eprint" | "error" | "warn" | "info" | "debug" | "trace") }
fn is_dbg_assert(m: &syn::Macro) -> bool { mac_name(m).starts_with("debug_assert") || (mac_name(m) == "assert" && matches!(m.tokens.to_string().as_str(), "true")) }

struct Noop(BTreeMap<String, usize>);
impl VisitMut for Noop {
    fn visit_block_mut(&mut self, b: &mut Block) {
        let m = std::mem::take(&mut self.0);
        b.stmts.retain(|s| !is_noop(s, &m));
        self.0 = m;
        visit_mut::visit_block_mut(self, b)
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Macro(m) = e { if is_log(&m.mac) || is_dbg_assert(&m.mac) { *e = parse_quote!(()) } }
        visit_mut::visit_expr_mut(self, e)
    }
}
fn ident_counts(ts: TokenStream, m: &mut BTreeMap<String, usize>) {
    for t in ts { match t { TokenTree::Ident(i) => *m.entry(i.to_string()).or_insert(0) += 1, TokenTree::Group(g) => ident_counts(g.stream(), m), _ => {} } }
}

// ---------------------------------------------------------------- control flow helpers
struct HasReturn(bool);
impl<'a> Visit<'a> for HasReturn {
    fn visit_expr_return(&mut self, _: &'a syn::ExprReturn) { self.0 = true }
    fn visit_expr_try(&mut self, _: &'a syn::ExprTry) { self.0 = true }
    fn visit_macro(&mut self, m: &'a syn::Macro) { if mac_name(m) == "vx_try" { self.0 = true } }
    fn visit_expr_closure(&mut self, _: &'a syn::ExprClosure) {}
    fn visit_item(&mut self, _: &'a syn::Item) {}
}

// ---------------------------------------------------------------- closures as functions of their own
/// The closure given to method `name`, as the body of a function with the argument `vx_p`.
pub fn lifted(b: &Block, name: &str) -> Option<Block> {
    struct Find<'n>(&'n str, Vec<Block>);
    impl<'a, 'n> Visit<'a> for Find<'n> {
        fn visit_expr_method_call(&mut self, m: &'a syn::ExprMethodCall) {
            if m.method == self.0 && m.args.len() == 1 { if let Expr::Closure(c) = peel(&m.args[0]) { if c.inputs.len() == 1 {
                let p = match &c.inputs[0] { Pat::Type(t) => &*t.pat, p => p };
                let body = &c.body;
                let mut b: Block = match &**body { Expr::Block(b) => b.block.clone(), e => parse_quote!({ #e }) };
                b.stmts.insert(0, parse_quote!(let #p = vx_p;));
                self.1.push(b);
            } } }
            if m.method == self.0 { if let Some(Expr::Closure(c)) = m.args.last().map(peel) { if c.inputs.is_empty() {
                let body = &c.body;
                self.1.push(match &**body { Expr::Block(b) => b.block.clone(), e => parse_quote!({ #e }) });
            } } }
            syn::visit::visit_expr_method_call(self, m)
        }
        fn visit_item(&mut self, _: &'a syn::Item) {}
    }
    let mut f = Find(name, vec![]);
    f.visit_block(b);
    if f.1.len() == 1 { f.1.pop() } else { None }
}
struct Lift<'d>(&'d str, Expr, usize);
impl<'d> VisitMut for Lift<'d> {
    fn visit_expr_method_call_mut(&mut self, m: &mut syn::ExprMethodCall) {
        visit_mut::visit_expr_method_call_mut(self, m);
        if m.method == self.0 && m.args.len() == 1 && matches!(peel(&m.args[0]), Expr::Closure(_)) { let f = self.1.clone(); m.args[0] = parse_quote!(|vx_p| #f); self.2 += 1; }
        // a closure without arguments becomes a value that can be called (see trait Thunk)
        else if m.method == self.0 { if let Some(a) = m.args.last_mut() { if matches!(peel(a), Expr::Closure(c) if c.inputs.is_empty()) { *a = self.1.clone(); self.2 += 1; } } }
    }
    fn visit_item_mut(&mut self, _: &mut syn::Item) {}
}

// ---------------------------------------------------------------- macros, try, closures
struct Pass<'d> { d: &'d FnDir, n: usize, err: Option<String> }

fn peel(e: &Expr) -> &Expr { match e { Expr::Paren(p) => peel(&p.expr), Expr::Group(g) => peel(&g.expr), e => e } }

/// Apply a closure or function value to one argument, with a match-arm wrapper `$ctor`.
/// Returns (pattern for the payload, body).
fn apply1(f: &Expr, n: &mut usize, err: &mut Option<String>) -> (TokenStream, TokenStream) {
    match peel(f) {
        Expr::Closure(c) => {
            let mut h = HasReturn(false);
            h.visit_expr(&c.body);
            if h.0 { *err = Some("a closure with an early return cannot be inlined".into()) }
            let body = &c.body;
            if c.inputs.is_empty() { return (quote!(), quote!(#body)) }
            let mut p = c.inputs[0].clone();
            if let Pat::Type(t) = p { p = *t.pat }
            match &p {
                Pat::Reference(r) => {
                    *n += 1;
                    let v = format_ident!("vx_r{}", n);
                    let inner = &r.pat;
                    (quote!(#v), quote!({ let #inner = *#v; #body }))
                }
                _ => (quote!(#p), quote!(#body)),
            }
        }
        other => {
            *n += 1;
            let v = format_ident!("vx_a{}", n);
            (quote!(#v), quote!(#other(#v)))
        }
    }
}
fn apply0(f: &Expr) -> TokenStream {
    match peel(f) { Expr::Closure(c) => { let b = &c.body; quote!(#b) } other => quote!(#other()) }
}

const LAMBDA: &[&str] = &["map", "filter_map", "filter", "flat_map", "take_while"];

impl<'d> Pass<'d> {
    fn is_result(&self, m: &str) -> bool { self.d.result.iter().any(|x| x == m) }

    /// `src.<stage>(closure)...collect()` and friends become a loop.
    fn pipeline(&mut self, e: &Expr) -> Option<Expr> {
        let mc = if let Expr::MethodCall(m) = e { m } else { return None };
        let term = mc.method.to_string();
        if matches!(term.as_str(), "filter_map" | "flat_map" | "take_while") {
            // a pure adapter that is consumed later: its elements, all at once
            return Some(parse_quote!(vx_iter(#mc.collect())));
        }
        let searching = matches!(term.as_str(), "find" | "position" | "find_map");
        if searching && !(mc.args.len() == 1 && matches!(peel(&mc.args[0]), Expr::Closure(_))) { return None }
        if !searching && !matches!(term.as_str(), "collect" | "for_each" | "fold" | "any" | "all" | "count") { return None }
        let mut stages: Vec<(String, Expr)> = vec![];
        let mut cur = &*mc.receiver;
        loop {
            match cur {
                Expr::MethodCall(m) if LAMBDA.contains(&m.method.to_string().as_str()) && m.args.len() == 1 => {
                    stages.push((m.method.to_string(), m.args[0].clone()));
                    cur = &m.receiver;
                }
                _ => break,
            }
        }
        if stages.is_empty() && term == "collect" { return None }
        if stages.is_empty() && term == "count" { return None }
        stages.reverse();
        self.n += 1;
        let acc = format_ident!("vx_c{}", self.n);
        let src = cur.clone();
        // build the innermost action, then wrap from the last stage to the first
        self.n += 1;
        let mut var = format_ident!("vx_v{}", self.n);
        let (init, mut body, result): (TokenStream, TokenStream, TokenStream) = match term.as_str() {
            "collect" => (quote!(let mut #acc = Vec::new();), quote!(#acc.push(#var);), quote!(#acc)),
            "for_each" => { let (p, b) = apply1(&mc.args[0], &mut self.n, &mut self.err); (quote!(), quote!(let #p = #var; #b;), quote!(())) }
            "any" => { let (p, b) = apply1(&mc.args[0], &mut self.n, &mut self.err); (quote!(let mut #acc = false;), quote!(let #p = #var; if #b { #acc = true; break; }), quote!(#acc)) }
            "all" => { let (p, b) = apply1(&mc.args[0], &mut self.n, &mut self.err); (quote!(let mut #acc = true;), quote!(let #p = #var; if !(#b) { #acc = false; break; }), quote!(#acc)) }
            "find" => { let (p, b) = apply1(&mc.args[0], &mut self.n, &mut self.err); (quote!(let mut #acc = None;), quote!(if { let #p = &#var; #b } { #acc = Some(#var); break; }), quote!(#acc)) }
            "find_map" => { let (p, b) = apply1(&mc.args[0], &mut self.n, &mut self.err); (quote!(let mut #acc = None;), quote!(let #p = #var; if let Some(vx_found) = #b { #acc = Some(vx_found); break; }), quote!(#acc)) }
            "position" => {
                let (p, b) = apply1(&mc.args[0], &mut self.n, &mut self.err);
                let at = format_ident!("{}_at", acc);
                (quote!(let mut #acc = None; let mut #at = 0usize;), quote!(let #p = #var; if #b { #acc = Some(#at); break; } #at += 1;), quote!(#acc))
            }
            "count" => (quote!(let mut #acc = 0usize;), quote!(#acc += 1;), quote!(#acc)),
            "fold" => {
                let c = if let Expr::Closure(c) = peel(&mc.args[1]) { c } else { return None };
                let i = &mc.args[0];
                let (p0, p1, b) = (&c.inputs[0], &c.inputs[1], &c.body);
                (quote!(let mut #acc = #i;), quote!(#acc = { let #p0 = #acc; let #p1 = #var; #b };), quote!(#acc))
            }
            _ => unreachable!(),
        };
        for (m, f) in stages.iter().rev() {
            self.n += 1;
            let nv = format_ident!("vx_v{}", self.n);
            let (p, b) = apply1(f, &mut self.n, &mut self.err);
            body = match m.as_str() {
                "map" => quote!(let #p = #nv; let #var = #b; #body),
                "filter_map" => quote!(let #p = #nv; if let Some(#var) = #b { #body }),
                "filter" => quote!(if { let #p = &#nv; #b } { let #var = #nv; #body }),
                "take_while" => quote!(if !{ let #p = &#nv; #b } { break; } let #var = #nv; #body),
                "flat_map" => quote!(let #p = #nv; for #var in #b { #body }),
                _ => unreachable!(),
            };
            var = nv;
        }
        let r: Expr = parse_quote!({ #init for #var in #src { #body } #result });
        Some(r)
    }

    /// `x.extend(src.map(f))` and `T::from_iter(src.map(f))`: the elements are computed first.
    fn gathered(&self, e: &mut Expr) {
        let arg = match e {
            Expr::MethodCall(m) if m.args.len() == 1 && m.method == "extend" => &mut m.args[0],
            Expr::Call(c) if c.args.len() == 1 && matches!(&*c.func, Expr::Path(p) if p.path.segments.last().map_or(false, |s| s.ident == "from_iter")) => &mut c.args[0],
            _ => return,
        };
        if matches!(arg, Expr::MethodCall(m) if m.args.len() == 1 && LAMBDA.contains(&m.method.to_string().as_str())) { let a = arg.clone(); *arg = parse_quote!(#a.collect()); }
    }

    fn combinator(&mut self, mc: &syn::ExprMethodCall) -> Option<Expr> {
        let m = mc.method.to_string();
        let r = &mc.receiver;
        let res = self.is_result(&m);
        let is_fn = |e: &Expr| matches!(peel(e), Expr::Closure(_) | Expr::Path(_));
        let a = &mc.args;
        let out: Expr = match (m.as_str(), a.len()) {
            ("map", 1) if is_fn(&a[0]) => {
                let (p, b) = apply1(&a[0], &mut self.n, &mut self.err);
                if res { parse_quote!(match #r { Ok(#p) => Ok(#b), Err(vx_e) => Err(vx_e) }) }
                else { parse_quote!(match #r { Some(#p) => Some(#b), None => None }) }
            }
            ("then_with", 1) if matches!(peel(&a[0]), Expr::Closure(c) if c.inputs.is_empty()) => {
                let b = apply0(&a[0]);
                parse_quote!(match #r { Ordering::Equal => #b, vx_o => vx_o })
            }
            ("map_err", 1) if is_fn(&a[0]) => {
                let (p, b) = apply1(&a[0], &mut self.n, &mut self.err);
                parse_quote!(match #r { Ok(vx_o) => Ok(vx_o), Err(#p) => Err(#b) })
            }
            ("and_then", 1) if is_fn(&a[0]) => {
                let (p, b) = apply1(&a[0], &mut self.n, &mut self.err);
                if res { parse_quote!(match #r { Ok(#p) => #b, Err(vx_e) => Err(vx_e) }) }
                else { parse_quote!(match #r { Some(#p) => #b, None => None }) }
            }
            ("or_else", 1) if is_fn(&a[0]) => {
                if let Expr::Closure(c) = peel(&a[0]) { if c.inputs.is_empty() {
                    let b = apply0(&a[0]);
                    return Some(parse_quote!(match #r { Some(vx_o) => Some(vx_o), None => #b }));
                } }
                let (p, b) = apply1(&a[0], &mut self.n, &mut self.err);
                parse_quote!(match #r { Ok(vx_o) => Ok(vx_o), Err(#p) => #b })
            }
            ("unwrap_or_else", 1) if is_fn(&a[0]) => {
                if res {
                    let (p, b) = apply1(&a[0], &mut self.n, &mut self.err);
                    parse_quote!(match #r { Ok(vx_o) => vx_o, Err(#p) => #b })
                } else {
                    let b = apply0(&a[0]);
                    parse_quote!(match #r { Some(vx_o) => vx_o, None => #b })
                }
            }
            ("or_insert_with", 1) if is_fn(&a[0]) => { let b = apply0(&a[0]); parse_quote!(match #r { Entry::Occupied(vx_o) => vx_o.into_mut(), Entry::Vacant(vx_o) => vx_o.insert(#b) }) }
            ("or_insert", 1) => { let b = &a[0]; let n = self.n; self.n += 1; let v = format_ident!("vx_d{}", n); parse_quote!({ let #v = #b; match #r { Entry::Occupied(vx_o) => vx_o.into_mut(), Entry::Vacant(vx_o) => vx_o.insert(#v) } }) }
            ("map_or", 2) if is_fn(&a[1]) => {
                let (p, b) = apply1(&a[1], &mut self.n, &mut self.err);
                let d = &a[0];
                if res { parse_quote!(match #r { Ok(#p) => #b, Err(_) => #d }) }
                else { parse_quote!(match #r { Some(#p) => #b, None => #d }) }
            }
            ("map_or_else", 2) if is_fn(&a[1]) => {
                let (p, b) = apply1(&a[1], &mut self.n, &mut self.err);
                let d = apply0(&a[0]);
                parse_quote!(match #r { Some(#p) => #b, None => #d })
            }
            _ => return None,
        };
        Some(out)
    }
}

fn parse_mac(e: &Expr) -> Option<Expr> {
    let m = if let Expr::Macro(m) = e { &m.mac } else { return None };
    let list = |m: &syn::Macro| Punctuated::<Expr, Token![,]>::parse_terminated.parse2(m.tokens.clone()).ok();
    match mac_name(m).as_str() {
        "vx_try" => {
            let x: Expr = syn::parse2(m.tokens.clone()).ok().or_else(|| { let t = &m.tokens; syn::parse2(quote!({ #t })).ok() })?;
            Some(parse_quote!(match #x { Ok(vx_o) => vx_o, Err(vx_e) => return Err(vx_from(vx_e)) }))
        }
        "unreachable" => Some(parse_quote!(vx_unreachable())),
        "panic" => Some(parse_quote!(vx_panic())),
        "assert" => { let l = list(m)?; let c = &l[0]; Some(parse_quote!(if !(#c) { vx_panic() })) }
        "vec" => {
            if m.tokens.is_empty() { return Some(parse_quote!(Vec::new())) }
            if let Some(l) = list(m) { let l: Vec<_> = l.into_iter().collect(); return Some(parse_quote!(vx_vec([#(#l),*]))) }
            let r: syn::ExprRepeat = { let t = &m.tokens; syn::parse2(quote!([#t])).ok()? };
            let (a, b) = (r.expr, r.len);
            Some(parse_quote!(vx_vec_repeat(#a, #b)))
        }
        _ => None,
    }
}

/// `|&e| e == C` (or `|e| *e == C`, either way round) for a constant C: the constant.
fn equals_const(f: &Expr) -> Option<Expr> {
    let c = if let Expr::Closure(c) = peel(f) { c } else { return None };
    if c.inputs.len() != 1 { return None }
    let mut p = &c.inputs[0];
    if let Pat::Type(t) = p { p = &t.pat }
    let (name, by_ref) = match p {
        Pat::Reference(r) => match &*r.pat { Pat::Ident(i) => (i.ident.to_string(), false), _ => return None },
        Pat::Ident(i) => (i.ident.to_string(), true),
        _ => return None,
    };
    let mut body = peel(&c.body);
    if let Expr::Block(b) = body { if b.block.stmts.len() == 1 { if let Stmt::Expr(e, None) = &b.block.stmts[0] { body = peel(e) } } }
    let b = if let Expr::Binary(b) = body { b } else { return None };
    if !matches!(b.op, syn::BinOp::Eq(_)) { return None }
    let is_var = |e: &Expr| { let t = norm(peel(e)).replace(' ', ""); if by_ref { t == format!("*{}", name) } else { t == name } };
    let lit = |e: &Expr| -> Option<Expr> {
        let e = peel(e);
        let e = if by_ref { if let Expr::Reference(r) = e { peel(&r.expr) } else { e } } else { e };
        if matches!(e, Expr::Lit(_)) { Some(e.clone()) } else { None }
    };
    if is_var(&b.left) { lit(&b.right) } else if is_var(&b.right) { lit(&b.left) } else { None }
}
/// `x.split(|&e| e == C)` -> `x.vx_split(C)`, also splitn and position.
fn byte_split(e: &Expr) -> Option<Expr> {
    let m = if let Expr::MethodCall(m) = e { m } else { return None };
    let r = &m.receiver;
    let c = equals_const(m.args.last()?)?;
    match (m.method.to_string().as_str(), m.args.len()) {
        ("split", 1) => Some(parse_quote!(#r.vx_split(#c))),
        ("splitn", 2) => { let n = &m.args[0]; Some(parse_quote!(#r.vx_splitn(#n, #c))) }
        _ => None,
    }
}
/// `&x[a..b]` -> `x.vx_range(a, b)` and so on; as a receiver without the `&`.
struct Ranges;
fn range_index(e: &Expr) -> Option<Expr> {
    let i = if let Expr::Index(i) = peel(e) { i } else { return None };
    let r = if let Expr::Range(r) = peel(&i.index) { r } else { return None };
    if !matches!(r.limits, syn::RangeLimits::HalfOpen(_)) { return None }
    let x = &i.expr;
    Some(match (&r.start, &r.end) {
        (Some(a), Some(b)) => parse_quote!(#x.vx_range(#a, #b)),
        (Some(a), None) => parse_quote!(#x.vx_from(#a)),
        (None, Some(b)) => parse_quote!(#x.vx_to(#b)),
        (None, None) => parse_quote!(#x.vx_all()),
    })
}
impl VisitMut for Ranges {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Reference(r) = e { if r.mutability.is_none() { if let Some(n) = range_index(&r.expr) { *e = n; } } }
        if let Expr::MethodCall(m) = e { if let Some(n) = range_index(&m.receiver) { *m.receiver = n } }
        visit_mut::visit_expr_mut(self, e)
    }
    fn visit_item_mut(&mut self, _: &mut syn::Item) {}
}

/// Other ways of writing the loops that the annotations were written for.
struct Shapes<'b>(&'b str);
impl<'b> VisitMut for Shapes<'b> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Loop(l) = e { if !self.0.contains("loop {") && !self.0.contains("loop{") {
            // loop { let P = match X { Some(v) => v, None => break }; .. }
            let found = if let Some(Stmt::Local(syn::Local { pat, init: Some(i), .. })) = l.body.stmts.first() { if i.diverge.is_none() { some_or_break(&i.expr).map(|x| (pat.clone(), x)) } else { some_pat(pat).filter(|_| i.diverge.as_ref().map_or(false, |d| is_break(&d.1))).map(|p| (p, (*i.expr).clone())) } } else { None };
            if let Some((p, x)) = found {
                let (label, rest) = (&l.label, &l.body.stmts[1..]);
                *e = parse_quote!(#label while let Some(#p) = #x { #(#rest)* });
            }
        } }
        if let Expr::ForLoop(f) = e { if let Expr::MethodCall(m) = peel(&f.expr) { if m.args.is_empty() && !self.0.contains(&format!(".{}()", m.method)) {
            let (p, x) = (&f.pat, &m.receiver);
            if m.method == "values_mut" { let (np, nx) = (parse_quote!((_, #p)), parse_quote!(&mut #x)); *f.pat = np; *f.expr = nx }
            else if m.method == "iter" { let nx = parse_quote!(#x.vx_seq()); *f.expr = nx }
            else if m.method == "into_iter" { let nx = parse_quote!(#x); *f.expr = nx }
            else if m.method == "iter_mut" { let nx = parse_quote!(&mut #x); *f.expr = nx }
        } } }
        visit_mut::visit_expr_mut(self, e);
    }
    fn visit_item_mut(&mut self, _: &mut syn::Item) {}
}
fn is_break(e: &Expr) -> bool {
    match peel(e) { Expr::Break(b) => b.label.is_none() && b.expr.is_none(), Expr::Block(b) => match &b.block.stmts[..] { [Stmt::Expr(e, _)] => is_break(e), _ => false }, _ => false }
}
fn some_pat(p: &Pat) -> Option<Pat> { if let Pat::TupleStruct(t) = p { if t.path.is_ident("Some") && t.elems.len() == 1 { return Some(t.elems[0].clone()) } } None }
/// `match X { Some(v) => v, None => break }` or `if let Some(v) = X { v } else { break }`: X
fn some_or_break(e: &Expr) -> Option<Expr> {
    let is = |p: &Pat, b: &Expr| { let b = match peel(b) { Expr::Block(b) if b.block.stmts.len() == 1 => if let Stmt::Expr(e, None) = &b.block.stmts[0] { e.clone() } else { return false }, b => b.clone() }; some_pat(p).map_or(false, |v| norm(&v) == norm(&b)) };
    match peel(e) {
        Expr::Match(m) if m.arms.len() == 2 && m.arms.iter().all(|a| a.guard.is_none()) => {
            let (s, n) = if some_pat(&m.arms[0].pat).is_some() { (0, 1) } else { (1, 0) };
            let none = match &m.arms[n].pat { Pat::Wild(_) => n == 1, Pat::Ident(i) => i.ident == "None", _ => false };
            if none && is(&m.arms[s].pat, &m.arms[s].body) && is_break(&m.arms[n].body) { Some((*m.expr).clone()) } else { None }
        }
        Expr::If(i) => if let Expr::Let(l) = &*i.cond {
            let b = Expr::Block(syn::ExprBlock { attrs: vec![], label: None, block: i.then_branch.clone() });
            if is(&l.pat, &b) && i.else_branch.as_ref().map_or(false, |x| is_break(&x.1)) { Some((*l.expr).clone()) } else { None }
        } else { None },
        _ => None,
    }
}

impl<'d> VisitMut for Pass<'d> {
    fn visit_block_mut(&mut self, b: &mut Block) {
        let last = b.stmts.len().wrapping_sub(1);
        for (i, s) in b.stmts.iter_mut().enumerate() {
            if let Stmt::Macro(m) = s {
                let e = Expr::Macro(syn::ExprMacro { attrs: vec![], mac: m.mac.clone() });
                // `unreachable!();` at the end of a block has any type
                let any = i == last && ["unreachable", "panic"].contains(&mac_name(&m.mac).as_str());
                if parse_mac(&e).is_some() { *s = Stmt::Expr(e, if any { None } else { m.semi_token }) }
            }
        }
        visit_mut::visit_block_mut(self, b)
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        loop {
            if let Some(n) = parse_mac(e) { *e = n; continue }
            if let Some(n) = byte_split(e) { *e = n; continue }
            if let Expr::Try(t) = e {
                let x = &t.expr;
                *e = parse_quote!(match #x { Ok(vx_o) => vx_o, Err(vx_e) => return Err(vx_from(vx_e)) });
                continue;
            }
            if !self.d.opts.iter().any(|o| o == "keep-pipelines") { self.gathered(e); if let Some(n) = self.pipeline(e) { *e = n; continue } }
            if let Expr::MethodCall(m) = e { if !self.d.opts.iter().any(|o| o == &format!("keep {}", m.method)) {
                let m = m.clone();
                if let Some(n) = self.combinator(&m) { *e = n; continue } }
            }
            break;
        }
        visit_mut::visit_expr_mut(self, e);
    }
    fn visit_item_mut(&mut self, _: &mut syn::Item) {}
}

/// `vx_vec([a, b])` is printed as `vec![a, b]`.
struct VecBack;
impl VisitMut for VecBack {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if let Expr::Call(c) = e { if norm(&c.func) == "vx_vec" { if let Expr::Array(a) = &c.args[0] { let l = a.elems.iter(); *e = parse_quote!(vec![#(#l),*]) } } }
    }
}

// ---------------------------------------------------------------- ref patterns
/// `match *x { P(ref a) .. }` -> `match &*x`-style default binding modes.
struct RefPat { on: bool }
struct StripRef { any: bool, mutable: bool }
impl VisitMut for StripRef {
    fn visit_pat_ident_mut(&mut self, p: &mut syn::PatIdent) {
        if p.by_ref.is_some() { self.any = true; if p.mutability.is_some() { self.mutable = true } p.by_ref = None; p.mutability = None }
    }
}
/// `&P` where P binds nothing by value: the same as P under default binding modes.
struct UnRef;
struct ByValue(bool);
impl<'a> Visit<'a> for ByValue { fn visit_pat_ident(&mut self, p: &'a syn::PatIdent) { if p.by_ref.is_none() && p.ident.to_string().starts_with(|c: char| c.is_lowercase() || c == '_') { self.0 = true } } }
impl VisitMut for UnRef {
    fn visit_pat_mut(&mut self, p: &mut Pat) {
        if let Pat::Reference(r) = p {
            let mut b = ByValue(false);
            b.visit_pat(&r.pat);
            if !b.0 && r.mutability.is_none() {
                let mut inner = (*r.pat).clone();
                StripRef { any: false, mutable: false }.visit_pat_mut(&mut inner);
                *p = inner;
            }
        }
        visit_mut::visit_pat_mut(self, p)
    }
}
fn strip_scrutinee(scrut: &mut Expr, mut pats: Vec<&mut Pat>) {
    // `&mut p` against `e` is `p` against `*e`
    if pats.iter().any(|p| matches!(p, Pat::Reference(r) if r.mutability.is_some())) && pats.iter().all(|p| matches!(p, Pat::Reference(_) | Pat::Wild(_))) {
        for p in pats.iter_mut() { if let Pat::Reference(r) = &mut **p { let inner = (*r.pat).clone(); **p = inner; } }
        let e = scrut.clone();
        *scrut = parse_quote!(*#e);
    }
    let mut s = StripRef { any: false, mutable: false };
    for p in pats { UnRef.visit_pat_mut(p); s.visit_pat_mut(p) }
    if !s.any { return }
    let new: Expr = match peel(scrut) {
        Expr::Unary(u) if matches!(u.op, syn::UnOp::Deref(_)) && norm(&u.expr) == "self" => (*u.expr).clone(),
        other => if s.mutable { parse_quote!(&mut #other) } else { parse_quote!(&#other) },
    };
    *scrut = new;
}
/// `x == Ordering::Less`: the std enum has no data.
fn ordering_eq(e: &Expr) -> Option<Expr> {
    let b = if let Expr::Binary(b) = e { b } else { return None };
    let ne = match b.op { syn::BinOp::Eq(_) => false, syn::BinOp::Ne(_) => true, _ => return None };
    let is = |e: &Expr| match e { Expr::Path(p) => { let n = p.path.segments.len(); n >= 2 && p.path.segments[n - 2].ident == "Ordering" && matches!(p.path.segments[n - 1].ident.to_string().as_str(), "Less" | "Equal" | "Greater") } _ => false };
    let (x, v) = if is(&b.right) { (&b.left, &b.right) } else if is(&b.left) { (&b.right, &b.left) } else { return None };
    Some(if ne { parse_quote!((match #x { #v => false, _ => true })) } else { parse_quote!((match #x { #v => true, _ => false })) })
}
impl VisitMut for RefPat {
    fn visit_local_mut(&mut self, l: &mut syn::Local) {
        if self.on && !matches!(l.pat, Pat::Ident(_) | Pat::Type(_)) { if let Some(i) = &mut l.init { strip_scrutinee(&mut i.expr, vec![&mut l.pat]) } }
        visit_mut::visit_local_mut(self, l)
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Some(n) = ordering_eq(e) { *e = n }
        if self.on {
            match e {
                Expr::Match(m) => { let ps = m.arms.iter_mut().map(|a| &mut a.pat).collect(); strip_scrutinee(&mut m.expr, ps) }
                Expr::Let(l) => strip_scrutinee(&mut l.expr, vec![&mut l.pat]),
                _ => {}
            }
        }
        visit_mut::visit_expr_mut(self, e)
    }
}

// ---------------------------------------------------------------- loops
struct ForLoops<'d> { n: usize, ids: &'d [usize], d: &'d FnDir }
impl<'d> ForLoops<'d> { fn no(&mut self) -> usize { self.n += 1; self.ids.get(self.n - 1).cloned().unwrap_or(1000 + self.n) } }
impl<'d> VisitMut for ForLoops<'d> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        match e {
            Expr::ForLoop(f) => {
                let k = self.no();
                let it = format_ident!("vx_it{}", k);
                let (src, pat, label) = (&f.expr, &f.pat, &f.label);
                let mut body = f.body.clone();
                let src = match peel(src) { Expr::Range(_) => quote!(vx_range(#src)), _ => quote!(#src) };
                let pat: TokenStream = match &**pat {
                    Pat::Reference(r) => { let v = format_ident!("vx_r_{}", k); let i = &r.pat; body.stmts.insert(0, parse_quote!(let #i = *#v;)); quote!(#v) }
                    Pat::Wild(_) => quote!(_vx_w),
                    p => quote!(#p),
                };
                if self.d.opts.iter().any(|o| o == &format!("by-ref-iter {}", k)) {
                    // `for x in &mut iterator`: the iterator itself is advanced
                    if let Expr::Reference(r) = peel(&f.expr) { if r.mutability.is_some() {
                        let place = &r.expr;
                        *e = parse_quote!({ #label loop { vx_loop!(#k); match #place.vx_next() { Some(#pat) => #body, None => break } } });
                        if let Expr::Block(b) = e { for s in &mut b.block.stmts { self.visit_stmt_inner(s) } }
                        return
                    } }
                }
                if self.d.opts.iter().any(|o| o == &format!("own-iter {}", k)) {
                    // an iterator of the crate itself: its own `next` is under contract (as vx_next)
                    *e = parse_quote!({ let mut #it = #src; #label loop { vx_loop!(#k); match #it.vx_next() { Some(#pat) => #body, None => break } } });
                    if let Expr::Block(b) = e { for s in &mut b.block.stmts { self.visit_stmt_inner(s) } }
                    return
                }
                *e = parse_quote!({ let mut #it = vx_iter(#src); #label loop { vx_loop!(#k); match #it.vx_next() { Some(#pat) => #body, None => break } } });
                if let Expr::Block(b) = e { for s in &mut b.block.stmts { self.visit_stmt_inner(s) } }
            }
            Expr::While(w) => {
                let k = self.no();
                w.body.stmts.insert(0, parse_quote!(vx_loop!(#k);));
                visit_mut::visit_expr_mut(self, e)
            }
            Expr::Loop(w) => {
                if !has_loop_marker(&w.body) { let k = self.no(); w.body.stmts.insert(0, parse_quote!(vx_loop!(#k);)); }
                visit_mut::visit_expr_mut(self, e)
            }
            _ => visit_mut::visit_expr_mut(self, e),
        }
    }
    fn visit_item_mut(&mut self, _: &mut syn::Item) {}
}
fn has_loop_marker(b: &Block) -> bool { matches!(b.stmts.first(), Some(Stmt::Macro(m)) if mac_name(&m.mac) == "vx_loop") }
impl<'d> ForLoops<'d> { fn visit_stmt_inner(&mut self, s: &mut Stmt) { self.visit_stmt_mut(s) } }

fn loop_no(b: &Block) -> Option<usize> {
    if let Some(Stmt::Macro(m)) = b.stmts.first() { if mac_name(&m.mac) == "vx_loop" { return m.mac.tokens.to_string().replace("usize", "").trim().parse().ok() } }
    None
}

struct ForK<'d>(Vec<usize>, &'d FnDir);
impl<'a, 'd> Visit<'a> for ForK<'d> {
    fn visit_expr_loop(&mut self, e: &'a syn::ExprLoop) {
        if let Some(k) = loop_no(&e.body) { if !self.1.opts.iter().any(|o| o == &format!("own-iter {}", k)) && e.body.stmts.len() == 2 && norm(&e.body.stmts[1]).starts_with(&format!("match vx_it{}.vx_next()", k)) { self.0.push(k) } }
        syn::visit::visit_expr_loop(self, e)
    }
}
struct Hints<'h> { at: &'h BTreeMap<String, usize>, cur: Vec<usize>, vac_loop: Option<usize> }
impl<'h> Hints<'h> {
    fn m(&self, k: &str) -> Option<Stmt> { self.at.get(k).map(|n| { let n = proc_macro2::Literal::usize_unsuffixed(*n); parse_quote!(vx_hint!(#n);) }) }
    fn annotate(&mut self, b: &mut Block, k: usize) {
        // body of a `for`-derived loop is inside the match arm
        b.stmts.remove(0);
        self.cur.push(k);
        visit_mut::visit_block_mut(self, b);
        self.cur.pop();
        let start = self.m(&format!("loop {} start", k));
        let end = self.m(&format!("loop {} end", k));
        let isfor = b.stmts.len() == 1 && matches!(&b.stmts[0], Stmt::Expr(Expr::Match(m), _) if norm(&m.expr).ends_with(".vx_next()"));
        let vac = self.vac_loop.map(|n| -> Stmt { let n = proc_macro2::Literal::usize_unsuffixed(n); parse_quote!(vx_hint!(#n);) });
        {
            let inner: &mut Block = if isfor {
                if let Stmt::Expr(Expr::Match(m), _) = &mut b.stmts[0] { if let Expr::Block(bb) = &mut *m.arms[0].body { &mut bb.block } else { unreachable!() } } else { unreachable!() }
            } else { &mut *b };
            if let Some(s) = start { inner.stmts.insert(0, s) }
            if let Some(s) = vac { inner.stmts.insert(0, s) }
            if let Some(s) = end {
                if let Some(Stmt::Expr(_, semi)) = inner.stmts.last_mut() { if semi.is_none() { *semi = Some(Default::default()) } }
                inner.stmts.push(s)
            }
        }
        if isfor {
            let h = self.m(&format!("loop {} next", k));
            if let Some(s) = h { b.stmts.insert(0, s) }
            if let Some(s) = self.m(&format!("loop {} exit", k)) {
                let last = b.stmts.len() - 1;
                if let Stmt::Expr(Expr::Match(m), _) = &mut b.stmts[last] { m.arms[1].body = parse_quote!({ #s break }) }
            }
        }
        if let Some(n) = self.at.get(&format!("loop {} spec", k)) { let n = proc_macro2::Literal::usize_unsuffixed(*n); b.stmts.insert(0, parse_quote!(vx_loopspec!(#n);)) }
    }
}
impl<'h> VisitMut for Hints<'h> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        match e {
            Expr::Loop(l) => { if let Some(k) = loop_no(&l.body) { self.annotate(&mut l.body, k); return } }
            Expr::While(l) => { if let Some(k) = loop_no(&l.body) { visit_mut::visit_expr_mut(self, &mut l.cond); self.annotate(&mut l.body, k); return } }
            Expr::Block(b) if b.block.stmts.len() == 2 && norm(&b.block.stmts[0]).starts_with("let mut vx_it") => {
                let t = norm(&b.block.stmts[0]);
                let k: usize = t["let mut vx_it".len()..].split('=').next().unwrap().trim().parse().unwrap();
                visit_mut::visit_expr_mut(self, e);
                if let Some(s) = self.m(&format!("loop {} init", k)) { if let Expr::Block(b) = e { b.block.stmts.insert(1, s) } }
                return;
            }
            Expr::Continue(_) => {
                if let Some(k) = self.cur.last() { if let Some(s) = self.m(&format!("loop {} end", k)) { *e = parse_quote!({ #s continue }); } }
                return;
            }
            Expr::Return(r) => {
                if let Some(x) = &mut r.expr { self.visit_expr_mut(x) }
                if let Some(s) = self.m("return") {
                    *e = match &r.expr { Some(x) => parse_quote!({ let vx_ret = #x; #s return vx_ret; }), None => parse_quote!({ #s return; }) };
                }
                return;
            }
            Expr::Closure(_) => return,
            _ => {}
        }
        visit_mut::visit_expr_mut(self, e)
    }
    fn visit_item_mut(&mut self, _: &mut syn::Item) {}
}

struct StmtHints { pats: Vec<(bool, String, usize, usize, usize)> } // before?, pattern, occurrence, hint, seen
impl VisitMut for StmtHints {
    fn visit_block_mut(&mut self, b: &mut Block) {
        let mut out: Vec<Stmt> = vec![];
        for mut s in std::mem::take(&mut b.stmts) {
            let t = norm(&s);
            let (mut bef, mut aft) = (vec![], vec![]);
            for p in self.pats.iter_mut() {
                if t.starts_with(&p.1) {
                    if p.4 == p.2 { if p.0 { bef.push(p.3) } else { aft.push(p.3) } }
                    p.4 += 1;
                }
            }
            for n in bef { let n = proc_macro2::Literal::usize_unsuffixed(n); out.push(parse_quote!(vx_hint!(#n);)) }
            visit_mut::visit_stmt_mut(self, &mut s);
            if !aft.is_empty() { if let Stmt::Expr(_, semi) = &mut s { if semi.is_none() { *semi = Some(Default::default()) } } }
            out.push(s);
            for n in aft { let n = proc_macro2::Literal::usize_unsuffixed(n); out.push(parse_quote!(vx_hint!(#n);)) }
        }
        b.stmts = out;
    }
    fn visit_item_mut(&mut self, _: &mut syn::Item) {}
}

struct Methods<'m>(&'m [(String, String)]);
impl<'m> VisitMut for Methods<'m> {
    fn visit_expr_method_call_mut(&mut self, m: &mut syn::ExprMethodCall) {
        visit_mut::visit_expr_method_call_mut(self, m);
        let n = m.method.to_string();
        if let Some((_, b)) = self.0.iter().find(|(a, _)| *a == n) { m.method = Ident::new(b, Span::call_site()); m.turbofish = None }
    }
}

// ---------------------------------------------------------------- token replacement
fn lex(s: &str) -> R<Vec<TokenTree>> { s.parse::<TokenStream>().map(|t| t.into_iter().collect()).map_err(|e| format!("template: cannot lex `{}`: {}", s, e)) }

fn tmatch(pat: &[TokenTree], src: &[TokenTree], b: &mut BTreeMap<String, TokenStream>) -> Option<usize> {
    let (mut i, mut j) = (0, 0);
    while i < pat.len() {
        if let TokenTree::Punct(p) = &pat[i] { if p.as_char() == '$' {
            if let Some(TokenTree::Ident(n)) = pat.get(i + 1) {
                let t = src.get(j)?;
                b.insert(n.to_string(), t.clone().into());
                i += 2; j += 1; continue;
            }
        } }
        let t = src.get(j)?;
        match (&pat[i], t) {
            (TokenTree::Group(a), TokenTree::Group(c)) => {
                if a.delimiter() != c.delimiter() { return None }
                let (pa, pc): (Vec<_>, Vec<_>) = (a.stream().into_iter().collect(), c.stream().into_iter().collect());
                if pa.len() == 2 { if let (TokenTree::Punct(p), TokenTree::Ident(n)) = (&pa[0], &pa[1]) { if p.as_char() == '$' {
                    b.insert(n.to_string(), c.stream()); i += 1; j += 1; continue;
                } } }
                if tmatch(&pa, &pc, b)? != pc.len() { return None }
            }
            (TokenTree::Group(_), _) | (_, TokenTree::Group(_)) => return None,
            (a, c) => if a.to_string() != c.to_string() { return None },
        }
        i += 1; j += 1;
    }
    Some(j)
}
fn subst(r: &[TokenTree], b: &BTreeMap<String, TokenStream>) -> TokenStream {
    let mut out = TokenStream::new();
    let mut i = 0;
    while i < r.len() {
        if let TokenTree::Punct(p) = &r[i] { if p.as_char() == '$' { if let Some(TokenTree::Ident(n)) = r.get(i + 1) { if let Some(t) = b.get(&n.to_string()) { out.extend(t.clone()); i += 2; continue } } } }
        match &r[i] {
            TokenTree::Group(g) => { let inner: Vec<_> = g.stream().into_iter().collect(); out.extend([TokenTree::Group(Group::new(g.delimiter(), subst(&inner, b)))]) }
            t => out.extend([t.clone()]),
        }
        i += 1;
    }
    out
}
pub fn treplace(ts: TokenStream, pat: &[TokenTree], rep: &[TokenTree]) -> TokenStream {
    let v: Vec<TokenTree> = ts.into_iter().map(|t| match t { TokenTree::Group(g) => TokenTree::Group(Group::new(g.delimiter(), treplace(g.stream(), pat, rep))), t => t }).collect();
    let mut out = TokenStream::new();
    let mut i = 0;
    while i < v.len() {
        let mut b = BTreeMap::new();
        match tmatch(pat, &v[i..], &mut b) {
            Some(n) if n > 0 => { out.extend(subst(rep, &b)); i += n }
            _ => { out.extend([v[i].clone()]); i += 1 }
        }
    }
    out
}

fn calls(ts: TokenStream, out: &mut BTreeSet<String>) {
    let v: Vec<TokenTree> = ts.into_iter().collect();
    for i in 0..v.len() {
        match &v[i] {
            TokenTree::Ident(id) => if let Some(TokenTree::Group(g)) = v.get(i + 1) { if g.delimiter() == Delimiter::Parenthesis { out.insert(id.to_string()); } },
            TokenTree::Group(g) => calls(g.stream(), out),
            _ => {}
        }
    }
}

struct CountClosures(usize);
impl<'a> Visit<'a> for CountClosures { fn visit_expr_closure(&mut self, e: &'a syn::ExprClosure) { self.0 += 1; syn::visit::visit_expr_closure(self, e) } }
/// What the loops of a function begin with, in order.
struct CountLoops(Vec<String>);
fn no_digits(s: String) -> String { s.chars().filter(|c| !c.is_ascii_digit()).collect() }
impl<'a> Visit<'a> for CountLoops {
    fn visit_expr_for_loop(&mut self, e: &'a syn::ExprForLoop) { self.0.push(no_digits(format!("for {} in {}", norm(&e.pat), norm(&e.expr)))); syn::visit::visit_expr_for_loop(self, e) }
    fn visit_expr_while(&mut self, e: &'a syn::ExprWhile) { self.0.push(no_digits(format!("while {}", norm(&e.cond)))); syn::visit::visit_expr_while(self, e) }
    fn visit_expr_loop(&mut self, e: &'a syn::ExprLoop) { self.0.push(no_digits(format!("loop {}", e.body.stmts.first().map_or(String::new(), |s| norm(s))))); syn::visit::visit_expr_loop(self, e) }
}
/// The numbers the annotations know the loops by: those of the recorded loops they correspond to, and new ones for new loops.
fn loop_ids(old: &[String], new: &[String]) -> Vec<usize> {
    if old.len() == new.len() { return (0..new.len()).collect() }
    let (n, m) = (old.len(), new.len());
    let mut t = vec![vec![0usize; m + 1]; n + 1];
    for i in (0..n).rev() { for j in (0..m).rev() { t[i][j] = if old[i] == new[j] { t[i + 1][j + 1] + 1 } else { t[i + 1][j].max(t[i][j + 1]) } } }
    let mut ids: Vec<Option<usize>> = vec![None; m];
    let (mut i, mut j) = (0, 0);
    while i < n && j < m { if old[i] == new[j] { ids[j] = Some(i); i += 1; j += 1 } else if t[i + 1][j] >= t[i][j + 1] { i += 1 } else { j += 1 } }
    // what is left between them, in order, where the kind of loop is the same
    let kind = |s: &String| s.split(' ').next().unwrap_or("").to_string();
    for j in 0..m {
        if ids[j].is_some() { continue }
        let lo = ids[..j].iter().rev().filter_map(|x| *x).next().map_or(0, |x| x + 1);
        let hi = ids[j..].iter().filter_map(|x| *x).next().unwrap_or(n);
        if let Some(i) = (lo..hi).find(|i| kind(&old[*i]) == kind(&new[j])) { ids[j] = Some(i) }
    }
    ids.iter().enumerate().map(|(j, x)| x.unwrap_or(n + j)).collect()
}

/// Is there an executable function with this name in the template?
fn exec_fn(tpl: &str, name: &str) -> bool {
    let pat = format!("fn {}", name);
    tpl.match_indices(&pat).any(|(i, _)| {
        let next = tpl[i + pat.len()..].chars().next().unwrap_or(' ');
        let line = tpl[..i].rsplit('\n').next().unwrap_or("");
        let before = line.rsplit(|c: char| c == ';' || c == '}' || c == '{').next().unwrap_or("").trim();
        !next.is_alphanumeric() && next != '_' && !before.split_whitespace().any(|w| w == "spec" || w == "proof" || w == "axiom")
    })
}

/// `//@opt drops M`: what M returns is dropped with a call of its `drop`, where Rust does it by itself:
/// a binding at the end of its block (or at `drop(x)`), a temporary after the call it's made for.
struct Drops<'m> { m: &'m str, err: bool }
impl<'m> Drops<'m> {
    fn made(&self, e: &Expr) -> bool { matches!(peel(e), Expr::MethodCall(c) if c.method == self.m) }
}
impl<'m> VisitMut for Drops<'m> {
    fn visit_block_mut(&mut self, b: &mut Block) {
        visit_mut::visit_block_mut(self, b);
        let mut k = 0;
        while k < b.stmts.len() {
            let name = match &b.stmts[k] {
                Stmt::Local(l) => match (&l.pat, &l.init) { (Pat::Ident(p), Some(i)) if self.made(&i.expr) => Some(p.ident.clone()), _ => None },
                _ => None,
            };
            k += 1;
            let x = match name { Some(x) => x, None => continue };
            let (mut r, mut given) = (HasReturn(false), None);
            for (j, s) in b.stmts.iter().enumerate().skip(k) {
                r.visit_stmt(s);
                if let Stmt::Expr(Expr::Call(c), _) = s { if c.args.len() == 1 && norm(&c.args[0]) == x.to_string() && norm(&c.func).rsplit("::").next() == Some("drop") { given = Some(j) } }
            }
            if r.0 { self.err = true }
            if let Stmt::Local(l) = &mut b.stmts[k - 1] { l.pat = parse_quote!(mut #x) }
            if let Some(j) = given { b.stmts[j] = parse_quote!(#x.drop();); continue }
            match b.stmts.pop() {
                Some(Stmt::Expr(e, None)) => { b.stmts.push(parse_quote!(let vx_d = #e;)); b.stmts.push(parse_quote!(#x.drop();)); b.stmts.push(Stmt::Expr(parse_quote!(vx_d), None)); }
                Some(s) => { b.stmts.push(s); b.stmts.push(parse_quote!(#x.drop();)) }
                None => {}
            }
        }
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if let Expr::MethodCall(m) = e { if self.made(&m.receiver) {
            let (r, n, a) = (&m.receiver, &m.method, &m.args);
            *e = parse_quote!({ let mut vx_b = #r; let vx_d = vx_b.#n(#a); vx_b.drop(); vx_d });
        } }
    }
    fn visit_item_mut(&mut self, _: &mut syn::Item) {}
}

/// `//@opt eq`: a comparison with == or != is one with `eq`.
struct EqCalls;
impl VisitMut for EqCalls {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        let b = if let Expr::Binary(b) = e { b } else { return };
        let ne = match b.op { syn::BinOp::Eq(_) => false, syn::BinOp::Ne(_) => true, _ => return };
        let side = |x: &Expr| -> Expr { match peel(x) { Expr::Unary(syn::ExprUnary { op: syn::UnOp::Deref(_), expr, .. }) => (**expr).clone(), x @ Expr::Field(_) | x @ Expr::Index(_) => parse_quote!(&#x), x => x.clone() } };
        let (l, r) = (side(&b.left), side(&b.right));
        let l: Expr = if let Expr::Reference(x) = l { (*x.expr).clone() } else { l };
        *e = if ne { parse_quote!((!#l.eq(#r))) } else { parse_quote!(#l.eq(#r)) };
    }
    fn visit_item_mut(&mut self, _: &mut syn::Item) {}
}
/// `|_| e` takes a named argument.
struct WildArgs(usize);
impl VisitMut for WildArgs {
    fn visit_expr_closure_mut(&mut self, c: &mut syn::ExprClosure) {
        visit_mut::visit_expr_closure_mut(self, c);
        for p in c.inputs.iter_mut() { if let Pat::Wild(_) = p { let i = quote::format_ident!("vx_w{}", self.0); self.0 += 1; *p = parse_quote!(#i) } }
    }
    fn visit_item_mut(&mut self, _: &mut syn::Item) {}
}

pub fn emit_fn(f: &FnItem, d: &FnDir, key: &str, base: Option<&Value>, repo_fns: &BTreeSet<String>, table: &crate::inline::Table, tpl: &str, opts: &Opts) -> R<(String, Value)> {
    let mut block = f.block.clone();
    let body_norm = norm(&block);
    let sig_norm = norm(&f.sig);
    // put back what was extracted since the annotations were written
    let mut inlined = 0;
    if let Some(b) = base { if b["body"] != json!(body_norm) {
        let old: BTreeSet<String> = b["calls"].as_array().map(|a| a.iter().map(|x| x.as_str().unwrap().to_string()).collect()).unwrap_or_default();
        let unknown = |n: &str| !old.contains(n) && !exec_fn(tpl, n);
        let st = d.selfty.split('<').next().unwrap().rsplit("::").next().unwrap().to_string();
        let mut il = crate::inline::Inline { table, selfty: &st, unknown: &unknown, done: 0, depth: 0 };
        il.visit_fn_block(&mut block, true);
        let mut cl = crate::inline::Closures(0, &|n| !old.contains(n));
        cl.visit_block_mut(&mut block);
        inlined = il.done + cl.0;
    } }
    // drop statements without effect
    let mut counts = BTreeMap::new();
    ident_counts(block.to_token_stream(), &mut counts);
    Noop(counts).visit_block_mut(&mut block);
    if let Some(b) = base { if b["body"] != json!(body_norm) { Shapes(b["body"].as_str().unwrap_or("")).visit_block_mut(&mut block) } }
    for o in &d.opts { if let Some(o) = o.strip_prefix("lift ") {
        let (m, call) = o.split_once(' ').ok_or("template: lift")?;
        let mut l = Lift(m, syn::parse_str(call).map_err(|e| format!("template: {}", e))?, 0);
        l.visit_block_mut(&mut block);
        if l.2 != 1 { return Err(format!("lost anchor: closure for `{}` in {}", m, key)) }
    } }
    let mut bd = Binders(vec![]);
    for i in &f.sig.inputs { if let syn::FnArg::Typed(t) = i { bd.visit_pat(&t.pat) } }
    bd.visit_block(&block);
    let locals = bd.0;
    // alpha-rename to the names the annotations use
    let mut renamed = false;
    if let Some(b) = base {
        let want: Vec<String> = b["locals"].as_array().map(|a| a.iter().map(|x| x.as_str().unwrap().to_string()).collect()).unwrap_or_default();
        if want != locals && want.len() == locals.len() {
            let mut m: BTreeMap<String, String> = BTreeMap::new();
            let mut inv: BTreeMap<String, String> = BTreeMap::new();
            let mut ok = true;
            for (a, w) in locals.iter().zip(&want) {
                if m.get(a).map_or(false, |x| x != w) || inv.get(w).map_or(false, |x| x != a) { ok = false }
                m.insert(a.clone(), w.clone()); inv.insert(w.clone(), a.clone());
            }
            if ok { Rename(&m).visit_block_mut(&mut block); renamed = true }
        }
    }
    for o in &d.opts { if let Some(m) = o.strip_prefix("drops ") {
        let mut x = Drops { m, err: false };
        x.visit_block_mut(&mut block);
        if x.err { return Err(format!("{}: leaves before what `{}` gave is dropped", key, m)) }
    } }
    if d.opts.iter().any(|o| o == "ranges") { Ranges.visit_block_mut(&mut block) }
    let mut p = Pass { d, n: 0, err: None };
    p.visit_block_mut(&mut block);
    if let Some(e) = p.err { return Err(format!("{}: {}", key, e)) }
    WildArgs(0).visit_block_mut(&mut block);
    if d.opts.iter().any(|o| o == "eq") { EqCalls.visit_block_mut(&mut block) }
    VecBack.visit_block_mut(&mut block);
    RefPat { on: !d.opts.iter().any(|o| o == "keep-ref") }.visit_block_mut(&mut block);
    let mut cl = CountLoops(vec![]);
    cl.visit_block(&block);
    let heads = cl.0;
    let nloops = heads.len();
    // annotations without a place: the function must do without them, or is lost (check.py)
    let mut thin: Vec<String> = vec![];
    let mut ids: Vec<usize> = (0..nloops).collect();
    if let Some(b) = base {
        let old: Vec<String> = b["heads"].as_array().map(|a| a.iter().map(|x| x.as_str().unwrap().to_string()).collect()).unwrap_or_default();
        if old.len() != nloops { thin.push(format!("lost anchor: {} has {} loops, the annotations are written for {}", key, nloops, old.len())) }
        ids = loop_ids(&old, &heads);
    }
    ForLoops { n: 0, ids: &ids, d }.visit_block_mut(&mut block);

    let mut nc = CountClosures(0);
    nc.visit_block(&block);
    let nclosures = nc.0;
    if let Some(b) = base { if b["body"] != json!(body_norm) && nclosures as u64 > b["closures"].as_u64().unwrap_or(99) { return Err(format!("lost anchor: {} has closures without a contract", key)) } }

    // annotations
    let mut texts: Vec<String> = vec![];
    let mut at: BTreeMap<String, usize> = BTreeMap::new();
    let mut sh = StmtHints { pats: vec![] };
    for (pos, txt) in &d.hints {
        texts.push(txt.clone());
        let n = texts.len() - 1;
        if pos.starts_with("before ") || pos.starts_with("after ") {
            let before = pos.starts_with("before ");
            let rest = pos.splitn(2, ' ').nth(1).unwrap().trim();
            let (pat, occ) = match rest.rsplit_once(" #") { Some((a, b)) if b.trim().parse::<usize>().is_ok() => (a, b.trim().parse().unwrap()), _ => (rest, 0) };
            sh.pats.push((before, print::flat(pat.parse::<TokenStream>().map_err(|e| format!("template: {} {}", pat, e))?), occ, n, 0));
        } else { at.insert(pos.clone(), n); }
    }
    // a `for` loop ends because its iterator does
    let mut fk = ForK(vec![], d);
    fk.visit_block(&block);
    for k in fk.0 {
        let key = format!("loop {} spec", k);
        let dec = format!("    decreases vx_it{}@.len(),\n", k);
        match at.get(&key) {
            Some(n) => if !texts[*n].contains("decreases") { texts[*n].push_str(&dec) },
            None => { texts.push(dec); at.insert(key, texts.len() - 1); }
        }
    }
    sh.visit_block_mut(&mut block);
    for p in &sh.pats { if p.4 <= p.2 { let e = format!("lost anchor: statement `{}` in {}", p.1, key); if base.is_some() { thin.push(e) } else { return Err(e) } } }
    let vac_loop = if opts.vacuity == "loop" { texts.push("assert(false);".into()); Some(texts.len() - 1) } else { None };
    Hints { at: &at, cur: vec![], vac_loop }.visit_block_mut(&mut block);
    // return / end-of-body hint
    if let Some(n) = at.get("return") {
        let n = proc_macro2::Literal::usize_unsuffixed(*n);
        let h: Stmt = parse_quote!(vx_hint!(#n););
        match block.stmts.pop() {
            Some(Stmt::Expr(e, None)) => { block.stmts.push(parse_quote!(let vx_ret = #e;)); block.stmts.push(h); block.stmts.push(Stmt::Expr(parse_quote!(vx_ret), None)) }
            Some(s) => { let ret = matches!(&s, Stmt::Expr(Expr::Return(_), _)) ; block.stmts.push(s); if !ret { block.stmts.push(h) } }
            None => block.stmts.push(h),
        }
    }
    if let Some(n) = at.get("entry") { let n = proc_macro2::Literal::usize_unsuffixed(*n); block.stmts.insert(0, parse_quote!(vx_hint!(#n);)) }
    if opts.vacuity == "entry" { texts.push("assert(false);".into()); let n = proc_macro2::Literal::usize_unsuffixed(texts.len() - 1); block.stmts.insert(0, parse_quote!(vx_hint!(#n);)) }
    for k in at.keys() { if let Some(r) = k.strip_prefix("loop ") { let n: usize = r.split(' ').next().unwrap().parse().map_err(|_| format!("template: bad position {}", k))?; if n >= nloops && thin.is_empty() { return Err(format!("lost anchor: loop {} of {}", n, key)) } } }
    Methods(&d.methods).visit_block_mut(&mut block);
    let mut ts = block.to_token_stream();
    for (a, b) in &d.toks { ts = treplace(ts, &lex(a)?, &lex(b)?) }
    let mut cs = BTreeSet::new();
    calls(ts.clone(), &mut cs);
    if let Some(b) = base {
        let old: BTreeSet<String> = b["calls"].as_array().map(|a| a.iter().map(|x| x.as_str().unwrap().to_string()).collect()).unwrap_or_default();
        for c in &cs {
            // of std, with vstd's contract, unless the crate's is defined in the template
            if matches!(c.as_str(), "as_mut" | "as_ref" | "is_empty" | "len" | "take" | "get" | "insert") { continue }
            if !old.contains(c) && repo_fns.contains(c) && !tpl.contains(&format!("fn {}", c)) { return Err(format!("lost anchor: {} now calls `{}`, which is not under contract in this unit", key, c)) }
        }
    }
    let mut out = String::new();
    for a in &d.attrs { out.push_str(a); out.push('\n') }
    out.push_str(&d.sig); out.push('\n');
    out.push_str(&d.spec);
    out.push_str(&print::pretty(ts, &texts));
    let info = json!({"thin": thin, "heads": heads, "locals": locals, "loops": nloops, "closures": nclosures, "calls": cs, "body": body_norm, "sig": sig_norm, "renamed": renamed, "inlined": inlined,
        "changed": base.map_or(false, |b| b["body"] != json!(body_norm)), "sig_changed": base.map_or(false, |b| b["sig"] != json!(sig_norm)) });
    Ok((out, info))
}

struct PubFields { private_ok: bool }
impl VisitMut for PubFields {
    fn visit_field_mut(&mut self, f: &mut syn::Field) { f.attrs.clear(); if !self.private_ok { f.vis = parse_quote!(pub) } }
    fn visit_fields_unnamed_mut(&mut self, f: &mut syn::FieldsUnnamed) { visit_mut::visit_fields_unnamed_mut(self, f) }
    fn visit_variant_mut(&mut self, v: &mut syn::Variant) {
        v.attrs.clear();
        for f in v.fields.iter_mut() { f.attrs.clear(); f.vis = syn::Visibility::Inherited }
    }
}

pub fn emit_item(mut it: syn::Item, d: &ItemDir) -> R<String> {
    if let Some(o) = d.opts.iter().find(|o| o.starts_with("derives ")) {
        let attrs = match &it { syn::Item::Struct(s) => &s.attrs, syn::Item::Enum(s) => &s.attrs, _ => return Err("template: derives".into()) };
        let mut have: Vec<String> = vec![];
        for a in attrs { if a.path().is_ident("derive") { have.extend(norm(a).split(|c: char| !c.is_alphanumeric()).map(String::from)) } }
        for w in o[8..].split_whitespace() { if !have.iter().any(|h| h == w) { return Err(format!("lost anchor: {} no longer derives {}", d.name, w)) } }
    }
    match &mut it {
        syn::Item::Struct(s) => { s.attrs.clear(); s.vis = parse_quote!(pub);
            for f in s.fields.iter() { if f.attrs.iter().any(|a| norm(a).contains("not(feature")) { return Err("unsupported item cfg".into()) } }
            PubFields { private_ok: false }.visit_item_struct_mut(s) }
        syn::Item::Enum(s) => { s.attrs.clear(); s.vis = parse_quote!(pub); PubFields { private_ok: true }.visit_item_enum_mut(s) }
        syn::Item::Const(s) => { s.attrs.clear(); s.vis = parse_quote!(pub) }
        syn::Item::Type(s) => { s.attrs.clear(); s.vis = parse_quote!(pub) }
        syn::Item::Macro(m) => m.attrs.clear(),
        _ => {}
    }
    let mut ts = it.to_token_stream();
    if !d.expect.is_empty() && print::flat(ts.clone()) != print::flat(d.expect.parse().map_err(|_| "template: bad expect".to_string())?) {
        return Err(format!("lost anchor: definition of {} changed", d.name));
    }
    for (a, b) in &d.toks { ts = treplace(ts, &lex(a)?, &lex(b)?) }
    if d.opts.iter().any(|o| o == "check-only") { return Ok(format!("// {}", print::flat(ts))) }
    let mut out = String::new();
    for a in &d.attrs { out.push_str(a); out.push('\n') }
    out.push_str(&print::pretty(ts, &[]));
    Ok(out)
}
