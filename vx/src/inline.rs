//! Helpers that the contracts don't know (a function that was extracted, a local closure) are put back where they are called.
use std::collections::BTreeMap;

use proc_macro2::{Ident, TokenStream, TokenTree, Group};
use quote::ToTokens;
use syn::visit::{self, Visit};
use syn::visit_mut::{self, VisitMut};
use syn::{parse_quote, Block, Expr, Pat, Stmt};

use crate::FnItem;

/// Every function of the crate by name; `owner` is the self type of an inherent method, "-" for a free function, None for anything else.
pub struct Known { pub owner: Option<String>, pub item: FnItem }
pub type Table = BTreeMap<String, Vec<Known>>;

struct Count<'a> { name: &'a str, calls: usize, other: usize }
fn count_tokens(ts: TokenStream, name: &str) -> usize {
    ts.into_iter().map(|t| match t { TokenTree::Ident(i) => (i == name) as usize, TokenTree::Group(g) => count_tokens(g.stream(), name), _ => 0 }).sum()
}
impl<'a, 'b> Visit<'b> for Count<'a> {
    fn visit_expr_call(&mut self, c: &'b syn::ExprCall) {
        if let Expr::Path(p) = &*c.func { if p.path.is_ident(self.name) { self.calls += 1; for a in &c.args { visit::visit_expr(self, a) } return } }
        visit::visit_expr_call(self, c)
    }
    fn visit_expr_path(&mut self, p: &'b syn::ExprPath) { if p.path.is_ident(self.name) { self.other += 1 } }
    fn visit_macro(&mut self, m: &'b syn::Macro) { self.other += count_tokens(m.tokens.clone(), self.name) }
}

/// Something that leaves the function early?
struct Leaves(bool);
impl<'a> Visit<'a> for Leaves {
    fn visit_expr_return(&mut self, _: &'a syn::ExprReturn) { self.0 = true }
    fn visit_expr_try(&mut self, _: &'a syn::ExprTry) { self.0 = true }
    fn visit_macro(&mut self, m: &'a syn::Macro) { if m.path.is_ident("vx_try") || m.path.is_ident("try") || count_tokens(m.tokens.clone(), "return") > 0 { self.0 = true } }
    fn visit_expr_closure(&mut self, _: &'a syn::ExprClosure) {}
    fn visit_item(&mut self, _: &'a syn::Item) {}
}
fn leaves(b: &Block) -> bool { let mut l = Leaves(false); l.visit_block(b); l.0 }

struct Subst<'a>(&'a BTreeMap<String, Expr>);
impl<'a> Subst<'a> {
    fn toks(&self, ts: TokenStream) -> TokenStream {
        ts.into_iter().map(|t| match t {
            TokenTree::Ident(i) => match self.0.get(&i.to_string()) { Some(e) => { let e = e.to_token_stream(); let mut v: Vec<_> = e.clone().into_iter().collect(); if v.len() == 1 { v.pop().unwrap() } else { TokenTree::Group(Group::new(proc_macro2::Delimiter::Parenthesis, e)) } } None => TokenTree::Ident(i) },
            TokenTree::Group(g) => TokenTree::Group(Group::new(g.delimiter(), self.toks(g.stream()))),
            o => o,
        }).collect()
    }
}
impl<'a> VisitMut for Subst<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Path(p) = e { if let Some(i) = p.path.get_ident() { if let Some(x) = self.0.get(&i.to_string()) { *e = x.clone(); return } } }
        visit_mut::visit_expr_mut(self, e)
    }
    fn visit_field_value_mut(&mut self, f: &mut syn::FieldValue) {
        if f.colon_token.is_none() { f.colon_token = Some(Default::default()) }
        visit_mut::visit_field_value_mut(self, f)
    }
    fn visit_macro_mut(&mut self, m: &mut syn::Macro) { m.tokens = self.toks(m.tokens.clone()) }
}

fn binders(ts: TokenStream, block: &Block) -> Vec<String> {
    let _ = ts;
    struct B(Vec<String>);
    impl<'a> Visit<'a> for B { fn visit_pat_ident(&mut self, p: &'a syn::PatIdent) { self.0.push(p.ident.to_string()); visit::visit_pat_ident(self, p) } }
    let mut b = B(vec![]);
    b.visit_block(block);
    b.0
}

/// Is this a place or a constant, that is the same wherever it's written?
fn plain(e: &Expr) -> bool {
    match e {
        Expr::Path(p) => p.path.get_ident().is_some(),
        Expr::Field(f) => plain(&f.base),
        Expr::Lit(_) => true,
        Expr::Paren(p) => plain(&p.expr),
        _ => false,
    }
}

/// The body with the arguments in place of the parameters.
fn instantiate(params: &[(Pat, Expr)], recv: Option<&Expr>, body: &Block) -> Option<Expr> {
    let mut body = body.clone();
    let bound = binders(TokenStream::new(), &body);
    let mut map: BTreeMap<String, Expr> = BTreeMap::new();
    let (mut lets_p, mut lets_e): (Vec<Pat>, Vec<Expr>) = (vec![], vec![]);
    for (p, a) in params {
        let id = match p { Pat::Ident(i) if i.subpat.is_none() && i.by_ref.is_none() => Some((i.ident.to_string(), i.mutability.is_some())), Pat::Wild(_) => { lets_p.push(parse_quote!(_)); lets_e.push(a.clone()); continue } _ => None };
        let inner = match a { Expr::Reference(r) => &*r.expr, e => e };
        let names: Vec<String> = { let mut v = vec![]; fn go(ts: TokenStream, v: &mut Vec<String>) { for t in ts { match t { TokenTree::Ident(i) => v.push(i.to_string()), TokenTree::Group(g) => go(g.stream(), v), _ => {} } } } go(inner.to_token_stream(), &mut v); v };
        let free = !names.iter().any(|n| bound.contains(n));
        match id {
            Some((n, false)) if plain(inner) && free && !bound.contains(&n) => { let e = if matches!(a, Expr::Reference(_)) { parse_quote!((#a)) } else { a.clone() }; map.insert(n, e); }
            _ => { lets_p.push(p.clone()); lets_e.push(a.clone()); }
        }
    }
    if let Some(r) = recv { if r.to_token_stream().to_string() != "self" { return None } }
    Subst(&map).visit_block_mut(&mut body);
    let st: Option<Stmt> = match lets_p.len() { 0 => None, 1 => { let (p, e) = (&lets_p[0], &lets_e[0]); Some(parse_quote!(let #p = #e;)) } _ => Some(parse_quote!(let (#(#lets_p),*) = (#(#lets_e),*);)) };
    if let Some(s) = st { body.stmts.insert(0, s) }
    if body.stmts.len() == 1 { if let Stmt::Expr(e, None) = &body.stmts[0] { return Some(match e { Expr::Path(_) | Expr::MethodCall(_) | Expr::Call(_) | Expr::Field(_) | Expr::Lit(_) | Expr::Macro(_) | Expr::Paren(_) => e.clone(), e => parse_quote!((#e)) }) } }
    Some(Expr::Block(syn::ExprBlock { attrs: vec![], label: None, block: body }))
}

pub struct Inline<'a> { pub table: &'a Table, pub selfty: &'a str, pub unknown: &'a dyn Fn(&str) -> bool, pub done: usize, pub depth: usize }
impl<'a> Inline<'a> {
    fn helper(&self, name: &str, owner: &str) -> Option<&'a FnItem> {
        if !(self.unknown)(name) { return None }
        let v = self.table.get(name)?;
        if v.len() != 1 { return None }
        if v[0].owner.as_ref().map(|s| s.as_str()) != Some(owner) { return None }
        Some(&v[0].item)
    }
    fn expand(&mut self, e: &Expr, tail: bool) -> Option<Expr> {
        if self.depth >= 4 { return None }
        let (f, args, recv) = match e {
            Expr::MethodCall(m) if m.receiver.to_token_stream().to_string() == "self" => (self.helper(&m.method.to_string(), self.selfty)?, &m.args, Some(&*m.receiver)),
            Expr::Call(c) => match &*c.func {
                Expr::Path(p) if p.qself.is_none() => {
                    let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                    let f = match segs.len() {
                        1 => self.helper(&segs[0], "-")?,
                        2 if segs[0] == "Self" || segs[0] == self.selfty => self.helper(&segs[1], self.selfty)?,
                        _ => return None,
                    };
                    (f, &c.args, None)
                }
                _ => return None,
            },
            _ => return None,
        };
        if !tail && leaves(&f.block) { return None }
        let mut params = vec![];
        let mut it = args.iter();
        let mut recv_seen = false;
        for i in &f.sig.inputs {
            match i {
                syn::FnArg::Receiver(_) => { if recv.is_none() { return None } recv_seen = true }
                syn::FnArg::Typed(t) => params.push(((*t.pat).clone(), it.next()?.clone())),
            }
        }
        if it.next().is_some() || recv.is_some() != recv_seen { return None }
        let mut b = f.block.clone();
        if count_tokens(b.to_token_stream(), &f.sig.ident.to_string()) > 0 { return None }
        self.depth += 1;
        self.visit_fn_block(&mut b, tail);
        self.depth -= 1;
        instantiate(&params, recv, &b)
    }
    /// The last expression of a function may leave it.
    pub fn visit_fn_block(&mut self, b: &mut Block, tail: bool) {
        let n = b.stmts.len();
        for (i, s) in b.stmts.iter_mut().enumerate() {
            match s {
                Stmt::Expr(e, None) if i + 1 == n && tail => self.tail_expr(e),
                s => self.visit_stmt_mut(s),
            }
        }
    }
    fn tail_expr(&mut self, e: &mut Expr) {
        match e {
            Expr::Block(b) => self.visit_fn_block(&mut b.block, true),
            Expr::If(i) => { self.visit_expr_mut(&mut i.cond); self.visit_fn_block(&mut i.then_branch, true); if let Some((_, x)) = &mut i.else_branch { self.tail_expr(x) } }
            Expr::Match(m) => { self.visit_expr_mut(&mut m.expr); for a in &mut m.arms { self.tail_expr(&mut a.body) } }
            Expr::MethodCall(_) | Expr::Call(_) => {
                visit_mut::visit_expr_mut(self, e);
                if let Some(x) = self.expand(e, true) { *e = x; self.done += 1 }
            }
            e => self.visit_expr_mut(e),
        }
    }
}
impl<'a> VisitMut for Inline<'a> {
    fn visit_item_mut(&mut self, _: &mut syn::Item) {}
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Return(r) = e { if let Some(x) = &mut r.expr { self.tail_expr(x) } return }
        visit_mut::visit_expr_mut(self, e);
        if let Some(x) = self.expand(e, false) { *e = x; self.done += 1 }
    }
    fn visit_macro_mut(&mut self, m: &mut syn::Macro) {
        if m.path.is_ident("vx_try") { if let Ok(mut e) = m.parse_body::<Expr>() { self.visit_expr_mut(&mut e); m.tokens = e.to_token_stream() } }
    }
}

/// `let f = |x| body; ... f(a) ...`
pub struct Closures<'a>(pub usize, pub &'a dyn Fn(&str) -> bool);
impl<'z> VisitMut for Closures<'z> {
    fn visit_item_mut(&mut self, _: &mut syn::Item) {}
    fn visit_block_mut(&mut self, b: &mut Block) {
        let mut i = 0;
        while i < b.stmts.len() {
            let found: Option<(Ident, syn::ExprClosure)> = match &b.stmts[i] {
                Stmt::Local(l) => match (&l.pat, &l.init) {
                    (Pat::Ident(p), Some(init)) if init.diverge.is_none() => match &*init.expr { Expr::Closure(c) => Some((p.ident.clone(), c.clone())), _ => None },
                    _ => None,
                },
                _ => None,
            };
            if let Some((name, c)) = found {
                let n = name.to_string();
                let mut cnt = Count { name: &n, calls: 0, other: 0 };
                for s in &b.stmts[i + 1..] { cnt.visit_stmt(s) }
                let body: Block = match &*c.body { Expr::Block(b) => b.block.clone(), e => parse_quote!({ #e }) };
                let rebound = b.stmts[i + 1..].iter().any(|s| { struct H<'a>(&'a str, bool); impl<'a, 'b> Visit<'b> for H<'a> { fn visit_pat_ident(&mut self, p: &'b syn::PatIdent) { if p.ident == self.0 { self.1 = true } visit::visit_pat_ident(self, p) } } let mut h = H(&n, false); h.visit_stmt(s); h.1 });
                // what the closure captures must mean the same where it's called
                let mut names = vec![]; fn go(ts: TokenStream, v: &mut Vec<String>) { for t in ts { match t { TokenTree::Ident(i) => v.push(i.to_string()), TokenTree::Group(g) => go(g.stream(), v), _ => {} } } } go(body.to_token_stream(), &mut names);
                let later: Vec<String> = { let rest = Block { brace_token: Default::default(), stmts: b.stmts[i + 1..].to_vec() }; binders(TokenStream::new(), &rest) };
                let own = { let mut v = binders(TokenStream::new(), &body); for p in &c.inputs { struct B(Vec<String>); impl<'a> Visit<'a> for B { fn visit_pat_ident(&mut self, p: &'a syn::PatIdent) { self.0.push(p.ident.to_string()) } } let mut x = B(vec![]); x.visit_pat(p); v.extend(x.0) } v };
                let shadow = names.iter().any(|x| later.contains(x) && !own.contains(x));
                if (self.1)(&n) && cnt.other == 0 && cnt.calls > 0 && !rebound && !shadow && c.capture.is_none() && !{ struct L(bool); impl<'a> Visit<'a> for L { fn visit_expr_return(&mut self, _: &'a syn::ExprReturn) { self.0 = true } } let mut l = L(false); l.visit_block(&body); l.0 || leaves(&body) } {
                    let params: Vec<Pat> = c.inputs.iter().map(|p| match p { Pat::Type(t) => (*t.pat).clone(), p => p.clone() }).collect();
                    struct Put<'a> { name: &'a str, params: &'a [Pat], body: &'a Block, bad: bool, n: usize }
                    impl<'a> VisitMut for Put<'a> {
                        fn visit_expr_mut(&mut self, e: &mut Expr) {
                            visit_mut::visit_expr_mut(self, e);
                            if let Expr::Call(c) = e { if let Expr::Path(p) = &*c.func { if p.path.is_ident(self.name) {
                                if c.args.len() != self.params.len() { self.bad = true; return }
                                let ps: Vec<(Pat, Expr)> = self.params.iter().cloned().zip(c.args.iter().cloned()).collect();
                                match instantiate(&ps, None, self.body) { Some(x) => { *e = x; self.n += 1 } None => self.bad = true }
                            } } }
                        }
                    }
                    let mut copy = b.stmts.clone();
                    let mut p = Put { name: &n, params: &params, body: &body, bad: false, n: 0 };
                    for s in &mut copy[i + 1..] { p.visit_stmt_mut(s) }
                    if !p.bad && p.n == cnt.calls { copy.remove(i); b.stmts = copy; self.0 += 1; continue }
                }
            }
            i += 1;
        }
        visit_mut::visit_block_mut(self, b)
    }
}
