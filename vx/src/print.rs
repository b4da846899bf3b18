//! Token printing. Markers `vx_hint!(n)` / `vx_loopspec!(n)` are replaced with annotation text.
use proc_macro2::{Delimiter, Spacing, TokenStream, TokenTree};

/// Compact normal form, used for comparing.
pub fn flat(ts: TokenStream) -> String {
    let mut s = String::new();
    go(ts, &mut s);
    fn go(ts: TokenStream, s: &mut String) {
        for t in ts {
            match t {
                TokenTree::Group(g) => {
                    let (a, b) = delims(g.delimiter());
                    s.push_str(a); go(g.stream(), s); s.push_str(b);
                }
                TokenTree::Punct(p) => s.push(p.as_char()),
                other => {
                    let o = other.to_string();
                    if s.chars().last().map_or(false, |c| c.is_alphanumeric() || c == '_') && o.chars().next().map_or(false, |c| c.is_alphanumeric() || c == '_') { s.push(' ') }
                    s.push_str(&o)
                }
            }
        }
    }
    s
}

fn delims(d: Delimiter) -> (&'static str, &'static str) {
    match d { Delimiter::Parenthesis => ("(", ")"), Delimiter::Brace => ("{", "}"), Delimiter::Bracket => ("[", "]"), Delimiter::None => ("", "") }
}

fn marker(ts: &[TokenTree], i: usize, name: &str) -> Option<usize> {
    if let (Some(TokenTree::Ident(id)), Some(TokenTree::Punct(p)), Some(TokenTree::Group(g))) = (ts.get(i), ts.get(i + 1), ts.get(i + 2)) {
        if id == name && p.as_char() == '!' { return g.stream().to_string().trim().parse().ok() }
    }
    None
}

pub fn pretty(ts: TokenStream, hints: &[String]) -> String {
    let mut s = String::new();
    go(ts, hints, &mut s, 0);
    s
}

fn nl(s: &mut String, d: usize) { s.push('\n'); for _ in 0..d { s.push_str("    ") } }

fn go(ts: TokenStream, hints: &[String], s: &mut String, d: usize) {
    let v: Vec<TokenTree> = ts.into_iter().collect();
    let mut i = 0;
    while i < v.len() {
        if let Some(n) = marker(&v, i, "vx_hint") {
            nl(s, d); s.push_str(&hints[n]); nl(s, d);
            i += 3;
            if let Some(TokenTree::Punct(p)) = v.get(i) { if p.as_char() == ';' { i += 1 } }
            continue;
        }
        match &v[i] {
            TokenTree::Group(g) => {
                if g.delimiter() == Delimiter::Brace {
                    let inner: Vec<TokenTree> = g.stream().into_iter().collect();
                    let mut start = 0;
                    while let Some(n) = marker(&inner, start, "vx_loopspec") {
                        nl(s, d + 1); s.push_str(&hints[n]); nl(s, d);
                        start += 3;
                        if let Some(TokenTree::Punct(p)) = inner.get(start) { if p.as_char() == ';' { start += 1 } }
                    }
                    s.push_str(" {"); nl(s, d + 1);
                    go(inner[start..].iter().cloned().collect(), hints, s, d + 1);
                    nl(s, d); s.push('}');
                    let next_is_cont = match v.get(i + 1) { Some(TokenTree::Punct(p)) => ".,;?)".contains(p.as_char()), Some(TokenTree::Ident(x)) => x == "else", None => true, _ => false };
                    if !next_is_cont { nl(s, d) }
                } else {
                    let (a, b) = delims(g.delimiter());
                    s.push_str(a); go(g.stream(), hints, s, d + 1); s.push_str(b);
                }
            }
            TokenTree::Punct(p) => {
                s.push(p.as_char());
                if p.as_char() == ';' { nl(s, d) }
                else if p.as_char() == '\'' {}
                else if p.spacing() == Spacing::Alone { s.push(' ') }
            }
            other => { s.push_str(&other.to_string()); s.push(' ') }
        }
        i += 1;
    }
}
