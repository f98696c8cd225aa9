//! A small macro_rules expander (fragments: expr ident pat ty literal tt path block; repetitions).
use proc_macro2::{Delimiter, Group, Ident, Spacing, TokenStream, TokenTree};
use std::collections::{BTreeMap, BTreeSet};
use syn::parse::{Parse, ParseStream, Parser};

#[derive(Clone, Debug)]
pub struct MacroDef {
    pub rules: Vec<(Vec<TokenTree>, TokenStream)>,
}

#[derive(Clone, Debug)]
enum Bind {
    One(TokenStream),
    Many(Vec<BTreeMap<String, Bind>>),
}

pub fn parse_def(body: TokenStream) -> Option<MacroDef> {
    let v: Vec<TokenTree> = body.into_iter().collect();
    let mut i = 0;
    let mut rules = vec![];
    while i < v.len() {
        let pat = match &v[i] {
            TokenTree::Group(g) => g.stream().into_iter().collect(),
            _ => return None,
        };
        // => template
        i += 3;
        let tmpl = match v.get(i)? {
            TokenTree::Group(g) => g.stream(),
            _ => return None,
        };
        rules.push((pat, tmpl));
        i += 1;
        if let Some(TokenTree::Punct(p)) = v.get(i) {
            if p.as_char() == ';' {
                i += 1;
            }
        }
    }
    Some(MacroDef { rules })
}

fn prefix<T: Parse + quote::ToTokens>(ts: TokenStream) -> Option<(TokenStream, TokenStream)> {
    let p = |input: ParseStream| -> syn::Result<(TokenStream, TokenStream)> {
        let t: T = input.parse()?;
        let rest: TokenStream = input.parse()?;
        Ok((quote::quote!(#t), rest))
    };
    p.parse2(ts).ok()
}
fn prefix_pat(ts: TokenStream) -> Option<(TokenStream, TokenStream)> {
    let p = |input: ParseStream| -> syn::Result<(TokenStream, TokenStream)> {
        let t = syn::Pat::parse_multi(input)?;
        let rest: TokenStream = input.parse()?;
        Ok((quote::quote!(#t), rest))
    };
    p.parse2(ts).ok()
}

fn same(a: &TokenTree, b: &TokenTree) -> bool {
    match (a, b) {
        (TokenTree::Ident(x), TokenTree::Ident(y)) => x == y,
        (TokenTree::Punct(x), TokenTree::Punct(y)) => x.as_char() == y.as_char(),
        (TokenTree::Literal(x), TokenTree::Literal(y)) => x.to_string() == y.to_string(),
        _ => false,
    }
}

/// matches `pat` at the start of `input`; returns the rest
fn match_seq(
    pat: &[TokenTree],
    mut input: TokenStream,
    b: &mut BTreeMap<String, Bind>,
) -> Option<TokenStream> {
    let mut i = 0;
    while i < pat.len() {
        match &pat[i] {
            TokenTree::Punct(p) if p.as_char() == '$' && i + 1 < pat.len() => {
                match &pat[i + 1] {
                    TokenTree::Ident(name) => {
                        let frag = match &pat[i + 3] {
                            TokenTree::Ident(f) => f.to_string(),
                            _ => return None,
                        };
                        let (t, rest) = match frag.as_str() {
                            "expr" => {
                                let (t, r) = prefix::<syn::Expr>(input.clone())?;
                                (TokenTree::from(Group::new(Delimiter::None, t)).into(), r)
                            }
                            "ident" => prefix::<Ident>(input.clone())?,
                            "ty" => prefix::<syn::Type>(input.clone())?,
                            "pat" => prefix_pat(input.clone())?,
                            "literal" => prefix::<syn::Lit>(input.clone())?,
                            "path" => prefix::<syn::Path>(input.clone())?,
                            "block" => prefix::<syn::Block>(input.clone())?,
                            "tt" => {
                                let mut it = input.clone().into_iter();
                                let t = it.next()?;
                                (t.into(), it.collect())
                            }
                            _ => return None,
                        };
                        b.insert(name.to_string(), Bind::One(t));
                        input = rest;
                        i += 4;
                    }
                    TokenTree::Group(g) => {
                        let inner: Vec<TokenTree> = g.stream().into_iter().collect();
                        // optional separator, then ? * +
                        let mut j = i + 2;
                        let mut sep = None;
                        let op;
                        loop {
                            match pat.get(j)? {
                                TokenTree::Punct(p) if "?*+".contains(p.as_char()) => {
                                    op = p.as_char();
                                    break;
                                }
                                t => {
                                    sep = Some(t.clone());
                                    j += 1;
                                }
                            }
                        }
                        let mut reps = vec![];
                        loop {
                            if input.is_empty() {
                                break;
                            }
                            let mut cur = input.clone();
                            if !reps.is_empty() {
                                if let Some(s) = &sep {
                                    let mut it = cur.into_iter();
                                    let t = it.next()?;
                                    if !same(&t, s) {
                                        break;
                                    }
                                    cur = it.collect();
                                    if cur.is_empty() {
                                        break;
                                    }
                                }
                            }
                            let mut nb = BTreeMap::new();
                            match match_seq(&inner, cur, &mut nb) {
                                Some(rest) => {
                                    reps.push(nb);
                                    input = rest;
                                    if op == '?' {
                                        break;
                                    }
                                }
                                None => break,
                            }
                        }
                        // names bound in the repetition
                        let mut names = BTreeSet::new();
                        collect_names(&inner, &mut names);
                        for n in names {
                            let per: Vec<BTreeMap<String, Bind>> = reps.clone();
                            b.insert(n, Bind::Many(per));
                        }
                        i = j + 1;
                    }
                    _ => return None,
                }
            }
            TokenTree::Group(g) => {
                let mut it = input.into_iter();
                match it.next()? {
                    TokenTree::Group(h) if h.delimiter() == g.delimiter() => {
                        let inner: Vec<TokenTree> = g.stream().into_iter().collect();
                        let rest = match_seq(&inner, h.stream(), b)?;
                        if !rest.is_empty() {
                            return None;
                        }
                    }
                    _ => return None,
                }
                input = it.collect();
                i += 1;
            }
            t => {
                let mut it = input.into_iter();
                let x = it.next()?;
                if !same(t, &x) {
                    return None;
                }
                input = it.collect();
                i += 1;
            }
        }
    }
    Some(input)
}

fn collect_names(pat: &[TokenTree], out: &mut BTreeSet<String>) {
    for i in 0..pat.len() {
        if let TokenTree::Punct(p) = &pat[i] {
            if p.as_char() == '$' {
                match pat.get(i + 1) {
                    Some(TokenTree::Ident(n)) => {
                        out.insert(n.to_string());
                    }
                    Some(TokenTree::Group(g)) => {
                        let v: Vec<TokenTree> = g.stream().into_iter().collect();
                        collect_names(&v, out);
                    }
                    _ => {}
                }
            }
        }
    }
}

/// identifiers bound by `let` in the template (renamed: hygiene)
fn let_names(ts: TokenStream, out: &mut BTreeSet<String>) {
    let v: Vec<TokenTree> = ts.into_iter().collect();
    for i in 0..v.len() {
        match &v[i] {
            TokenTree::Ident(id) if id == "let" => {
                let mut j = i + 1;
                if let Some(TokenTree::Ident(m)) = v.get(j) {
                    if m == "mut" {
                        j += 1;
                    }
                }
                if let Some(TokenTree::Ident(n)) = v.get(j) {
                    out.insert(n.to_string());
                }
            }
            TokenTree::Punct(p) if p.as_char() == '|' => {
                if let Some(TokenTree::Group(g)) = v.get(i + 1) {
                    for t in g.stream() {
                        if let TokenTree::Ident(n) = t {
                            if n.to_string().starts_with("__") {
                                out.insert(n.to_string());
                            }
                        }
                    }
                }
            }
            TokenTree::Group(g) => let_names(g.stream(), out),
            _ => {}
        }
    }
}

fn subst(
    ts: TokenStream,
    b: &BTreeMap<String, Bind>,
    ren: &BTreeSet<String>,
    uid: usize,
) -> TokenStream {
    let v: Vec<TokenTree> = ts.into_iter().collect();
    let mut out: Vec<TokenTree> = vec![];
    let mut i = 0;
    while i < v.len() {
        match &v[i] {
            TokenTree::Punct(p) if p.as_char() == '$' => {
                match v.get(i + 1) {
                    Some(TokenTree::Ident(n)) if n == "crate" => {
                        out.push(TokenTree::Ident(Ident::new("crate", n.span())));
                        i += 2;
                        continue;
                    }
                    Some(TokenTree::Ident(n)) => {
                        if let Some(Bind::One(t)) = b.get(&n.to_string()) {
                            out.extend(t.clone());
                            i += 2;
                            continue;
                        }
                    }
                    Some(TokenTree::Group(g)) => {
                        let inner: Vec<TokenTree> = g.stream().into_iter().collect();
                        let mut names = BTreeSet::new();
                        collect_names(&inner, &mut names);
                        let mut reps: Vec<BTreeMap<String, Bind>> = vec![];
                        for n in &names {
                            if let Some(Bind::Many(m)) = b.get(n) {
                                reps = m.clone();
                            }
                        }
                        let mut j = i + 2;
                        let mut sep = None;
                        loop {
                            match v.get(j) {
                                Some(TokenTree::Punct(p)) if "?*+".contains(p.as_char()) => break,
                                Some(t) => {
                                    sep = Some(t.clone());
                                    j += 1;
                                }
                                None => break,
                            }
                        }
                        for (k, r) in reps.iter().enumerate() {
                            if k > 0 {
                                if let Some(s) = &sep {
                                    out.push(s.clone());
                                }
                            }
                            let mut nb = b.clone();
                            nb.extend(r.clone());
                            out.extend(subst(g.stream(), &nb, ren, uid));
                        }
                        i = j + 1;
                        continue;
                    }
                    _ => {}
                }
                out.push(v[i].clone());
            }
            TokenTree::Ident(n) if ren.contains(&n.to_string()) => {
                // not a field / method / path segment
                let after_dot = matches!(out.last(), Some(TokenTree::Punct(p)) if p.as_char()=='.');
                let struct_field = matches!(v.get(i+1), Some(TokenTree::Punct(p)) if p.as_char()==':' )
                    ;
                let assign_kw = matches!(v.get(i+1), Some(TokenTree::Punct(p)) if p.as_char()=='=' && p.spacing()==Spacing::Alone)
                    && !matches!(out.last(), Some(TokenTree::Ident(k)) if k == "let" || k == "mut");
                // `code = $x` inside a nested macro call is a keyword, not a variable
                if after_dot || struct_field || (assign_kw && i == 0) {
                    out.push(v[i].clone());
                } else {
                    out.push(TokenTree::Ident(Ident::new(
                        &format!("{}_m{}", n, uid),
                        n.span(),
                    )));
                }
            }
            TokenTree::Group(g) => {
                let mut ng = Group::new(g.delimiter(), subst(g.stream(), b, ren, uid));
                ng.set_span(g.span());
                out.push(TokenTree::Group(ng));
            }
            t => out.push(t.clone()),
        }
        i += 1;
    }
    out.into_iter().collect()
}

pub fn expand(def: &MacroDef, input: TokenStream, uid: usize) -> Option<TokenStream> {
    for (pat, tmpl) in &def.rules {
        let mut b = BTreeMap::new();
        if let Some(rest) = match_seq(pat, input.clone(), &mut b) {
            if rest.is_empty() {
                let mut names = BTreeSet::new();
                let_names(tmpl.clone(), &mut names);
                return Some(subst(tmpl.clone(), &b, &names, uid));
            }
        }
    }
    None
}

/// replaces every occurrence of a token pattern (macro_rules pattern syntax) by a template
pub fn rewrite(ts: TokenStream, pat: &[TokenTree], tmpl: &TokenStream) -> TokenStream {
    let v: Vec<TokenTree> = ts.into_iter().collect();
    let mut out: Vec<TokenTree> = vec![];
    let mut i = 0;
    while i < v.len() {
        let rest: TokenStream = v[i..].iter().cloned().collect();
        let mut b = BTreeMap::new();
        if let Some(r) = match_seq(pat, rest, &mut b) {
            let n = r.clone().into_iter().count();
            let used = (v.len() - i) - n;
            if used > 0 {
                out.extend(subst(tmpl.clone(), &b, &BTreeSet::new(), 0));
                i += used;
                continue;
            }
        }
        match &v[i] {
            TokenTree::Group(g) => {
                out.push(TokenTree::Group(Group::new(
                    g.delimiter(),
                    rewrite(g.stream(), pat, tmpl),
                )));
            }
            t => out.push(t.clone()),
        }
        i += 1;
    }
    out.into_iter().collect()
}
